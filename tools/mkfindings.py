#!/usr/bin/env python3
"""mkfindings.py Cxx replay.txt: writes the finding lines for failures whose cause is in the table; prints the rest.
Used by hand after a failure has been understood; no check runs it."""
import re, sys
T = [
 (r'/(static|default|dyn|dynamic|const|input)?/?scalar|^Clip/input|/scalar$', r'does not compile', 'the generated code of several element-wise operators applies tensor functions to a rank-0 value, which is a native number; it does not compile'),
 (r'^Clip/', r'', 'Clip of a rank-0 value generates code that does not compile'),
 (r'^Gelu/approximate=tanh', '', 'Gelu with approximate="tanh" is generated as the exact Gelu'),
 (r'^PRelu/const', '', 'PRelu slopes are applied per channel whatever their shape; ONNX broadcasts them'),
 (r'^Mod/fmod=0.*scalar_scalar', '', 'Mod of two native numbers uses the remainder with the sign of the dividend instead of the divisor'),
 (r'^Pow/mixed', '', 'Pow of an integer base to a float exponent generates code that does not compile'),
 (r'^Reshape/', '', 'Reshape of a rank-0 value to a tensor of rank 1 or more generates code that does not compile'),
 (r'^Flatten/', '', 'Flatten with axis 0 is generated as a reshape to a rank the result does not have'),
 (r'^ScatterND/', '', 'ScatterND whose updates have rank 0 per index generates code that does not compile or fails'),
 (r'^Range/', '', 'Range is generated as an integer ascending range: float operands do not compile, a negative run-time step gives nothing'),
 (r'^Size/', '', 'Size generates a use of a method as a field, which does not compile'),
 (r'^CumSum/runtime', '', 'CumSum with a negative axis given at run time does not normalise the axis'),
 (r'^(Softmax|LogSoftmax|Hardmax)/opset11', '', 'before opset 13 Softmax, LogSoftmax and Hardmax normalise over all dimensions from axis on; the generated code uses only the axis'),
 (r'^Resize/nearest', '', 'the nearest_mode, coordinate mode and runtime rank-3 forms of Resize are ignored by the generated code'),
 (r'^Resize/(linear|cubic)/asymmetric', '', 'coordinate_transformation_mode=asymmetric of linear and cubic Resize is generated as half_pixel'),
 (r'^Resize/.*sizes-runtime', '', 'Resize of a rank-3 input with run-time sizes generates code that does not compile'),
 (r'^GroupNorm/opset18', '', 'before opset 21 the scale and bias of GroupNormalization have one element per group; the generated layer has one per channel'),
 (r'^Attention/', '', 'Attention with is_causal=1 ignores attn_mask (an existing unit test pins this)'),
 (r'layout=1', '', 'with layout=1 the batch-first layouts of initial_h, initial_c, Y, Y_h, Y_c of recurrent layers are not the ONNX ones'),
 (r'^LSTM/.*init=h/', '', 'LSTM with initial_h but no initial_c ignores initial_h'),
]
pid, f = sys.argv[1:3]
fk = "/verif/known_findings.txt"
have = set(l for l in open(fk))
new, rest = [], []
for b in open(f).read().split("\n== "):
    b = b.removeprefix("== ")
    k, _, d = b.partition("\n")
    if k.startswith("total"): continue
    for rk, rd, desc in T:
        if re.search(rk, k) and re.search(rd, d):
            l = f"finding: property={pid} key={k} -- {desc}\n"
            if l not in have: new.append(l); have.add(l)
            break
    else: rest.append((k, d[:150].replace("\n", " ")))
if len(sys.argv) > 3: open(fk, "a").writelines(new)
print(len(new), "listed")
for r in rest[:40]: print("UNEXPLAINED", *r)
