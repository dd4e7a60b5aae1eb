#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'breaks' main.rs : record /tmp/wt's working-tree change as /verif/seeded/ID"""
import sys, os, shutil, subprocess, json, re
sid, prop, needs, breaks, main = sys.argv[1:6]
d = f"/verif/seeded/{sid}"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/h/demo/src"); os.makedirs(d + "/h/irlib/src")
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/tmp/wt", "diff"], text=True))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/seedkit/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
ig = shutil.ignore_patterns("target", "Cargo.lock")
shutil.copytree("/verif/vcore", d + "/h/vcore", ignore=ig)
for x in ["fam.rs", "fam2.rs", "fam3.rs", "prog.rs"]:
    if os.path.exists(d + "/h/vcore/src/" + x): os.remove(d + "/h/vcore/src/" + x)
p = d + "/h/vcore/src/lib.rs"; s = open(p).read(); s = re.sub(r"pub mod (fam\d?|prog);\s*", "", s); s = s.split("#[cfg(test)]")[0]; open(p, "w").write(s)
shutil.copytree("/verif/stubs", d + "/h/stubs", ignore=ig)
for x in ["lib.rs", "util.rs", "interp.rs"]: shutil.copy("/verif/irmc/src/" + x, d + "/h/irlib/src/" + x)
p = d + "/h/irlib/src/lib.rs"; s = open(p).read(); s = "\n".join(l for l in s.split("\n") if l.strip() not in ("pub mod check;", "pub mod types;",)); open(p, "w").write(s)
c = open("/verif/irmc/Cargo.toml").read()
patch = c[c.index("[patch"):]
open(d + "/h/irlib/Cargo.toml", "w").write('[package]\nname = "irmc"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\nonnx-ir = { path = "@REPO@/crates/onnx-ir", default-features = false, features = ["mmap"] }\nburn-tensor = { path = "../stubs/burn-tensor" }\nvcore = { path = "../vcore" }\nlog = "0.4"\n')
s = open(d + "/h/vcore/Cargo.toml").read().replace("[workspace]\n", ""); s = re.sub(r"\[profile[^\[]*", "", s); open(d + "/h/vcore/Cargo.toml", "w").write(s)
open(d + "/h/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\nirmc = { path = "../irlib" }\nonnx-ir = { path = "@REPO@/crates/onnx-ir", default-features = false }\nvcore = { path = "../vcore" }\nlog = "0.4"\n[profile.dev]\ndebug = 0\n' + patch)
shutil.copy("/verif/irmc/Cargo.lock", d + "/h/demo/Cargo.lock")
shutil.copy(main, d + "/h/demo/src/main.rs")
