#!/usr/bin/env python3
"""Copy the crates under test to work/det with std's hash containers replaced by those of detstd.
The text of each source file is unchanged but for the path it takes them from."""
import os, re, sys, shutil
REPO, OUT = "/repo", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work", "det")
def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, "rb").read() == data: return
    open(path, "wb").write(data)
PLAIN = "--plain" in sys.argv  # only copied: for a tree that uses more of the containers than detstd has
keep = set()
def emit(rel, data):
    p = os.path.join(OUT, rel); keep.add(p); put(p, data)
root = open(f"{REPO}/Cargo.toml").read()
root = re.sub(r"(?ms)^members\s*=\s*\[.*?\]", 'members = ["crates/onnx-ir", "crates/onnx-ir-derive", "crates/burn-onnx"]', root)
root = re.sub(r"(?ms)^(exclude|default-members)\s*=\s*\[.*?\]\n", "", root)
emit("Cargo.toml", root.encode())
for c in ("onnx-ir", "onnx-ir-derive", "burn-onnx"):
    base = f"{REPO}/crates/{c}"
    for d, ds, fs in os.walk(base):
        rel = os.path.relpath(d, REPO)
        ds[:] = [x for x in ds if x not in ("target", "tests", "benches", "examples", "snapshots") and not x.startswith(".")]
        for f in fs:
            p = os.path.join(d, f); data = open(p, "rb").read()
            if f.endswith(".rs") and PLAIN is False and c != "onnx-ir-derive" and f != "build.rs":
                s = data.decode()
                s = re.sub(r"(?<![\w:])(::)?std::collections\b", "::detstd::collections", s)
                s = re.sub(r"(?m)^(\s*(?:pub(?:\([^)]*\))?\s+)?use\s+)(::)?std::(?=\s*\{)", r"\1::detstd::", s)
                data = s.encode()
            elif f == "Cargo.toml":
                s = data.decode()
                s = re.sub(r"(?ms)^\[\[(bench|test|example)\]\].*?(?=^\[|\Z)", "", s)
                s = re.sub(r"(?m)^readme\s*=.*\n", "", s)
                if c != "onnx-ir-derive":
                    s = s.replace("\n[dependencies]\n", '\n[dependencies]\ndetstd = { path = "../../../../detstd" }\n', 1)
                data = s.encode()
            emit(f"{rel}/{f}", data)
for d, _, fs in os.walk(OUT):
    for f in fs:
        p = os.path.join(d, f)
        if p not in keep and not p.endswith("Cargo.lock"): os.unlink(p)
