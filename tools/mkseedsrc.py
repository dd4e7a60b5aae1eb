#!/usr/bin/env python3
"""mkseedsrc.py ID PROPERTY needs breaks main.rs : like mkseed.py, for demos that include single source files"""
import sys, os, shutil, subprocess, json
sid, prop, needs, breaks, main = sys.argv[1:6]
d = f"/verif/seeded/{sid}"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/h/demo/src")
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/tmp/wt", "diff"], text=True))
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/seedkit/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
open(d + "/h/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[dependencies]\nproc-macro2 = "1"\nquote = "1"\nsyn = { version = "2", features = ["full", "parsing"] }\nrust-format = { version = "0.3", features = ["pretty_please", "post_process"] }\n[profile.dev]\ndebug = 0\n')
shutil.copy("/verif/srcmc/Cargo.lock", d + "/h/demo/Cargo.lock")
shutil.copy(main, d + "/h/demo/src/main.rs")
