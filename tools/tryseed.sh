#!/bin/bash
# tryseed.sh ID [checks...] : baseline demo, apply, build, test, demo, checks, undo
S=/verif/seeded/$1; shift
cd /repo; [ -z "$(git status --short)" ] || { echo dirty; exit 1; }
t=$(mktemp -d); cp -r "$S" "$t/x"; rm -f "$t/x/patch.diff" "$t/x/meta.json"
bash "$t/x/demo.sh" >"$t/o" 2>&1; echo "demo unchanged: $? (0 wanted)"; 
git apply "$S/patch.diff" || exit 1
bash /opt/vp/build.sh >"$t/b" 2>&1; echo "build: $?"
bash /opt/vp/test.sh "$t/r.json" >"$t/tt" 2>&1; echo "test: $? $(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('$t/r.json'));print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})")"
bash "$t/x/demo.sh" >"$t/o2" 2>&1; echo "demo patched: $? (nonzero wanted)"; tail -3 "$t/o2"
for c in "$@"; do /verif/run.sh $c quick 2>&1 | tail -4 | cut -c1-400; done
git checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1; git status --short; rm -rf "$t"
