#!/bin/bash
# run.sh Cxx quick|thorough : build from /repo's working tree and run one check
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD" VERIF_TIER="${2:-quick}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
B="$CARGO_TARGET_DIR/debug"; S="$PWD/work/bin"; mkdir -p "$S" "$PWD/work/tmp"
export VERIF_SCRATCH="$PWD/work/tmp"
ir() { # build irmc, with the private-module part when it compiles
  local feat="$1" out="$2"
  if ! (cd irmc && cargo build --offline -q --no-default-features --features "$feat,unit") 2>"$S/$out.log"; then
    (cd irmc && cargo build --offline -q --no-default-features --features "$feat") 2>"$S/$out.log" || { tail -60 "$S/$out.log"; echo "build failed"; exit 3; }
  fi
  cp -f "$B/irmc" "$S/$out"
}
nommap() {
  (cd irmc && cargo build --offline -q --no-default-features) 2>"$S/nommap.log" || { tail -60 "$S/nommap.log"; echo "build failed"; exit 3; }
  cp -f "$B/irmc" "$S/irmc-buffered"
}
src() {
  (cd srcmc && cargo build --offline -q) 2>"$S/srcmc.log" || { tail -60 "$S/srcmc.log"; echo "build failed"; exit 3; }
  cp -f "$B/srcmc" "$S/srcmc"
}
cg() { # the generated-code checks: the generator, and the runtime crates generated code is linked to
  (cd cgmc && cargo build --offline -q) 2>"$S/cgmc.log" || { tail -60 "$S/cgmc.log"; echo "build failed"; exit 3; }
  cp -f "$B/cgmc" "$S/cgmc"; cp -f "$B/onnx2burn" "$S/onnx2burn"
  (cd cgrt && cargo build --offline -q --message-format=json) >"$PWD/work/cgrt.json" 2>"$S/cgrt.log" || { tail -60 "$S/cgrt.log"; echo "build failed"; exit 3; }
  export CGRT_JSON="$PWD/work/cgrt.json"
}
det() { # copies of the crates with explored hash orders
  # a tree that uses more of the containers than detstd has is explored with std's own orders only
  python3 tools/detcopy.py || exit 3
  (cd dtmc && cargo build --offline -q) 2>"$S/dtmc.log" || { python3 tools/detcopy.py --plain && (cd dtmc && cargo build --offline -q) 2>"$S/dtmc.log"; } || { tail -60 "$S/dtmc.log"; echo "build failed"; exit 3; }
  cp -f "$B/dtmc" "$S/dtmc"
}
case "$1" in
  setup) ir mmap irmc; nommap; src; cg; det; exit 0 ;;
  C12) cg; det; export CGMC="$S/cgmc"; exec "$S/dtmc" ;;
  C11|C13|C14|C15|C16|C17|C18|C19|C20|C21|C22|C23) cg; exec "$S/cgmc" "$1" ;;
  C24) src; exec "$S/srcmc" ;;
  C07|C08) nommap; ir mmap irmc; export IRMC_OTHER="$S/irmc-buffered"; exec "$S/irmc" "$1" ;;
  *) ir mmap irmc; exec "$S/irmc" "$1" ;;
esac
