#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the demonstrated case
set -u
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
cp -r "$D/h/." "$W/"
for f in "$W/demo/Cargo.toml" "$W/demo/src/main.rs" "$W/irlib/Cargo.toml"; do [ -f "$f" ] && sed -i "s#@REPO@#$R#g" "$f"; done
export CARGO_TARGET_DIR="$W/target" VERIF_SCRATCH="$W" CARGO_NET_OFFLINE=true
cd "$W/demo" && cargo build --offline -q 2>"$W/log" || { tail -30 "$W/log"; exit 3; }
mkdir -p "$W/run" && cd "$W/run" && "$W/target/debug/demo"
