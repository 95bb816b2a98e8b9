#!/bin/bash
# Compiles the TLC overrides and the harness crates once (the checks do it again where needed).
cd "$(dirname "$0")/.." || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
J=/opt/veriftools/tla
mkdir -p build/classes && javac -nowarn -cp $J/tla2tools.jar:$J/CommunityModules-deps.jar -d build/classes java/*.java || exit 1
for c in space storage pool; do
  [ -f harness/$c/Cargo.toml ] && (cd harness/$c && RUSTFLAGS="$RUSTFLAGS -Awarnings" cargo build --offline --quiet --target-dir ../../build/t-$c || echo "warning: harness/$c did not build")
done
exit 0
