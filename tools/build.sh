#!/bin/bash
# build.sh <crate>: builds all explorers of one harness crate from /repo's working tree.
set -u
cd "$(dirname "$0")/.." || exit 3
VERIF_DIR="$(pwd)"
export RUSTUP_TOOLCHAIN=nightly-2026-05-18
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS
crate="$1"
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/target"
# cargo looks at file times; rebuild whenever the sources' contents changed
stamp="$VERIF_DIR/target/sources-$crate"
case "$crate" in
    mc)
        trees="hashbrown rubymap ruby_traits"
        packages="-p hashbrown -p rubymap -p ruby_traits -p mc"
        ;;
    mx)
        trees="hashbrown rubymap ruby_traits monoruby_attr"
        packages="-p hashbrown -p rubymap -p ruby_traits -p monoruby-attr -p mc -p mx"
        ;;
    vm)
        trees="hashbrown rubymap ruby_traits monoruby_attr monoruby/src"
        packages="-p hashbrown -p rubymap -p ruby_traits -p monoruby-attr -p monoruby -p vm"
        ;;
    *) exit 3 ;;
esac
now=$(cd /repo && find $trees -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
cd "$VERIF_DIR/$crate" || exit 3
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ] && [ -e "$stamp" ]; then
    cargo clean --release --offline $packages
    [ "$crate" != mc ] || cargo clean --profile plain --offline $packages
fi
cargo build --release --offline || exit 1
# room and memory are looked at in code compiled as it is shipped, without extra assertions
[ "$crate" != mc ] || cargo build --profile plain --offline --bin cap || exit 1
echo "$now" >"$stamp"
