#!/bin/bash
# check.sh <property> <quick|thorough> [options of the explorer]
# Builds the explorer of the property from /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 3
VERIF_DIR="$(pwd)"
export VERIF_DIR
prop="$1"
tier="$2"
shift 2
profile=release
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/target"
case "$prop" in
    P01 | P02 | P03 | P04 | P05 | P06) crate=mc bin=rmap ;;
    P07) crate=mc bin=views ;;
    P08) crate=mc bin=rset ;;
    P09 | P10 | P11) crate=mc bin=tables ;;
    P12 | P13) crate=mc bin=own ;;
    P14) crate=mc bin=cap profile=plain ;;
    P15 | P16 | P17) crate=mx bin=relate ;;
    P18) crate=mx bin=attr ;;
    P2? | P3? | P4?) crate=vm bin=vx ;;
    *)
        echo "unknown property $prop" >&2
        exit 3
        ;;
esac
log="$VERIF_DIR/target/build-$prop.log"
if ! tools/build.sh "$crate" >"$log" 2>&1; then
    echo "ERROR cannot build the explorer for $prop" >&2
    tail -40 "$log" >&2
    exit 3
fi
exec "$VERIF_DIR/target/$profile/$bin" "$prop" "$tier" "$@"
