#!/bin/bash
# run.sh ID [options]: builds the monitors against /repo's working tree and runs those of one property.
# Options are passed on (--only WORKLOAD --case N replays one case; --scale X, --tier thorough ...).
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
id=$1
shift
case $id in
    C20 | C21) exec python3 tools/san.py "$id" "$@" ;;
esac
profile=release
# every check of the compiler and of the standard library is on for these
[ "$id" = C19 ] && profile=checked
log=$(mktemp)
if ! cargo build --offline --profile $profile --manifest-path mon/Cargo.toml >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "ERROR: the monitors do not build against /repo"
    exit 2
fi
rm -f "$log"
exec target/$profile/mon run "$id" --out "evidence/$id.json" --replays replays "$@"
