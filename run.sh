#!/bin/bash
# bash run.sh <property> [--replay FILE]
# Rebuilds the monitors from /repo's working tree and runs the check of one property.
# VERIF_TIER (quick|thorough) and VERIF_SEED choose the tier and the seed.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
id="$1"; shift
tier="${VERIF_TIER:-quick}"; seed="${VERIF_SEED:-1}"
replay=""
while [ $# -gt 0 ]; do
  case "$1" in
    --replay) replay="$2"; shift 2;;
    --tier) tier="$2"; shift 2;;
    --seed) seed="$2"; shift 2;;
    *) echo "unknown argument $1"; exit 3;;
  esac
done
mkdir -p "$here/.build" "$here/evidence" "$here/replays"
cd "$here/harness" || exit 3
build() {
  case "$1" in
    plain) go build -o "$here/.build/vmon-plain" ./cmd/vmon;;
    race)  CGO_ENABLED=1 go build -race -o "$here/.build/vmon-race" ./cmd/vmon;;
    asan)  CGO_ENABLED=1 CC=clang go build -asan -o "$here/.build/vmon-asan" ./cmd/vmon;;
    *) return 1;;
  esac
}
build plain || { echo "BUILD FAILED (plain)"; exit 3; }
if [ -n "$replay" ]; then
  field() { sed -n "s/^ \"$1\": \"\{0,1\}\([^\",]*\)\"\{0,1\},\{0,1\}\$/\1/p" "$replay" | head -1; }
  v="$(field variant)"
  build "$v" || { echo "BUILD FAILED ($v)"; exit 3; }
  exec "$here/.build/vmon-plain" run "$(field property)" -verif "$here" -seed "$(field seed)" -tier "$(field tier)" -variant "$v" -only "$(field index)"
fi
for v in $("$here/.build/vmon-plain" variants "$id"); do
  [ "$v" = plain ] || build "$v" || { echo "BUILD FAILED ($v)"; exit 3; }
done
exec "$here/.build/vmon-plain" run "$id" -verif "$here" -seed "$seed" -tier "$tier"
