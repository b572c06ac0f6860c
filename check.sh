#!/bin/bash
# check.sh <property> : build the harness against /repo's working tree, run one check.
# Tier and seed come from VERIF_TIER and VERIF_SEED. The properties about
# schedules are checked with a harness built with the race detector.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" || exit 2
mkdir -p "$here/.build"
case "$1" in
P30 | P31) bin=vh_race race=-race ;;
*) bin=vh race= ;;
esac
if ! go build $race -o "$here/.build/$bin" ./cmd/vh; then
  echo "check.sh: building against /repo failed" >&2
  exit 2
fi
cd "$here" || exit 2
exec "$here/.build/$bin" -root "$here" -property "$1" -tier "${VERIF_TIER:-quick}"
