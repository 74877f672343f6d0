#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the monitors with /repo's current tree and runs the check of one property.
cd "$(dirname "$0")"
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
OUT=/tmp/mwmon-build
mkdir -p "$OUT" evidence
FLAGS=
BIN="$OUT/mwmon"
W=8
if [ "$PROP" = D02 ]; then
  # the chains are recorded with the plain program, and executed under the race detector
  if ! tools/build.sh "$OUT/mwmon" >"$OUT/build.log" 2>&1; then
    cat "$OUT/build.log" >&2
    echo "cannot build the monitors against /repo" >&2
    exit 2
  fi
  export MW_PLAINBIN="$OUT/mwmon"
  FLAGS="-race"; BIN="$OUT/mwmon-race"; W=2
fi
if ! tools/build.sh "$BIN" $FLAGS >"$OUT/build.log" 2>&1; then
  cat "$OUT/build.log" >&2
  echo "cannot build the monitors against /repo" >&2
  exit 2
fi
if [ "$PROP" = D01 ]; then
  # the node processes run with another clock
  if ! MW_CLOCK=1 tools/build.sh "$OUT/mwmon-clock" >"$OUT/build.log" 2>&1; then
    cat "$OUT/build.log" >&2
    echo "cannot build the node program against /repo" >&2
    exit 2
  fi
  export MW_CLOCKBIN="$OUT/mwmon-clock"
fi
grep -h "^KNOWN-FINDING: property=$PROP " known-findings.txt 2>/dev/null
exec "$BIN" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -evidence "evidence/$PROP.json" -replays /tmp/mwmon-replays -workers $W
