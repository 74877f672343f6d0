#!/bin/bash
# build.sh OUT [extra go build flags]: builds the monitor program from /repo's current tree through an overlay.
# With MW_CLOCK=1 the program reads the wall clock with an offset of $MW_CLOCK_SHIFT seconds (an overlay of the
# standard library's time package), so that a node process can be run at another time of day or in another year.
set -e
OUT=$1; shift || true
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO=${MW_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
OV="$OUT.overlay.json"
{
  echo '{"Replace":{'
  first=1
  for f in "$HERE"/harness/mwmon/*.go; do
    [ $first = 1 ] || echo ','
    first=0
    printf '"%s/zzverif/mwmon/%s": "%s"' "$REPO" "$(basename "$f")" "$f"
  done
  if [ -n "$MW_CLOCK" ]; then
    G="$(go env GOROOT)/src/time"
    sed 's/^\tsec, nsec, mono := now()$/&\n\tsec += nowShift/' "$G/time.go" > "$OUT.time.go"
    cmp -s "$G/time.go" "$OUT.time.go" && { echo "cannot shift the clock" >&2; exit 1; }
    cat > "$OUT.shift.go" <<'S'
package time

import "syscall"

var nowShift int64

func init() {
	s, ok := syscall.Getenv("MW_CLOCK_SHIFT")
	if !ok {
		return
	}
	neg := false
	for _, c := range s {
		if c == '-' {
			neg = true
		} else {
			nowShift = nowShift*10 + int64(c-'0')
		}
	}
	if neg {
		nowShift = -nowShift
	}
}
S
    printf ',\n"%s/time.go": "%s",\n"%s/zz_shift.go": "%s"' "$G" "$OUT.time.go" "$G" "$OUT.shift.go"
  fi
  echo '}}'
} > "$OV"
cd "$REPO"
go build -tags norace -overlay "$OV" "$@" -o "$OUT" ./zzverif/mwmon
