#!/bin/bash
# Usage: check.sh <property> quick|thorough
#        check.sh <property> replay <file>
# Builds the monitors against /repo's working tree, then runs them.
# Exit 0: held on everything observed. Exit 1: VIOLATION. Other: no verdict.
set -u
V=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
mode=${2:-quick}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
seed=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/verif-XXXXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 3' INT TERM
export TMPDIR="$work/tmp"
mkdir -p "$TMPDIR" "$work/h" "$V/evidence/replay"
cp "$V"/harness/*.go "$V/harness/go.mod" "$V/harness/go.sum" "$work/h/"
cd "$work/h" || exit 3
pk=github.com/tc-hib/winres
# Coverage counters are atomic with the race detector: they would order goroutines and hide races.
instr=(-cover -coverpkg=$pk,$pk/version)
case $prop in
  C29) instr=(-race) ;;
esac
if ! go build "${instr[@]}" -o "$work/vrun" . 2> "$work/build.log"; then
  cat "$work/build.log" >&2
  echo "INCONCLUSIVE property=$prop: the harness or the repository does not build" >&2
  exit 3
fi
case $prop in
  C02|C06|C07|C08|C09|C10|C12|C15|C16) bash "$V/tools/realexe.sh" "$work" > "$work/real.log" 2>&1; export VRUN_REAL="$work/real" ;;
esac
cd "$work" || exit 3
export VRUN_WORK="$work"
if [ "$mode" = replay ]; then
  f=$(realpath "${3:?file}")
  GOCOVERDIR="$work/tmp" "$work/vrun" -replay "$f"
  exit $?
fi
mkdir -p "$work/cov" "$work/covp"
VRUN_COVERDIR="$work/cov" GOCOVERDIR="$work/covp" "$work/vrun" -prop "$prop" -tier "$mode" -seed "$seed" \
  -evidence "$V/evidence/$prop.json" -replaydir "$V/evidence/replay" -known "$V/known_findings.txt"
exit $?
