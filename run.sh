#!/bin/bash
# usage: run.sh <PROPERTY-ID> [replay-file]
# Rebuilds the harness of one property against /repo's current working tree (through a
# build overlay: nothing is written in /repo) and runs it. Exit 0 = held, 1 = VIOLATION.
set -u
ID=$1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export VERIF_EVIDENCE_DIR=${VERIF_EVIDENCE_DIR:-$HERE/evidence} VERIF_KNOWN=$HERE/KNOWN_FINDINGS.jsonl VERIF_HOME=$HERE VERIF_REPO_DIR=$REPO
[ $# -ge 2 ] && export VERIF_REPLAY=$2
mkdir -p "$VERIF_EVIDENCE_DIR"
W=$(mktemp -d "${TMPDIR:-/tmp}/verif.$ID.XXXXXX") || exit 3
# reports are written to memory when possible: thousands of them per second
VERIF_SCRATCH=$(mktemp -d "/dev/shm/verif.$ID.XXXXXX" 2>/dev/null) || { VERIF_SCRATCH=$W/scratch; mkdir -p "$VERIF_SCRATCH"; }
export VERIF_SCRATCH VERIF_WORK=$W
trap 'rm -rf "$W" "$VERIF_SCRATCH"' EXIT
python3 "$HERE/bin/overlay.py" "$HERE" "$REPO" "$ID" "$W" >"$W/build.env" || exit 3
. "$W/build.env"
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GONOSUMDB=* CGO_ENABLED=0
if ! (cd "$REPO" && go build -overlay "$W/overlay.json" $EXTRA_FLAGS -o "$W/check" "./zz_verif/$DIR") >"$W/build.log" 2>&1; then
  echo "BUILD ERROR for $ID:"; head -40 "$W/build.log"; exit 3
fi
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
"$W/check" "$ID" 2>"$W/stderr"; rc=$?
head -c 20000 "$W/stderr" >&2
case $rc in 0|1|3) exit $rc;; esac
# The process itself died. Go ends a process (uncatchably) on unbounded recursion, concurrent
# map access or a deadlock of all goroutines of the code under test: that is a violation, if
# it happens again.
if grep -qE '^(fatal error|runtime): .*(stack overflow|concurrent map|all goroutines are asleep|stack exceeds)|goroutine stack exceeds' "$W/stderr" || grep -q '^panic: ' "$W/stderr"; then
  "$W/check" "$ID" >/dev/null 2>"$W/stderr2"; rc2=$?
  case $rc2 in 0|1|3) exit $rc2;; esac
  mkdir -p "$VERIF_EVIDENCE_DIR/replay"
  head -c 20000 "$W/stderr2" >"$VERIF_EVIDENCE_DIR/replay/$ID-crash.txt"
  printf '{"property":"%s","tier":"%s","seed":%s,"level":"model_checking","coverage":{"states":1,"transitions":1,"traces_validated_against_impl":1,"samples":["the code under test crashed the whole process, see replay/%s-crash.txt"]},"assumptions":[],"wall_s":1,"violations":1}\n' "$ID" "$VERIF_TIER" "$VERIF_SEED" "$ID" >"$VERIF_EVIDENCE_DIR/$ID.json"
  echo "VIOLATION property=$ID replay=$VERIF_EVIDENCE_DIR/replay/$ID-crash.txt"
  exit 1
fi
exit $rc
