#!/bin/bash
# usage: check.sh <property> [quick|thorough|replay <file>|selftest]
# Builds the simulator around the current sources of /repo and searches for
# violations of one property.  Exit 0: held; 1: VIOLATION printed; else trouble.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
PROP=${1:?property}
MODE=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOSUMDB=off GOWORK=off CGO_ENABLED=1
RACE=" C10 C11 C12 C13 C16 C20 C25 "
T=$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX") || exit 2
PID=
trap 'rm -rf "$T"' EXIT
trap 'kill $PID 2>/dev/null; exit 2' INT TERM
MOD=()
if [ "$REPO" != /repo ]; then
  sed "s#=> /repo#=> $REPO#" "$V/sim/go.mod" >"$T/go.mod" && cp "$V/sim/go.sum" "$T/go.sum" || exit 2
  MOD=(-modfile "$T/go.mod")
  export SIM_MODFILE="$T/go.mod"
fi
cd "$V/sim" || exit 2
mkdir -p "$T/ov" "$T/run"
trouble() { echo "check.sh: $1" >&2; [ -n "${2:-}" ] && tail -40 "$2" >&2; exit 2; }
go build -o "$T/instr" ./cmd/instr >"$T/log" 2>&1 || trouble "building the instrumenter failed" "$T/log"
FLAGS=()
case "$RACE" in *" $PROP "*) FLAGS=(-race) ;; esac
"$T/instr" "${FLAGS[@]}" -out "$T/ov" >"$T/log" 2>&1 || trouble "instrumenting failed" "$T/log"
go build "${MOD[@]}" "${FLAGS[@]}" -overlay "$T/ov/overlay.json" -o "$T/simrun" ./cmd/simrun >"$T/log" 2>&1 || trouble "building the simulator failed" "$T/log"
export SIM_KNOWN="$V/known-findings.json"
export TMPDIR="$T"
case "$MODE" in
replay) ARGS=(-replay "${3:?replay file}") ;;
quick|thorough) ARGS=(-tier "$MODE" -seed "$SEED" -evidence "$V/evidence/$PROP.json" -replays "$V/replays") ;;
*) trouble "unknown mode $MODE" ;;
esac
[ -n "${NOEVIDENCE:-}" ] && ARGS=(-tier "$MODE" -seed "$SEED" -replays "$T/replays")
"$T/simrun" -prop "$PROP" "${ARGS[@]}" -dir "$T/run" -sites "$T/ov/sites.json" ${SIM_ARGS:-} &
PID=$!
wait $PID
exit $?
