#!/bin/bash
# bash check.sh ID            explore property ID (VERIF_SEED, VERIF_TIER) and write evidence/ID.json
# bash check.sh --replay F    replay the violation in file F
#
# Exit 0: the property held on everything explored. Exit 1, and a VIOLATION line: it is broken.
# Anything else is an error of the check.
V=$(cd "$(dirname "$0")" && pwd)
[ $# -ge 1 ] || { echo "usage: check.sh ID | --replay FILE" >&2; exit 2; }
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
REPO=${RINGOSIM_REPO:-/repo}
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
W=$(mktemp -d /tmp/ringosim.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT

export TMPDIR=$W RINGOSIM_REPO=$REPO

die() { echo "ERROR: $*" >&2; exit 3; }

(cd "$V/tools/instr" && go build -o "$W/instr" .) || die "the instrumenter does not build"

# build FLAGS OUTPUT: the simulator over /repo's current tree.
build() {
	local nomaps
	for nomaps in "" -nomaps; do
		rm -rf "$W/o"
		"$W/instr" -repo "$REPO" -sim "$V/sim" -out "$W/o" $nomaps $1 $IX >"$W/instr.log" 2>&1 || continue
		(cd "$REPO" && go build $1 $BX -overlay "$W/o/overlay.json" -o "$2" ./buckler/ringosim) >"$W/build.log" 2>&1 && return 0
	done
	tail -n 30 "$W/instr.log" "$W/build.log" >&2
	return 1
}

# parts ID: what the simulator for ID is built with.
parts() { IX=; BX=; [ "$1" != F04 ] || { IX=-modgen; BX="-tags f04"; }; }
needs_race() { case $1 in J05|M01|M02|B06|V01) return 0;; esac; return 1; }

if [ "$1" = --replay ]; then
	F=$(realpath "$2")
	ID=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$F" | head -n 1)
	parts "$ID"
	build "" "$W/sim" || die "the simulator does not build"
	RB=
	if needs_race "$ID"; then build -race "$W/sim-race" || die "the race-detecting simulator does not build"; RB=$W/sim-race; fi
	"$W/sim" -replay "$F" -racebin "$RB"
	exit $?
fi

ID=$1
BUDGET=40
[ "$TIER" = thorough ] && BUDGET=600
BUDGET=${RINGOSIM_BUDGET:-$BUDGET}
RB=
parts "$ID"
build "" "$W/sim" || die "the simulator does not build"
if needs_race "$ID"; then build -race "$W/sim-race" || die "the race-detecting simulator does not build"; RB=$W/sim-race; fi
mkdir -p "$V/evidence" "$V/replays"
rm -f "$V/evidence/$ID.json"
"$W/sim" -prop "$ID" -seed "$SEED" -tier "$TIER" -budget "$BUDGET" -racebin "$RB" \
	-known "$V/known-findings.txt" -out "$V/evidence/$ID.json" -replays "$V/replays"
exit $?
