#!/bin/bash
# check.sh PROPERTY [TIER]     run the check of a property
# check.sh replay FILE         run a replay file again
# check.sh build               build only
# Builds the simulator from the working tree of the repository first.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$VERIF/.build}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
unset GORACE GODEBUG GOMAXPROCS GOGC GOMEMLIMIT GOOS GOARCH GOEXPERIMENT
[ -n "$GOCACHE" ] || export GOCACHE=${XDG_CACHE_HOME:-${HOME:-/root}/.cache}/go-build
mkdir -p "$B" || exit 2

build() {
	exec 9>"$B/lock" && flock 9
	(cd sim/instr && CGO_ENABLED=0 go build -o "$B/instr" .) || return 1
	"$B/instr" -repo "$REPO" -rt "$VERIF/sim/rt" -out "$B/out" >"$B/instr.log" 2>&1 || { cat "$B/instr.log" >&2; return 1; }
	rm -f "$B"/out/drv/*.go
	cp sim/drv/*.go "$B/out/drv/" || return 1
	(cd "$B/out/drv" && CGO_ENABLED=0 go build -o "$B/simdrv" .) || return 1
	if [ "$1" = race ]; then
		(cd "$B/out/drv" && CGO_ENABLED=1 go build -race -o "$B/simdrv-race" .) || return 1
	fi
	exec 9>&-
}

case "$1" in
build)
	build race || exit 2
	exit 0
	;;
replay)
	race=
	bin=$B/simdrv
	if grep -q '^ *"race": true' "$2"; then race=race bin=$B/simdrv-race; fi
	build $race || exit 2
	for i in 1 2 3 4 5 6; do
		GORACE="halt_on_error=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0" GOMAXPROCS=2 TZ=UTC "$bin" replay "$2"
		rc=$?
		[ $rc -ne 0 ] && break
		[ -z "$race" ] && break
	done
	if [ $rc -ne 0 ]; then
		echo "VIOLATION property=$(sed -n 's/^ *"property": "\(.*\)",*$/\1/p' "$2" | head -1) replay=$2"
		exit 1
	fi
	exit 0
	;;
C[0-9][0-9]) ;;
*)
	sed -n '2,5p' "$0" >&2
	exit 2
	;;
esac

PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
SECS=${VERIF_SECS:-}
SHRINK=40
case "$TIER" in
quick) : "${SECS:=40}" ;;
*) : "${SECS:=660}"; SHRINK=120 ;;
esac
case "$PROP" in
C01 | C02 | C04) race=race ;;
*) race= ;;
esac
build $race || exit 2
"$B/simdrv" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -secs "$SECS" -shrink "$SHRINK" \
	-evidence "$VERIF/evidence/$PROP.json" -known "$VERIF/known-findings.txt" -replays "$VERIF/replays" -race "$B/simdrv-race"
