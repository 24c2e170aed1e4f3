#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra mc flags]
# Builds the checker and the command line program from /repo's working tree in a scratch
# directory, explores, writes evidence/PROPERTY.json.  Exit 0 / 1 as in MANIFEST.json.
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$root/env.sh"
id=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
work=$(mktemp -d /tmp/verif-XXXXXX) || exit 2
trap 'find "$work" -delete' EXIT
cd "$root/mc" || exit 2
mkdir "$work/s" "$work/i"
case $id in
C15) # schedules: the harness runs on an instrumented copy, in a plain and a race build
	if go run ./cmd/instr -mc "$root/mc" -out "$work/i" &&
		go build -modfile="$work/i/go.mod" -o "$work/mc" ./cmd/mcs; then
		go build -modfile="$work/i/go.mod" -race "-gcflags=verifmc/vsched=-race=false -l" -o "$work/race" ./cmd/mcs || exit 2
	else
		echo "the code could not be instrumented: running it without control over the schedule"
		export VERIF_FREE=1
		go build -o "$work/mc" ./cmd/mcs && go build -race -o "$work/race" ./cmd/mcs || exit 2
	fi
	export VERIF_ALSO="$work/race"
	;;
C2[1-9]|C31) # building blocks: each built alone, on the exported functions it uses
	go build -tags "c${id#C}" -o "$work/mc" ./cmd/mcu || { echo "cannot build the checker against /repo"; exit 2; }
	;;
C32) # also looks at the pieces
	go build -tags c32 -o "$work/mc" ./cmd/mc || { echo "cannot build the checker against /repo"; exit 2; }
	;;
*)
	go build -o "$work/mc" ./cmd/mc || { echo "cannot build the checker against /repo"; exit 2; }
	(cd /repo && go build -o "$work/plugin" .) || { echo "cannot build /repo"; exit 2; }
	;;
esac
"$work/mc" -property "$id" -tier "$tier" -root "$root" -scratch "$work/s" -bin "$work/plugin" "$@"
