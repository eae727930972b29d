#!/bin/bash
# usage: check.sh ID            run the check of one property
#        check.sh replay FILE   re-run the case of a violation
#        check.sh warm          compile everything once (setup)
# Builds the harness against /repo's current working tree in a scratch
# directory, runs it and removes the directory.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export VERIF_ROOT=${VERIF_ROOT:-$here}
tmp=$(mktemp -d /tmp/vmc.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
export VERIF_TMP=$tmp VERIF_MC=$here/mc
unset VERIF_RACEBIN

gobuild() { # gobuild OUT PKG [flags]
	local out=$1 pkg=$2
	shift 2
	(cd "$here/mc" && go build -buildvcs=false "$@" -o "$tmp/$out" "$pkg")
}

build() { gobuild "$@" || { echo "check.sh: cannot build $2 against /repo" >&2; exit 3; }; }

# sched builds the harness with the instrumented library, and once more with
# the race detector. Without a C compiler there is no race detector; a library
# that cannot be instrumented (or starts goroutines of its own) is explored as
# it is, call by call. Both are noted in the evidence.
sched() {
	local ov=(-overlay "$tmp/overlay.json")
	build instrument ./cmd/inst
	if ! "$tmp/instrument" /repo "$tmp" || ! grep -q '"warnings":null' "$tmp/inst.json" || ! gobuild mcsched ./cmd/mcsched "${ov[@]}"; then
		echo "check.sh: the library cannot be instrumented, exploring it as it is" >&2
		ov=()
		build mcsched ./cmd/mcsched
	fi
	if [ "$1" = race ] && CGO_ENABLED=1 gobuild mcrace ./cmd/mcsched -race "${ov[@]}" && "$tmp/mcrace" selftest; then
		export VERIF_RACEBIN=$tmp/mcrace
	fi
}

# arches builds the explorations for other targets.
arches() {
	local p
	build mcarch ./cmd/mcarch
	export VERIF_TARGETS="386 noopt"
	for p in mc mcfmt; do
		build $p-native ./cmd/$p
		(export GOARCH=386 && build $p-386 ./cmd/$p) || exit 3
		build $p-noopt ./cmd/$p -gcflags=github.com/mewmew/float/...="-N -l"
	done
	if grep -qw fma /proc/cpuinfo && grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo; then
		for p in mc mcfmt; do (export GOAMD64=v3 && build $p-v3 ./cmd/$p) || exit 3; done
		VERIF_TARGETS="$VERIF_TARGETS v3"
	fi
	VERIF_WASMEXEC=$(go env GOROOT)/lib/wasm/wasm_exec_node.js
	if [ -f "$VERIF_WASMEXEC" ] && command -v node >/dev/null; then
		export VERIF_WASMEXEC
		for p in mc mcfmt; do (export GOOS=js GOARCH=wasm && build $p-wasm ./cmd/$p) || exit 3; done
		VERIF_TARGETS="$VERIF_TARGETS wasm"
	fi
}

id=$1
if [ "$id" = replay ]; then
	file=$(realpath "$2")
	id=$(sed -n 's/^ "property": "\(.*\)",\{0,1\}$/\1/p' "$file")
	set -- replay "$file"
else
	set -- "$id"
fi

case $id in
warm)
	build mc ./cmd/mc
	build mcfmt ./cmd/mcfmt
	sched race
	arches
	exit 0
	;;
C16 | C27)
	sched
	"$tmp/mcsched" "$@"
	;;
C17)
	sched race
	"$tmp/mcsched" "$@"
	;;
C18 | C19 | C20 | C21 | C25)
	build mcfmt ./cmd/mcfmt
	"$tmp/mcfmt" "$@"
	;;
C22)
	arches
	"$tmp/mcarch" "$@"
	;;
*)
	build mc ./cmd/mc
	"$tmp/mc" "$@"
	;;
esac
