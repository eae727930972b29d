#!/bin/bash
# usage: try.sh DIR [ID...]   DIR is a folder of seeded/ (or a patch file)
# Applies the patch to a copy of /repo bound over /repo in a private mount
# namespace, runs build, stable tests and demo there, then the checks named
# (default: the bug's own property), and prints a line per result.
if [ -z "$VERIF_TRY" ]; then
	exec env VERIF_TRY=1 unshare -m bash "$0" "$@"
fi
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
. /opt/vp/env.sh
dir=$(realpath "$1")
shift
tmp=$(mktemp -d /tmp/try.XXXXXX) || exit 3
trap 'umount /repo 2>/dev/null; rm -rf "$tmp"' EXIT
patch=$dir
name=$(basename "$dir")
[ -d "$dir" ] && patch=$dir/patch.diff
if [ -f "$dir/demo.sh" ] && [ -z "$VERIF_NODEMO" ]; then
	(cd /repo && bash "$dir/demo.sh" >"$tmp/demo0" 2>&1) && echo "$name demo clean: ok" || { echo "$name demo clean: FAILS"; tail -3 "$tmp/demo0"; }
fi
cp -a /repo "$tmp/repo"
git -C "$tmp/repo" apply "$patch" || exit 3
mount --bind "$tmp/repo" /repo || exit 3
cd /repo
go build ./... || { echo "$name: does not build"; exit 3; }
if [ -z "$VERIF_NODEMO" ]; then
	go test -vet=off -count=1 ./... >"$tmp/test" 2>&1 && echo "$name tests: pass" || { echo "$name tests: FAIL"; grep -m5 -e '--- FAIL' -e _test.go "$tmp/test"; }
	if [ -f "$dir/demo.sh" ]; then
		bash "$dir/demo.sh" >"$tmp/demo1" 2>&1 && echo "$name demo patched: PASSES (bad)" || { echo "$name demo patched: fails, $(tail -1 "$tmp/demo1" | cut -c1-150)"; }
	fi
fi
[ $# = 0 ] && set -- $(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$dir/meta.json")
export VERIF_ROOT=$tmp/root
mkdir -p "$VERIF_ROOT/replays" "$VERIF_ROOT/evidence"
cp "$here/known_findings.json" "$VERIF_ROOT"
for id; do
	s=$(date +%s)
	(cd "$here" && bash check.sh "$id") >"$tmp/out" 2>&1
	rc=$?
	v=$(grep -m1 "^VIOLATION property=$id " "$tmp/out")
	if [ $rc = 1 ] && [ -n "$v" ]; then
		r=CAUGHT
	elif [ $rc = 0 ]; then
		r=quiet
	else
		r="NO ANSWER rc=$rc $(tail -3 "$tmp/out")"
	fi
	echo "$name $id: $r ($(($(date +%s) - s)) s)"
	[ -n "$VERIF_VERBOSE" ] && tail -5 "$tmp/out" | cut -c1-400
done
exit 0
