#!/bin/bash
# run.sh ID [replay.json]: build the property's check from the current /repo
# tree, run its workload under the monitors and report the verdict.
set -u
id=$1
shift
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export VERIF_ROOT="$root" VERIF_REPO="${VERIF_REPO:-/repo}" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
tmp=$(mktemp -d /tmp/verif-$id.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
trap 'exit 3' INT TERM
cp "$root/harness/go.mod" "$root/harness/go.sum" "$tmp/" || exit 3
[ "$VERIF_REPO" = /repo ] || sed -i "s#=> /repo#=> $VERIF_REPO#" "$tmp/go.mod"
flags=()
[ "$id" = C13 ] && flags+=(-race)
if ! (cd "$root/harness" && go build "${flags[@]}" -modfile="$tmp/go.mod" -o "$tmp/check" ./cmd/check) >"$tmp/build.log" 2>&1; then
	echo "cannot build the check against $VERIF_REPO:"
	tail -40 "$tmp/build.log"
	exit 3
fi
case $id in
C21) tool=buildmetadata ;;
C23) tool=phoneparser ;;
*) tool= ;;
esac
if [ -n "$tool" ] && ! (cd "$root/harness" && go build -modfile="$tmp/go.mod" -o "$tmp/$tool" github.com/nyaruka/phonenumbers/v2/cmd/$tool) >"$tmp/build.log" 2>&1; then
	echo "cannot build cmd/$tool of $VERIF_REPO:"
	tail -40 "$tmp/build.log"
	exit 3
fi
export VERIF_TMP="$tmp"
"$tmp/check" "$id" "$@" 2>"$tmp/stderr"
rc=$?
cat "$tmp/stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(fatal error:|panic:|runtime: goroutine stack exceeds)' "$tmp/stderr" &&
	grep -q 'nyaruka/phonenumbers' "$tmp/stderr"; then
	# the library took the whole process down: that refutes the property for the workload that ran
	mkdir -p "$root/replays"
	head -c 200000 "$tmp/stderr" >"$root/replays/$id-crash.txt"
	echo "VIOLATION property=$id replay=$root/replays/$id-crash.txt"
	grep -m1 -E '^(fatal error:|panic:|runtime: goroutine stack exceeds)' "$tmp/stderr"
	exit 1
fi
exit $rc
