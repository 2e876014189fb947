#!/bin/bash
# tools/plant.sh ID... : for each seeded change, in a scratch copy of /repo: applies, builds, runs the
# stable tests, the demonstration on both trees, and the check of its property (VERIF_REPO=copy).
# CHECKS="C02 C04" runs other checks instead.
root=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
for id in "$@"; do
	d=$root/seeded/$id
	w=$(mktemp -d /tmp/plant-$id.XXXXXX)
	cp -a /repo "$w/repo"
	r="$id:"
	cp -r "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
	(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo0.log" 2>&1) && r="$r demo0=ok" || r="$r DEMO-FAILS-ON-UNCHANGED"
	if ! git -C "$w/repo" apply "$d/patch.diff"; then echo "$r PATCH-FAILS"; rm -rf "$w"; continue; fi
	if ! (cd "$w/repo" && go build ./... >"$w/build.log" 2>&1); then echo "$r BUILD-FAILS"; tail -5 "$w/build.log"; rm -rf "$w"; continue; fi
	if (cd "$w/repo" && go test -vet=off -count=1 ./... >"$w/test.log" 2>&1); then r="$r tests=ok"; else r="$r TESTS-FAIL($(grep -m3 -- '--- FAIL' "$w/test.log" | tr -s ' \n' ' '))"; fi
	(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo1.log" 2>&1) && r="$r DEMO-PASSES-WITH-CHANGE" || r="$r demo1=fails"
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	for c in ${CHECKS:-$p}; do
		cp -a "$root" "$w/verif" 2>/dev/null
		VERIF_REPO=$w/repo "$w/verif/run.sh" $c >"$w/check.log" 2>&1
		rc=$?
		if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " "$w/check.log"; then r="$r $c=CAUGHT"; else r="$r $c=missed($rc)"; fi
		[ -n "$SHOW" ] && grep -A3 -m1 "^VIOLATION" "$w/check.log" | cut -c1-300
		rm -rf "$w/verif"
	done
	echo "$r"
	[ -n "$SHOW" ] && tail -3 "$w/demo1.log"
	rm -rf "$w"
done
