#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds_*.py (a development tool; no check reads it)."""
import json, os, subprocess, sys, shutil, tempfile, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []
HEAD = '''package phonenumbers_test

import (
%s	. "github.com/nyaruka/phonenumbers/v2"
	"testing"
)

var _ = Parse

func TestDemo(t *testing.T) {
%s
}
'''
SH = '''#!/bin/bash
# Runs demo_test.go as a test of the package %(pkg)s of the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(dir)szz_demo_test.go\\": \\"$here/demo_test.go\\"}}" >"$t/overlay.json"
go test -vet=off -count=1 %(flags)s-overlay "$t/overlay.json" -run '^TestDemo$' ./%(dir)s
'''
def seed(id, prop, edits, demo, needs, breaks, imports=(), pkg="", raw=False, flags="", extra={}):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, imports=imports, pkg=pkg, raw=raw, flags=flags, extra=extra))
for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds_*.py"))):
    exec(open(f).read())
want = set(sys.argv[1:])
for s in SEEDS:
    if want and s["id"] not in want: continue
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for file, old, new in s["edits"]:
        p = os.path.join(w, "r", file)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], file, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    subprocess.run(["gofmt", "-l", w + "/r"] , check=False)
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    imps = "".join('\t"%s"\n' % i for i in s["imports"])
    dirn = s["pkg"] + "/" if s["pkg"] else ""
    body = s["demo"] if s["raw"] else HEAD % (imps, s["demo"].strip("\n"))
    open(os.path.join(d, "demo_test.go"), "w").write(body)
    sh = os.path.join(d, "demo.sh")
    open(sh, "w").write(SH % dict(pkg=s["pkg"] or "phonenumbers", dir=dirn, flags=s["flags"] + " " if s["flags"] else ""))
    for name, text in s["extra"].items():
        open(os.path.join(d, name), "w").write(text)
    os.chmod(sh, 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
