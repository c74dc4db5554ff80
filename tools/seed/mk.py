#!/usr/bin/env python3
"""mk.py [ID...]: writes /verif/seeded/<id> from the BUGS table; needs scratch tree /tmp/wt == /repo HEAD."""
import os, sys, subprocess, json, shutil, textwrap
WT = "/tmp/wt"; OUT = "/verif/seeded"; HERE = os.path.dirname(os.path.abspath(__file__))
BUGS = {}
def bug(id, prop, edits, demo, needs, breaks, kind="e2e", extra=None):
    BUGS[id] = dict(prop=prop, edits=edits, demo=textwrap.dedent(demo).lstrip("\n"), needs=needs, breaks=breaks, kind=kind, extra=extra or {})
exec(open(os.path.join(HERE, "bugs.py")).read())
def sh(*a, **k): return subprocess.run(a, check=True, **k)
def main():
    ids = sys.argv[1:] or list(BUGS)
    for i in ids:
        b = BUGS[i]
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f); s = open(p).read()
            if s.count(old) != 1: sys.exit("%s: %d matches in %s for %r" % (i, s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(OUT, i)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        with open(os.path.join(d, "patch.diff"), "w") as f: sh("git", "-C", WT, "diff", stdout=f)
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if b["kind"] == "e2e":
            shutil.copy(os.path.join(HERE, "drive.py"), d)
            open(os.path.join(d, "demo.py"), "w").write("from drive import *\n" + b["demo"])
            s = '#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n'
        elif b["kind"] == "lib":
            for x in ("drive.py", "libdrive.py"): shutil.copy(os.path.join(HERE, x), d)
            open(os.path.join(d, "demo.py"), "w").write("from libdrive import *\n" + b["demo"])
            s = '#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n'
        else:
            open(os.path.join(d, "demo.c"), "w").write(b["demo"])
            s = '#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\nout=$(mktemp -d) || exit 2\ntrap \'rm -rf "$out"\' EXIT\n' \
                'gcc -w -include config.h -I_build %s -o "$out/demo" || exit 2\ncd "$out" && ./demo\n' % (b["kind"].replace("LIBS", "") + ' "$here/demo.c"' + (" _build/src/common/libcommon.a _build/lib/libcompat.a _build/lib/ev/libev.a -lssl -lcrypto -lm" if "LIBS" in b["kind"] else ""))
        open(os.path.join(d, "demo.sh"), "w").write(s); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for n, t in b["extra"].items(): open(os.path.join(d, n), "w").write(t)
        print(i, "written")
main()
