#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, property, edits=[(file, old, new)], needs, breaks, demo (C++ text).  Writes /verif/seeded/<ID>/."""
import sys, os, json, subprocess, tempfile
S = {}; exec(open(sys.argv[1]).read(), S)
for s in (S["seeds"]):
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    out = ""
    for f in dict.fromkeys(e[0] for e in s["edits"]):
        t = open("/repo/" + f).read(); n = t
        for e in s["edits"]:
            if e[0] != f: continue
            if n.count(e[1]) != 1: sys.exit("%s: %d matches for %r" % (s["id"], n.count(e[1]), e[1]))
            n = n.replace(e[1], e[2])
        with tempfile.TemporaryDirectory() as td:
            for r, x in (("a", t), ("b", n)):
                p = os.path.join(td, r, f); os.makedirs(os.path.dirname(p)); open(p, "w").write(x)
            r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=td, stdout=subprocess.PIPE).stdout.decode()
            out += r
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in s:
        open(d + "/demo.cpp", "w").write('#include "demolib.hpp"\n' + s["demo"])
        open(d + "/demolib.hpp", "w").write(open("/verif/tools/demolib.hpp").read())
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.cpp against the objects of the tree in the current directory (/repo) and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d /tmp/demo.XXXXXX) || exit 0
O=$(ls $R/src/*.o | grep -v -e /gandalf.o -e Test -e _wrap)
g++ -w -O1 -DGANDALF_DOUBLE_PRECISION -DGANDALF_GSL -fno-access-control -I$R/src/Headers "$D/demo.cpp" $O -o $T/demo -lgsl -lgslcblas -lm -lpthread || { echo "demo does not build"; exit 0; }
cd $T && timeout 200 ./demo
r=$?; find $T -mindepth 1 -delete; rmdir $T; exit $r
''')
    os.system("chmod +x %s/demo.sh; cd /repo && git apply --check %s/patch.diff && echo %s ok" % (d, d, s["id"]))
