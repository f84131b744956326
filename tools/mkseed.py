#!/usr/bin/env python3
"""Writes seeded/<id>/ from a small description file: python3 mkseed.py desc.py
desc.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++ text), LIBS (list of litiv libraries)."""
import json, os, subprocess, sys, tempfile, shutil
d = {}
exec(open(sys.argv[1]).read(), d)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
out = HERE + "/seeded/" + d["ID"]
os.makedirs(out, exist_ok=True)
wt = tempfile.mkdtemp(prefix="seedwt")
subprocess.check_call(["git", "-C", REPO, "worktree", "add", "-q", "--detach", wt + "/r", "HEAD"])
try:
    for f, o, n in d["EDITS"]:
        p = wt + "/r/" + f
        s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    diff = subprocess.check_output(["git", "-C", wt + "/r", "diff"]).decode()
finally:
    subprocess.call(["git", "-C", REPO, "worktree", "remove", "--force", wt + "/r"])
    shutil.rmtree(wt, ignore_errors=True)
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo.cpp", "w").write(d["DEMO"].lstrip())
libs = " ".join("-llitiv_" + l for l in d.get("LIBS", ["utils"]))
incs = " ".join("-I$R/modules/%s/include" % m for m in ("utils", "features2d", "imgproc", "video", "datasets"))
open(out + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise; run with the built repository as current directory
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -march=native -fopenmp -DLITIV_BUILD -DLITIV_DEBUG=0 -DLV_IMPORT_API -DNDEBUG -w %s \\
    -I$R/_build/modules/utils/include %s -I$R/3rdparty -isystem /usr/include/opencv4 \\
    "$D/demo.cpp" -o "$T/demo" -L$R/_build/lib %s %s $(pkg-config --libs opencv4) -lpthread -Wl,-rpath,$R/_build/lib
cd "$T"
timeout 200 ./demo
""" % (d.get("CXXFLAGS", ""), incs, d.get("LINK", ""), libs))
os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
print("wrote", out, len(diff))
