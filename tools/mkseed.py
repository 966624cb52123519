"""mkseed.make(id, property, [(file, old, new)...], demo_cpp, needs, breaks, flags, sources)"""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "src/core/database/database.cpp src/core/database/collection.cpp src/core/database/document.cpp src/core/dictionary.cpp src/core/demangle.cpp src/core/tokenList.cpp src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp"

def make(id, prop, edits, demo, needs, breaks, flags="", sources=CORE, extra=None):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = w + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds for this history; run in the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
g++ -std=c++20 -O1 -w -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNEOFOAM_DP_SCALAR=1 %s -I"$d" -Iinclude "$d/demo.cpp" %s -o "$t/demo" -lpthread || { rm -rf "$t"; exit 2; }
timeout 250 "$t/demo"
r=$?
rm -rf "$t"
exit $r
""" % (flags, sources))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for name, text in (extra or {}).items():
        open(d + "/" + name, "w").write(text)
