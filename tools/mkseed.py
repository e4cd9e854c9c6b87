"""Helper to write /verif/seeded/<id>: edits are made in a clone of /repo, the diff is kept."""
import json, os, shutil, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/tmp/seedsrc"
DEMO = r'''#!/bin/bash
# Builds demo.cpp against /repo's build and runs it: 0 if the property holds in this case.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
W=$(mktemp -d)
trap 'find "$W" -delete' EXIT
INC=""
for d in "$R"/*/*/include "$R"/aslam_incremental_calibration/*/include; do [ -d "$d" ] && INC="$INC -I$d"; done
g++ -std=c++14 -O1 -w -DBOOST_TIMER_ENABLE_DEPRECATED -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_ALLOW_DEPRECATED_HEADERS \
  $INC -I/usr/include/eigen3 -I/usr/include/suitesparse -I/usr/include/opencv4 -include "$D/suitesparse7.h" @FLAGS@ "$D/demo.cpp" -o "$W/demo" \
  -L"$R/_build/lib" -Wl,-rpath,"$R/_build/lib" -Wl,--allow-shlib-undefined @LIBS@ \
  -lboost_system -lboost_filesystem -lboost_serialization -lboost_thread -lboost_regex -lcholmod -lspqr -lpthread
cd "$W"
OMP_NUM_THREADS=1 timeout 120 "$W/demo"
'''


def seed(i, prop, needs, breaks, edits, demo=None, libs="-laslam_backend -lsm_property_tree", flags="", demosh=None, extra=None):
    if not os.path.exists(SRC):
        subprocess.check_call(["git", "clone", "-q", "/repo", SRC])
    subprocess.check_call("cd %s && git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD" % SRC, shell=True)
    for f, old, new in edits:
        p = os.path.join(SRC, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", SRC, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    if demosh is None:
        demosh = DEMO.replace("@LIBS@", libs).replace("@FLAGS@", flags)
    open(d + "/demo.sh", "w").write(demosh)
    os.chmod(d + "/demo.sh", 0o755)
    if demo:
        shutil.copy(os.path.join(ROOT, "harness", "suitesparse7.h"), d)
        open(d + "/demo.cpp", "w").write(demo)
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
