#!/usr/bin/env python3
"""Confirms planted bugs in a private mount namespace: a scratch copy of /repo is seen as /repo.

    python3 tools/seedtest.py ID [ID ...] [--no-tests] [--check C01,C02]
"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


if os.environ.get("SEED_INNER") != "1":
    os.makedirs(WT, exist_ok=True)
    if not os.path.exists(WT + "/repo"):
        sh("cp -a /repo %s/repo; cp -a %s/build %s/vbuild; mkdir -p %s/evidence" % (WT, ROOT, WT, WT))
    print(sh("cd %s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git log --oneline | head -1" % WT).stdout.strip())
    os.environ["SEED_INNER"] = "1"
    sys.exit(subprocess.call(["unshare", "-Urm", "bash", "-c",
        "mount --bind %s/repo /repo && mount --bind %s/vbuild %s/build && mkdir -p %s/evidence && mount --bind %s/evidence %s/evidence && exec python3 %s %s" % (
            WT, WT, ROOT, WT, WT, ROOT, os.path.abspath(__file__), " ".join(sys.argv[1:]))]))

args = [a for a in sys.argv[1:] if not a.startswith("--")]
notests = "--no-tests" in sys.argv
assert os.path.samefile("/repo", WT + "/repo")
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if os.path.exists("/opt/vp/BASELINE.json") else [])
def check(prop):
    r = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/%s.py" % (ROOT, prop))
    hit = "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout else "missed(rc %d)" % r.returncode
    return hit + " | " + " / ".join(l.strip()[:120] for l in r.stdout.split("\n") if "refused" in l or "could not" in l)[:300]


for i in [a for a in args if ":" in a]:       # CNN:commit takes a fix back
    prop, commit = i.split(":")
    r = sh("cd /repo && git show %s | git apply -R" % commit)
    print(i, "does not revert " + r.stdout[-300:] if r.returncode else check(prop), flush=True)
    sh("git -C /repo checkout -- .")
args = [a for a in args if ":" not in a]
for i in args:
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    r = sh("bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && timeout 300 bash %s/demo.sh" % d)
    clean = r.returncode
    if clean:
        print(i, "demo fails on the unchanged tree:", r.stdout[-800:])
        continue
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "patch does not apply", r.stdout)
        continue
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            print(i, "does not build", r.stdout[-1500:])
            continue
        t = "tests skipped"
        if not notests:
            sh("bash /opt/vp/test.sh /tmp/wt/out.json")
            got = set(json.load(open("/tmp/wt/out.json"))["passed"])
            t = "tests lost: %s" % sorted(base - got)[:3] if base - got else "tests ok (%d)" % len(got)
        r = sh("cd /repo && timeout 300 bash %s/demo.sh" % d)
        demo = r.returncode
        print(i, meta["property"], t, "demo rc", demo, check(meta["property"]), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
if args:
    sh("bash /opt/vp/build.sh")
