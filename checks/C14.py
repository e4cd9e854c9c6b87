"""C14: observations are grouped into views and cameras into a graph by what they see."""
import itertools
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, ROOT

ROT = []
for p in itertools.permutations(range(3)):
    for sg in itertools.product([1, -1], repeat=3):
        m = [[sg[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
        d = sum(m[0][a] * (m[1][b] * m[2][c] - m[1][c] * m[2][b]) for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)))
        if d == 1:
            ROT.append(m)


def pose(r):
    m = r.choice(ROT)
    return [m[i] + [r.randint(-4, 4)] for i in range(3)] + [[0, 0, 0, 1]]


def script(r, long=False):
    o = []
    put = lambda op, **k: o.append(json.dumps(dict(op=op, **k)))
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    tol = r.choice([0, 0, 1, 2, 5])
    put("db", tol=tol)
    style = r.choice(["frames", "frames", "wild"])
    adds = []
    rooms = r.randint(3, 12) if not long else r.randint(60, 150)
    # who sees what: cameras that look at the same part of the target or not
    part = {c: r.choice([range(0, 6), range(4, 12), range(0, 12), range(20, 24)]) for c in range(n)}
    look = lambda c: r.sample(list(part[c]), r.randint(0 if r.random() < .1 else 1, min(4, len(part[c]))))
    base = r.choice([0, 0, 1 << 30])
    if style == "frames":
        for f in range(rooms):
            for c in range(n):
                if r.random() < .75:
                    adds.append((c, base + 20 * f + r.randint(0, max(0, tol // 2)), look(c)))
    else:
        for _ in range(rooms * n):
            c = r.randrange(n)
            adds.append((c, base + r.randint(0, 30), look(c)))
    for c in range(n):
        if all(a[0] != c for a in adds):
            adds.append((c, base + 20 * rooms, look(c)))
    if r.random() < .6:
        r.shuffle(adds)
    elif r.random() < .5:
        adds.sort(key=lambda a: a[0])
    else:
        adds.sort(key=lambda a: a[1])
    first = set()
    for c, t, k in adds:
        put("add", cam=c, t=t, corners=k)
        first.add(c)
        if r.random() < .05 and first == set(range(len(first))):
            put("views")
    put("views")
    put("graph")
    P = [pose(r) for _ in range(n)]
    if n > 1:
        put("guess", poses=P)
    for _ in range(2):
        put("pose", view=r.randrange(100), poses=P, target=pose(r))
    return "\n".join(o)


def run():
    c = Check("C14")
    c.design("ViewsMC", "ViewsMCdeep.cfg" if c.thorough else None, timeout=600)
    r = c.rng
    s = [("views-%d" % i, script(r)) for i in range(c.n(250, 2500))]
    s += [("long-%d" % i, script(r, True)) for i in range(c.n(8, 60))]
    c.conform("ViewsTrace", "pyk", s, timeout=600, cmd=["python3", "-B", os.path.join(ROOT, "harness", "py", "pyk.py")])
    c.assumptions += [
        "the compiled bindings, igraph and OpenCV are stand-ins of ours with the interface their originals document (harness/py/stubs.py); "
        "a pair's calibration and a pose estimate return the true result, so that what is judged is how they are combined",
        "camera ids are 0..n-1 and each camera has an observation; times are multiples of 2^-10 s, transformations whole-numbered, so that every comparison is exact",
    ]
    c.finish()


main(run)
