"""C15: recordings are read completely, in order and in the requested range."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, ROOT

ENC = ["16UC1", "mono16", "8UC1", "mono8", "8UC3", "bgr8", "rgb8", "8UC4", "bgra8", "bayer_rggb8"]


def recording(r):
    o = []
    put = lambda op, **k: o.append(json.dumps(dict(op=op, **k)))
    n = [0]

    def messages(kind):
        ms = []
        t = r.randint(0, 3000)
        style = r.choice(["order", "swapped", "wild", "ties"])
        for _ in range(r.randint(1, 9)):
            n[0] = (n[0] + 1) % 200
            t += {"order": r.randint(1, 40), "swapped": r.randint(-12, 30), "wild": r.randint(-300, 300), "ties": r.randint(0, 1)}[style]
            m = dict(id=n[0], t=max(0, t), lag=r.randint(0, 9))
            if kind == "img":
                m["enc"] = r.choice(ENC) if r.random() < .98 else "yuv422"
            ms.append(m)
        return ms
    conns = []
    for topic, kind in (("/imu", "imu"), ("/imu2", "imu"), ("/cam", "img"), ("/cam2", "img")):
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            conns.append([topic, messages(kind)])
    r.shuffle(conns)
    put("bag", base=r.choice([0, 15, 1500000000]), conns=conns)
    for _ in range(r.randint(2, 5)):
        kind = r.choice(["imu", "img"])
        topic = {"imu": ["/imu", "/imu2"], "img": ["/cam", "/cam2"]}[kind][r.randint(0, 1)]
        k = dict(kind=kind, topic=topic, sync=r.random() < .2)
        if r.random() < .6:
            ts = [m["t"] for t, ms in conns if t == topic for m in ms] or [0]
            a = r.choice(ts) - min(ts)
            b = r.choice(ts) - min(ts)
            if r.random() < .5:
                a += r.randint(-3, 3)
                b += r.randint(-3, 3)
            if r.random() < .9:
                a, b = min(a, b), max(a, b)
            k.update(lo=a, hi=b)
        if "imu" == kind or True:
            put("open", **k)
        ok = any(t == topic for t, _ in conns) and ("lo" not in k or k["lo"] < k["hi"])
        if ok:
            for _ in range(r.randint(1, 4)):
                put("read", how=r.choice(["iter", "read", "shuffle"]), seed=r.randint(0, 99))
    return "\n".join(o)


def extraction(r, fail):
    n = r.randint(1, 12)
    found = [i for i in range(n) if r.random() < r.choice([.2, .8, 1])]
    naps = [r.choice([0, 0, 1, 5, 30]) for _ in range(r.randint(1, 7))]
    k = dict(op="extract", n=n, found=found, procs=r.choice([1, 2, 3, 5, 8]), naps=naps, clear=r.random() < .5, bare=r.random() < .3)
    if fail:
        k["fail"] = r.randrange(n)
    return json.dumps(k)


def run():
    c = Check("C15")
    c.design("DatasetMC", "DatasetMCdeep.cfg" if c.thorough else None, timeout=600)
    r = c.rng
    cmd = ["python3", "-B", os.path.join(ROOT, "harness", "py", "pyk.py")]
    s = [("bag-%d" % i, recording(r)) for i in range(c.n(300, 3000))]
    s += [("extract-%d" % i, extraction(r, r.random() < .25)) for i in range(c.n(24, 200))]
    c.conform("DatasetTrace", "pyk", s, timeout=600, cmd=cmd)
    c.assumptions += [
        "rosbag, cv_bridge, OpenCV's colour conversion and the timestamp corrector are stand-ins of ours with the interface their originals document (harness/py/stubs.py)",
        "message times are multiples of 2^-9 s, so that range limits are compared exactly; messages of equal time may come in any order",
    ]
    c.finish()


main(run)
