"""C16: configurations are accepted exactly when legal, and read back as set."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, ROOT

CAM = ["pinhole", "omni", "eucm", "ds"]
DIST = ["radtan", "equidistant", "fov", "none"]


def num(r, lo, hi, p_int=.1):
    return r.randint(int(lo), int(hi)) if r.random() < p_int else r.randint(int(lo * 1000), int(hi * 1000)) / 1000.


def intrinsics(r, model, bad):
    f = lambda: r.randint(0, 800000) / 1000.
    head = {"pinhole": [], "omni": [num(r, 0, 3)], "eucm": [r.choice([0., 0, .5, .999, r.randint(0, 999) / 1000.]), num(r, 0, 3)],
            "ds": [num(r, -2, 2), r.choice([0., 0, .5, .999, r.randint(0, 999) / 1000.])]}.get(model, [])
    x = head + [f() for _ in range(4)]
    if bad:
        k = r.randint(0, 6)
        i = r.randrange(len(x))
        if k == 0:
            x.insert(i, f())
        elif k == 1:
            del x[i]
        elif k == 2:
            x[i] = -r.choice([.001, 1., 400., 1])
        elif k == 3:
            x[i] = r.choice([1., 1, 1.001, 2, 0.])
        elif k == 4:
            x[i] = int(x[i])
        elif k == 5:
            x[-r.randint(1, 4)] = r.choice([0., -0.001, 7, -7])
        elif len(head):
            x[r.randrange(len(head))] = r.choice([1., -.001, 1.5, -1, 0])
    return x


def distortion(r, model, bad):
    n = {"radtan": 4, "equidistant": 4, "fov": 1, "none": 0}.get(model, r.randint(0, 5))
    if bad:
        n = r.choice([0, 1, 2, 3, 4, 5])
    return [num(r, -1, 1) for _ in range(n)]


def resolution(r, bad):
    x = [r.randint(1, 2000), r.randint(1, 2000)]
    if bad:
        k = r.randint(0, 3)
        if k == 0:
            x[r.randint(0, 1)] += .5
        elif k == 1:
            x[r.randint(0, 1)] = float(x[0])
        elif k == 2:
            x.append(5)
        else:
            x.pop()
    return x


def topic(r, bad):
    return r.choice([5, 2.5]) if bad else r.choice(["/cam0/image_raw", "x", "", "/imu"])


def rate(r, bad):
    return r.choice([0, 0., -1, -100., -.001]) if bad else r.choice([int, float])(r.randint(1, 40) ** 2)


def density(r, bad):
    return r.choice([0, 0., -.001, -1]) if bad else r.randint(1, 4000) / 1000.


def config(r):
    b = lambda p=.12: r.random() < p
    kind = r.choice(["camera", "camera", "imu", "target"])
    if kind == "camera":
        m = r.choice(CAM) if not b(.05) else r.choice(["Pinhole", "ucm", "omni ", ""])
        d = r.choice(DIST) if not b(.05) else r.choice(["fisheye", "radtan4", ""])
        if m in ("eucm", "ds") and r.random() < .6:
            d = "none"
        x = dict(rostopic=topic(r, b()), camera_model=m, intrinsics=intrinsics(r, m if not b(.05) else r.choice(CAM), b(.25)), distortion_model=d,
                 distortion_coeffs=distortion(r, d, b()), resolution=resolution(r, b()))
    elif kind == "imu":
        x = dict(rostopic=topic(r, b()), update_rate=rate(r, b()), accelerometer_noise_density=density(r, b()), accelerometer_random_walk=density(r, b()),
                 gyroscope_noise_density=density(r, b()), gyroscope_random_walk=density(r, b()))
    else:
        t = r.choice(["aprilgrid", "checkerboard", "circlegrid"]) if not b(.06) else r.choice(["chessboard", "AprilGrid", "", 3])
        n = lambda bad: r.choice([2, 0, -5, 1, 5., 2.5, "6", [6]]) if bad else r.choice([3, 4, 5, 6, 7, 30])
        s = lambda bad: r.choice([0., -.001, 1, "0.1", 0, -1., [.1]]) if bad else r.randint(1, 3000) / 1000.
        x = dict(target_type=t)
        for k, f in (("targetRows", n), ("targetCols", n), ("rowSpacingMeters", s), ("colSpacingMeters", s), ("spacingMeters", s), ("tagRows", n), ("tagCols", n), ("tagSize", s), ("tagSpacing", s)):
            x[k] = f(b(.1))
        x["asymmetricGrid"] = r.choice([True, False]) if not b(.1) else r.choice([0, 1, "yes", 1.])
    for k in list(x):
        if b(.04):
            del x[k]
    return json.dumps(dict(op="config", kind=kind, data=x))


def setting(r):
    o = []
    kind = r.choice(["camera", "imu"])
    o.append(dict(op="new", kind=kind))
    for _ in range(r.randint(2, 10)):
        bad = r.random() < .3
        f = r.choice(["RosTopic", "Intrinsics", "Distortion", "Resolution"] if kind == "camera" else ["RosTopic", "UpdateRate", "AccelerometerStatistics", "GyroStatistics"])
        m = r.choice(CAM)
        d = r.choice(DIST)
        a = {"RosTopic": lambda: [topic(r, bad)], "Intrinsics": lambda: [m if r.random() < .95 else "pin", intrinsics(r, m, bad)], "Distortion": lambda: [d if r.random() < .95 else "no", distortion(r, d, bad)],
             "Resolution": lambda: [resolution(r, bad)], "UpdateRate": lambda: [rate(r, bad)]}.get(f, lambda: [density(r, bad and r.random() < .6), density(r, bad and r.random() < .6)])()
        o.append(dict(op="set", f=f, args=a))
    return "\n".join(json.dumps(x) for x in o)


def make(r):
    m = r.choice(CAM) if r.random() < .9 else r.choice(["ucm", "", "Omni"])
    d = r.choice(DIST) if r.random() < .85 else r.choice(["fisheye", "Radtan", ""])
    return json.dumps(dict(op="make", model=m, intrinsics=intrinsics(r, m, False), dist=d, coeffs=distortion(r, d if d in DIST else "radtan", False), resolution=resolution(r, False)))


def pose(r):
    q = r.choice([[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]])
    return [row + [r.randint(-3000, 3000) / 1000.] for row in q] + [[0, 0, 0, 1]]


def chain(r):
    n = r.randint(0, 4)
    o = [dict(op="chain", n=n)]
    for _ in range(r.randint(2, 24)):
        cam = r.randint(0, n + (r.random() < .2))
        if n and r.random() < .8:
            cam = min(cam, n - 1)
        k = r.random()
        bad = r.random() < .15
        if k < .08:
            o.append(dict(op="rewrite"))
        elif k < .5:
            f = r.choice(["ExtrinsicsLastCamToHere", "ExtrinsicsImuToCam", "TimeshiftCamImu", "CamOverlaps"])
            if "Extrinsics" in f:
                a = r.choice([5, "x", None, 1.5]) if bad else pose(r)
            elif f[0] == "T":
                a = r.choice([1, "0.1", None]) if bad else r.randint(-2000, 2000) / 1000.
            else:
                a = [r.randint(0, n + (1 if bad else -1)) for _ in range(r.randint(0, 4))] if n or bad else []
            o.append(dict(op="ch", f="set" + f, cam=cam, arg=a))
        else:
            o.append(dict(op="ch", f="get" + r.choice(["ExtrinsicsLastCamToHere", "ExtrinsicsImuToCam", "TimeshiftCamImu", "CamOverlaps", "CameraParameters"]), cam=cam))
    return "\n".join(json.dumps(x) for x in o)


def run():
    c = Check("C16")
    c.design("ConfigMC", "ConfigMCdeep.cfg" if c.thorough else None, timeout=600)
    r = c.rng
    cmd = ["python3", "-B", os.path.join(ROOT, "harness", "py", "pyk.py")]
    s = [("config-%d" % i, "\n".join([config(r) for _ in range(6)] + [make(r)])) for i in range(c.n(250, 4000))]
    s += [("set-%d" % i, setting(r)) for i in range(c.n(150, 2000))]
    s += [("chain-%d" % i, chain(r)) for i in range(c.n(150, 2000))]
    c.conform("ConfigTrace", "pyk", s, timeout=600, cmd=cmd)
    c.assumptions += [
        "where the readers compare without asking for a type (rates, densities, models' own parameters) only numbers are given; where they ask for lists, lists of numbers",
        "the compiled camera classes are stand-ins that keep the name and arguments they were made with (what they compute is decided in C11); transformations are 4x4 stand-ins",
        "an index outside the chain may be refused by the reader or by the dictionary when setting extrinsics",
    ]
    c.finish()


main(run)
