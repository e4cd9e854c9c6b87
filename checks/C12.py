"""C12: exact time arithmetic, and clocks corrected from one side only."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h

G = 10 ** 9
U = 2 ** 32
I = 2 ** 31


def usec(r):
    c = r.random()
    if c < .35:
        return r.choice([0, 1, 2, I - 1, I, I + 1, U - 2, U - 1])
    return r.randrange(U) if c < .6 else r.randrange(100) if c < .8 else 1700000000 + r.randrange(10 ** 8)


def isec(r):
    c = r.random()
    if c < .35:
        return r.choice([0, 1, -1, 2, -2, I - 1, I - 2, -I, -I + 1])
    return r.randrange(-I, I) if c < .6 else r.randrange(-100, 100)


def nsec(r):
    return r.choice([0, 1, 2, G // 2, G - 1, G - 2, 999999000, 1000, r.randrange(G), r.randrange(G)])


def rawu(r):
    return r.choice([nsec(r), G, G + 1, 2 * G, 4 * G, U - 1, r.randrange(U)])


def rawi(r):
    return r.choice([nsec(r), -nsec(r), G, -G, G + 1, -G - 1, 2 * G, -2 * G, I - 1, -I, r.randrange(-I, I)])


def seconds(r):
    c = r.random()
    x = (r.choice([0, 1, 2, -1, -2, I, -I, U, I - 1, U - 1, 1.5e9]) if c < .5 else r.uniform(-100, 100) if c < .8 else r.uniform(-I, U))
    x = float(x)
    y = r.random()
    if y < .3:
        x += r.choice([-1, 1]) * r.choice([1e-10, 4e-10, 6e-10, 1e-9, 1.5e-9, 1e-7, 5e-7, .5, .25, .3, .1])
    elif y < .5:
        x += nsec(r) * 1e-9
    elif y < .55:
        x = r.choice([float("inf"), -float("inf"), float("nan"), 1e300, -1e300, 1e19, -0.0, 5e-324, 1e10, -1e10])
    return x


def times(r, n):
    o = ["consts time"]
    for _ in range(n):
        k = r.choice(["time", "wall"])
        c = r.choice(["mk", "fns", "fsec", "fsec", "tt", "td", "td", "dd", "dd"])
        if c == "mk":
            o.append(f"mk {k} {usec(r)} {rawu(r)} {isec(r)} {rawi(r)}")
        elif c == "fns":
            a = r.choice([usec(r) * G + nsec(r), U * G, U * G - 1, U * G + 5, 2 ** 64 - 1, r.randrange(2 ** 64)])
            b = r.choice([isec(r) * G + nsec(r), I * G, I * G - 1, -I * G, -I * G - 1, 2 ** 63 - 1, -2 ** 63, r.randrange(-2 ** 63, 2 ** 63), -r.randrange(10 * G)])
            o.append(f"fns {k} {a} {b}")
        elif c == "fsec":
            o.append(f"fsec {k} {h(seconds(r))}")
        elif c == "tt":
            a, b = (usec(r), nsec(r)), (usec(r), nsec(r))
            if r.random() < .3:
                b = (a[0], r.choice([b[1], a[1]]))
            o.append(f"tt {k} {a[0]} {a[1]} {b[0]} {b[1]}")
        elif c == "td":
            a, b = (usec(r), nsec(r)), (isec(r), nsec(r))
            if r.random() < .2:
                b = (-a[0] if a[0] <= I else a[0] - U, r.choice([-a[1], 0, G - a[1]]))
            o.append(f"td {k} {a[0]} {a[1]} {b[0]} {min(b[1], I - 1)}" if not (b[1] < 0 and b[0] == -I) else f"td {k} {a[0]} {a[1]} 0 0")
        else:
            a, b = (isec(r), nsec(r)), (isec(r), nsec(r))
            if r.random() < .3:
                b = (r.choice([a[0], -a[0] if a[0] > -I else 0, -1 - a[0]]), r.choice([a[1], G - a[1] if a[1] else 0, b[1]]))
            if b[0] == I - 1 and b[1] >= G:
                b = (0, 0)
            x = r.choice([0., 1., -1., 2., .5, -.5, 1e-9, 1e9, r.uniform(-3, 3), r.uniform(-1e-3, 1e-3), 1e18, float("inf")] if a != (0, 0) else [0., 1., -2.5])
            if x == float("inf"):
                x = 1e30
            o.append(f"dd {k} {a[0]} {a[1]} {b[0]} {b[1]} {h(x)}")
    return o


def utils(r, n):
    o = []
    for _ in range(n):
        k = r.choice(["time", "wall"])
        o.append(r.choice([
            f"nsec {r.choice([0, 1, -1, 5, r.randrange(-2 ** 62, 2 ** 62), r.randrange(10 ** 10), 17 * 10 ** 17 + r.randrange(10 ** 9)])} {h(r.choice([0., .3, -.3, 1.7e9 + r.random(), r.uniform(-9, 9), r.uniform(-9e9, 9e9), 5e-9, 1e-9]))}",
            f"now {k}", "nsecnow"]))
    o.append(f"sleep {r.choice(['time', 'wall'])} 0 {r.choice([0, 1000, 3000000])}")
    return o


def corrector(r, kind, shape):
    """observations (remote, local): the local clock with drift and a one-sided delay"""
    n = r.choice([1, 2, 3, 4, 6, 10, 25])
    pts = []
    if shape == "grid":     # exactly representable, small: many collinear points and deep pops
        x = r.randrange(-20, 20)
        step, height = r.choice([1, 2, 4]), r.choice([1, 3, 8, 30])
        trend = r.choice([0, 0, 1, -1])
        for i in range(n):
            pts.append((x, trend * x + r.randrange(height + 1)))
            x += r.randrange(1, step + 1)
        if r.random() < .3 and n > 3:
            x0, y0 = pts[-1]
            pts[-1] = (x0, y0 - 1000)      # one far below: the hull collapses
            if r.random() < .6:
                for i in range(r.randrange(1, 4)):
                    x0 += r.randrange(1, 3)
                    pts.append((x0, y0 + r.randrange(-5, 5)))
        c = r.choice([1, 1, .5, .125]) if kind == "double" else 1
        pts = [(a * c, b * c) for a, b in pts]
        if kind == "double" and r.random() < .3:
            pts = [(a + 2 ** 30, b + 2 ** 31) for a, b in pts]
        if kind == "long":
            s, t0, t1 = r.choice([1, 10, 1000, 10 ** 6, 10 ** 7, 10 ** 8, 10 ** 9]), r.choice([0, 10 ** 9, 17 * 10 ** 17 + 1]), r.choice([0, 17 * 10 ** 17 + 3])
            pts = [(int(a) * s + t0, int(b) * s + t1) for a, b in pts]
    else:
        drift, dt, noise = 1 + r.choice([0, 1e-6, -1e-5, 1e-3, .5, -.3]), r.choice([.005, .05, 1.]), r.choice([1e-4, 1e-2, .3])
        r0, l0 = r.choice([0., 100., 1.7e9]), r.choice([0., 5., 1.7e9 + 37])
        t = 0.
        for i in range(n * 2):
            d = r.expovariate(1 / noise)
            if r.random() < .1:
                d -= r.uniform(0, 10 * noise)
            pts.append((r0 + t, l0 + drift * t + d))
            t += dt * r.choice([1, 1, 1, r.uniform(.5, 2)])
        if kind == "long":
            pts = [(int(a * 1e9), int(b * 1e9)) for a, b in pts]
    o = []
    w = h if kind == "double" else (lambda v: str(int(v)))
    last = None
    for a, b in pts:
        if last is not None and r.random() < .06:       # not later than the last one: must be refused
            o.append((r.choice([last, (last + pts[0][0]) / 2 if kind == "double" else last - 1, pts[0][0]]), b))
        o.append((a, b))
        last = a
    lines = []
    cur = None
    for a, b in o:
        cur = a if cur is None else max(a, cur)
        q = [pts[0][0], cur] if cur != pts[0][0] else [pts[0][0], cur + 1]
        d = cur - pts[0][0] or 1
        q += [cur + d, pts[0][0] + (d / 2 if kind == "double" else int(d) // 2)]
        lines.append(f"obs {kind} {w(a)} {w(b)} " + " ".join(w(v) for v in q))
    return lines


def run():
    c = Check("C12")
    r = c.rng
    c.build("clock")
    c.design("ClocksMC", "ClocksMCdeep.cfg" if c.thorough else "ClocksMC.cfg", timeout=800)
    s = []
    for i in range(c.n(40, 600)):
        s.append((f"time-{i}", "\n".join(times(r, 40))))
    for i in range(c.n(4, 20)):
        s.append((f"util-{i}", "\n".join(utils(r, 20))))
    for i in range(c.n(150, 3000)):
        for kind in ("double", "long"):
            for shape in ("grid", "real"):
                s.append((f"{shape}-{kind}-{i}", "\n".join(corrector(r, kind, shape))))
    c.conform("ClockTrace", "clock", s)
    c.assumptions += [
        "Conversions to and from seconds as doubles are judged to one nanosecond plus the rounding of the double.",
        "The corrector's line is judged by what defines it (no observation below, on the hull over the middle), with a tolerance that bounds the rounding of the hull's turn tests.",
    ]
    c.finish()


if __name__ == "__main__":
    main(run)
