"""C11: camera projection, back-projection and Jacobians are one model."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv

COMBOS = [("pin", d) for d in ("none", "radtan", "equi", "fov")] + [("omni", d) for d in ("none", "radtan", "equi", "fov")] + [("eucm", "none"), ("ds", "none")]


class Cam:
    def __init__(self, r, kind, dist):
        self.r, self.kind, self.dist = r, kind, dist
        self.gs = (kind, dist) in (("pin", "radtan"), ("omni", "none")) and r.random() < .3
        self.ru, self.rv = r.choice([(64, 48), (640, 480), (752, 480), (321, 1000), (1, 1)] if r.random() < .9 else [(4000, 3000)])
        self.ld = r.choice([0., 1e-5, 3e-5, -2e-5, 1e-3])
        self.new()

    def pre(self):
        r = self.r
        if self.kind == "pin":
            return []
        if self.kind == "omni":
            return [r.choice([0., .3, .9, .999, 1., 1.001, 1.2, 2.1, r.uniform(.1, 2.5)])]
        a = r.choice([0., .25, .5, .51, .6, .8, r.uniform(.05, .85)])
        if self.kind == "eucm":
            return [a, r.choice([1., .7, 1.6, r.uniform(.5, 2)])]
        return [r.choice([0., -.2, .2, .7, r.uniform(-.3, .9)]), a]

    def new(self):
        r = self.r
        f = self.ru * r.uniform(.3, 1.5)
        self.q = self.pre() + [f, f * r.choice([1., 1.02, .7, 1.4]), self.ru * r.uniform(.35, .65), self.rv * r.uniform(.35, .65)]
        self.k = self.distk()

    def distk(self):
        r = self.r
        if self.dist == "none":
            return []
        if self.dist == "fov":
            return [r.choice([.9, .5, 1.2, 1.5, r.uniform(.5, 1.5), r.uniform(.5, 1.5), 0.])]
        s = r.choice([1, 1, .2, 0])
        if self.dist == "radtan":
            return [r.uniform(-.2, .2) * s, r.uniform(-.08, .08) * s, r.uniform(-.004, .004) * s, r.uniform(-.004, .004) * s]
        return [r.uniform(-.08, .08) * s, r.uniform(-.03, .03) * s, r.uniform(-.02, .02) * s, r.uniform(-.01, .01) * s]

    def line(self):
        r = self.r
        via = r.choice(["make", "set", "tree", "dist"])
        if self.gs:
            ms, rows = 1., []
        else:
            ms = r.choice([1., 1., .5, .25, 2.])
            rows = []
            if r.random() < .5 and self.ru <= 64:
                m, n = int(math.ceil(self.rv * ms)), int(math.ceil(self.ru * ms))
                if r.random() < .15:
                    m, n = max(1, m // 2), max(1, n // 2)
                c = r.choice([0, 128, 255])
                rows = [[r.choice([0, 1, 255]) if r.random() < .3 else c for _ in range(n)] for _ in range(m)]
        self.hasMask, self.ms = bool(rows), ms
        flat = " ".join(str(x) for w in rows for x in w)
        return "cam %s %s %s %s %d %d %s %s %d %d %s %s %s" % (self.kind, self.dist, "gs" if self.gs else "rs", via, self.ru, self.rv, h(self.ld), h(ms),
                                                              len(rows), len(rows[0]) if rows else 0, flat, hv(self.q), hv(self.k))

    def point(self):
        """a direction: near the axis, anywhere, or near the edge of the domain"""
        r = self.r
        x = r.random()
        d = r.choice([1., 1., 7.3, 1e-3, 250.])
        if x < .12:
            return [0., 0., d * r.choice([1, 1, 1, -1])]
        az = r.choice([0, math.pi / 2, math.pi, -math.pi / 2, r.uniform(-math.pi, math.pi), r.uniform(-math.pi, math.pi)])
        if x < .27:
            t = 10 ** r.uniform(-9, -1.5)
        elif x < .75:
            t = r.uniform(0, 1.1)
        elif x < .9:
            t = r.uniform(0, math.pi)
        else:
            t = self.edge() + r.choice([0, 1e-3, -1e-3, -.02, .02, -.1])
        return [d * math.sin(t) * math.cos(az), d * math.sin(t) * math.sin(az), d * math.cos(t)]

    def edge(self):
        q = self.q
        w1 = lambda a: a / (1 - a) if a <= .5 else (1 - a) / a
        if self.kind == "pin":
            return math.pi / 2
        if self.kind == "omni":
            f = q[0] if q[0] <= 1 else 1 / q[0]
            return math.acos(max(-1, min(1, -f)))
        if self.kind == "eucm":
            f = w1(q[0])
            return math.pi / 2 + math.atan2(f * math.sqrt(q[1]), math.sqrt(max(0, 1 - f * f)))
        w = w1(q[1])
        s = 2 * w * q[0] + q[0] ** 2 + 1
        return math.acos(max(-1, min(1, -(w + q[0]) / math.sqrt(s))))

    def key(self):
        r = self.r
        x = r.random()
        if x < .1:
            return [self.q[-2], self.q[-1]]
        if x < .2:
            return [self.q[-2] + r.choice([0, 1e-9, 1e-7, -1e-4]) * self.ru, self.q[-1] + r.choice([0, 1e-9, -1e-6]) * self.ru]
        if x < .35:
            return [r.choice([0., self.ru - 1., float(self.ru), -1e-9, self.ru - 1e-9, -.5, self.ru + .5]), r.choice([0., self.rv - 1., float(self.rv), -.5, self.rv * .5, self.rv - 1e-9])]
        if x < .45:
            return [r.choice([-1, 1, 3]) * r.uniform(1, 3) * self.ru, r.uniform(-2, 3) * self.rv]
        if x < .48:
            return [r.choice([1e7, -3e8, 1e300]), r.choice([0., 1e7, -1e12])]
        return [r.uniform(0, self.ru), r.uniform(0, self.rv)]


def script(r, combo):
    c = Cam(r, *combo)
    out = [c.line()]
    fl = lambda: [r.randint(0, 1) for _ in range(3)]
    for _ in range(r.randint(10, 18)):
        x = r.random()
        if x < .3:
            out.append("proj %d %d %d %s" % (*fl(), hv(c.point())))
        elif x < .45:
            p = c.point()
            s = r.choice([-1, 1])
            out.append("projh %d %d %d %s" % (*fl(), hv([s * t for t in p] + [s * r.choice([1., .5, 0., 30.])])))
        elif x < .7:
            out.append("lift %s" % hv(c.key()))
        elif x < .78:
            out.append("valid %s" % hv(c.key()))
        elif x < .82:
            out.append("shut %s %d %d %d" % (hv([r.uniform(0, c.ru), r.choice([0., r.uniform(0, c.rv)])]), *fl()))
        elif x < .86:
            out.append("get %d %d %d" % tuple(fl()))
        elif x < .92:
            f = fl()
            old = (c.q, c.k, c.ld)
            c.new()
            ld = r.choice([0., 2e-5])
            c.q, c.k, c.ld = (c.q if f[0] else old[0]), (c.k if f[1] else old[1]), (ld if f[2] else old[2])
            out.append("set %d %d %d %s" % (*f, hv((c.q if f[0] else []) + (c.k if f[1] else []) + ([ld] if f[2] and not c.gs else []))))
        elif x < .97:
            f = fl()
            np = len(c.q) - 4
            dq = [r.uniform(-.02, .02) for _ in range(np)] + [r.uniform(-.05, .05) * t for t in c.q[np:]]
            if c.kind != "pin":      # keep the parameters in their range
                dq[:np] = [abs(t) if c.q[i] < .3 and not (c.kind == "ds" and i == 0) else -abs(t) if c.q[i] > .8 and c.kind != "omni" else t for i, t in enumerate(dq[:np])]
            if not f[0]:
                dq = []
            dk = [r.uniform(-.002, .002) if c.dist != "fov" or .51 < c.k[0] < 1.49 else 0. for _ in c.k] if f[1] else []
            dl = [1e-6] if f[2] and not c.gs else []
            c.q = [a + b for a, b in zip(c.q, dq)] if dq else c.q
            c.k = [a + b for a, b in zip(c.k, dk)] if dk else c.k
            c.ld += dl[0] if dl else 0
            out.append("upd %d %d %d %s" % (*f, hv(dq + dk + dl)))
        elif not c.hasMask:
            s = r.choice([.5, 2., .75, 1.])
            if c.ru * s < 1 or c.rv * s < 1 or c.ru * s > 5000:
                continue
            np = len(c.q) - 4
            c.q = c.q[:np] + [s * t for t in c.q[np:]]
            c.ru, c.rv = int(c.ru * s), int(c.rv * s)
            out.append("resize %s" % h(s))
    return "\n".join(out)


def run():
    c = Check("C11")
    c.build("cam")
    c.design("CamerasMC", "CamerasMCdeep.cfg" if c.thorough else None, timeout=800)
    S = [("%s-%s-%d" % (k, d, i), script(c.rng, (k, d))) for i in range(c.n(50, 400)) for k, d in COMBOS]
    c.conform("CameraTrace", "cam", S, timeout=800)
    c.assumptions += ["the iterative inversion of a distortion is judged where the distortion is mild (Mild in CameraTrace)",
                      "the depth camera is not covered: its projection is unfinished in the source"]
    c.finish()


main(run)
