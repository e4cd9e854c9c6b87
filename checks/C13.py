"""C13: targets and observations keep image points and target points together."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv


def qmul(a, b):
    x, y, z, w = a
    p, q, r, s = b
    return [w * p + x * s + y * r - z * q, w * q - x * r + y * s + z * p, w * r + x * q - y * p + z * s, w * s - x * p - y * q - z * r]


class Gen:
    def __init__(self, r):
        self.r, self.o, self.t, self.obs = r, [], {}, {}
        self.cam = None

    def target(self, name, valid=True):
        r = self.r
        k = r.choice(["checker", "circle", "april"])
        m, n = (r.randrange(1, 4), r.randrange(1, 4)) if k == "april" else (r.randrange(1, 8), r.randrange(1, 8))
        if self.big:
            m, n = (r.randrange(2, 4), r.randrange(2, 4)) if k == "april" else (r.randrange(4, 8), r.randrange(4, 8))
        a = r.choice([.05, .1, 1., r.uniform(.02, .3)])
        b = {"checker": r.choice([a, .07, r.uniform(.03, .3)]), "circle": float(r.randrange(2)), "april": r.choice([.3, .25, r.uniform(.1, .6)])}[k]
        if self.big:
            a = .08 if k != "april" else .1
            b = {"checker": r.choice([.08, .06]), "circle": b, "april": .3}[k]
        if not valid:
            if r.random() < .5 or k == "circle":
                a = r.choice([0., -1.])
            else:
                b = r.choice([0., -.2])
            self.o.append("target bad%d %s %d %d %s %s" % (len(self.o), k, m, n, h(a), h(b)))
            return
        self.o.append("target %s %s %d %d %s %s" % (name, k, m, n, h(a), h(b)))
        f = 2 if k == "april" else 1
        M, N = m * f, n * f
        if k == "april":
            e = (a * ((N // 2 - 1) * (1 + b) + 1), a * ((M // 2 - 1) * (1 + b) + 1))
        elif k == "checker":
            e = (a * (M - 1), b * (N - 1))
        else:
            e = ((a * (2 * N), a * M) if b else (a * M, a * N))
        self.t[name] = (M * N, e)

    def index(self, n):
        r = self.r
        return r.choice([0, n - 1, r.randrange(n), r.randrange(n)]) if r.random() < .95 else r.choice([n, n + 3, -1])

    def step(self):
        r = self.r
        if len(self.obs) < 2 or r.random() < .05:
            n = r.choice("ABC")
            t = r.choice(sorted(self.t))
            self.obs[n] = t
            self.o.append("obs %s %s" % (n, t) if r.random() < .6 else "obsimg %s %s %d %d %d" % (n, t, r.randrange(1, 5), r.randrange(1, 5), r.randrange(256)))
            return
        o = r.choice(sorted(self.obs))
        n = self.t[self.obs[o]][0]
        c = r.random()
        if c < .4:
            self.o.append("upd %s %d %s" % (o, self.index(n), hv([r.uniform(-5, 700), r.choice([0., 1e-9, 480., r.uniform(0, 500)])])))
        elif c < .6:
            self.o.append("rem %s %d" % (o, self.index(n)))
        elif c < .68:
            p = r.choice("ABC")
            self.o.append("copy %s %s %d" % (p, o, r.randrange(2)))
            self.obs[p] = self.obs[o]
        elif c < .74:
            t = r.choice(sorted(self.t) + ["null"])
            self.o.append("settarget %s %s" % (o, t))
            if t != "null":
                self.obs[o] = t
        elif c < .79:
            self.o.append("img %s %d %d %d" % (o, r.randrange(1, 9), r.randrange(1, 9), r.randrange(256)))
        elif c < .82:
            self.o.append("clr %s" % o)
        elif c < .86:
            self.o.append("time %s %d %d" % (o, r.randrange(2 ** 31), r.randrange(10 ** 9)))
        elif c < .92:
            q, t = self.pose(o)
            self.o.append("pose %s %s %s" % (o, hv(q), hv(t)))
        elif c < .95:
            self.o.append("look %s" % r.choice(sorted(self.obs)))
        elif self.cam:
            self.find(o)

    def pose(self, o):
        """the camera in the target's frame, looking at the target"""
        r = self.r
        ex, ey = self.t[self.obs[o]][1] if o in self.obs else (1., 1.)
        d = max(ex, ey, .1) * r.uniform(1., 2.2)
        # the target's z axis points away from the camera or towards it: look along +z from z = -d, or flipped
        q = [0., 0., 0., 1.] if r.random() < .6 else [1., 0., 0., 0.]
        s = -1 if q[3] else 1
        w = [r.uniform(-.35, .35), r.uniform(-.35, .35), r.uniform(-3, 3)]
        a = math.sqrt(sum(x * x for x in w))
        e = [x / a * math.sin(a / 2) for x in w] + [math.cos(a / 2)]
        # tilt in the target's frame about its centre; Transformation(q, t) maps camera to target
        q = qmul(e, q)
        m = math.sqrt(sum(x * x for x in q))
        q = [x / m for x in q]
        x, y, z, c = q
        R = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * c), 2 * (x * z + y * c)], [2 * (x * y + z * c), 1 - 2 * (x * x + z * z), 2 * (y * z - x * c)],
             [2 * (x * z - y * c), 2 * (y * z + x * c), 1 - 2 * (x * x + y * y)]]
        R = [[R[j][i] for j in range(3)] for i in range(3)] if TRANSPOSE else R
        ax = [R[i][2] for i in range(3)]
        t = [ex / 2 - d * ax[0] + r.uniform(-.1, .1) * d, ey / 2 - d * ax[1] + r.uniform(-.1, .1) * d, -d * ax[2]]
        return q, t

    def camera(self):
        r = self.r
        k = r.choice(["pin", "pin", "omni", "eucm", "ds"])
        f = {"pin": 400., "omni": 700., "eucm": 400., "ds": 350.}[k]
        pre = {"pin": [], "omni": [r.uniform(.5, 1.2)], "eucm": [.5, 1.], "ds": [-.2, .55]}[k]
        q = pre + [f, f * r.choice([1., .9]), 320., 240.]
        self.cam = k
        self.o.append("camera %s %d %s 640 480" % (k, len(q), hv(q)))

    def find(self, o):
        r = self.r
        t = r.choice(sorted(self.t))
        self.obs[o] = t
        n = self.t[t][0]
        q, tt = self.pose(o)
        ok = 0 if r.random() < .15 else 1
        notrans = 1 if r.random() < .15 else 0
        filt = r.randrange(2)
        inv = sorted(r.sample(range(n), r.choice([0, 0, min(2, n), n // 3, max(0, n - 3)])))
        noise = []
        clean = r.random() < .4
        if not clean:
            for i in range(n):
                noise.append((i, r.gauss(0, .1), r.gauss(0, .1)))
            for i in r.sample(range(n), min(n, r.choice([0, 1, 2]))):
                noise.append((i, r.choice([-1, 1]) * r.uniform(1, 25), r.uniform(-8, 8)))
        enough = clean and n - len(inv) >= 12 and self.big and not inv
        s, ns = (0, 0) if r.random() < .3 else (r.randrange(2 ** 31), r.randrange(10 ** 9))
        self.o.append("find %s %s %d %s %s %d %d %s %s %d %d %d %d %d %s %d %s %s" % (
            o, t, filt, h(r.choice([2., 1., 3., 1.5])), h(r.choice([.2, .5, 0., 2.])), notrans, ok, hv(q), hv(tt), s, ns, r.choice([480, 7]), r.choice([640, 9]),
            len(inv), " ".join(map(str, inv)), len(noise), " ".join("%d %s %s" % (i, h(a), h(b)) for i, a, b in noise),
            "empty" if not ok and r.random() < .5 else "clean" if enough else "any"))


TRANSPOSE = False


def script(r, n, big):
    g = Gen(r)
    g.big = big
    g.target("R")
    g.target("S")
    if r.random() < .3:
        g.target("", valid=False)
    if big or r.random() < .5:
        g.camera()
    for _ in range(n):
        g.step()
        if big and len(g.obs) and r.random() < .4:
            g.find(r.choice(sorted(g.obs)))
    return "\n".join(g.o)


def run():
    c = Check("C13")
    c.build("target")
    c.design("TargetsMC", "TargetsMCdeep.cfg" if c.thorough else None, timeout=800)
    r = c.rng
    S = [("life-%d" % k, script(r, 40, False)) for k in range(c.n(80, 1500))]
    S += [("find-%d" % k, script(r, 12, True)) for k in range(c.n(60, 1000))]
    c.conform("TargetTrace", "target", S, timeout=800)
    c.assumptions += ["the pose is judged on detections without noise and by its reprojections; points within 0.005 px of the outlier threshold may go either way",
                      "what an unobserved index holds is not judged"]
    c.finish()


if __name__ == "__main__":
    main(run)
