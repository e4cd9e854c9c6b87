"""Scripts over curves of poses (driver bspl, specification PoseTrace)."""
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import hv, hmat


def _unit(r):
    while True:
        v = [r.gauss(0, 1) for _ in range(3)]
        m = math.sqrt(sum(x * x for x in v))
        if m > 1e-3:
            return [x / m for x in v]


def rotation(r, kind):
    """A rotation away from the singularity of the parametrisation."""
    while True:
        a, t = _unit(r), r.choice([r.uniform(-3, 3), r.uniform(-1, 1), 0, r.uniform(-.01, .01)])
        if r.random() < .2:
            a = [float(i == r.randrange(3)) for i in range(3)]
            m = math.sqrt(sum(x * x for x in a))
            if not m:
                continue
            a = [x / m for x in a]
        q = [x * math.sin(t / 2) for x in a] + [math.cos(t / 2)]
        m = math.sqrt(sum(x * x for x in q))
        x, y, z, w = [u / m for u in q]
        C = [[x * x - y * y - z * z + w * w, 2 * (x * y + z * w), 2 * (x * z - y * w)],
             [2 * (x * y - z * w), -x * x + y * y - z * z + w * w, 2 * (y * z + x * w)],
             [2 * (x * z + y * w), 2 * (y * z - x * w), -x * x - y * y + z * z + w * w]]
        if kind in ("ypr", "zyx") and (abs(C[2][0]) > .99 or abs(C[0][2]) > .99):
            continue
        if kind == "zxy" and (abs(C[2][1]) > .99 or abs(C[1][2]) > .99):
            continue
        if kind == "rod" and w * w < .05:
            continue
        return C


def knots(r, k, segs):
    """A nondecreasing sequence with a nonempty interval: uniform, random, clamped, with coincident knots, far from zero."""
    n = segs + 2 * k - 1
    off = r.choice([0, 0, 0, -3.5, 1000.25, 1403636579.75])
    w = r.choice([1.0, .5, .1, 7.0, 1 / 64]) if off < 1e6 else r.choice([1.0, .5, .05])
    kind = r.choice("uurrrmmc")
    if kind == "u":
        T = [off + i * w for i in range(n)]
    elif kind == "c":
        T = [off] * k + [off + (i + 1) * w for i in range(segs - 1)] + [off + segs * w] * k
    else:
        T, x = [], off
        for i in range(n):
            T.append(x)
            if not (kind == "m" and r.random() < .35):
                x += w * r.uniform(.2, 2)
        if not T[k - 1] < T[n - k]:
            return knots(r, k, segs)
    return T


class Poses:
    def __init__(self, r, deep):
        self.r, self.deep = r, deep
        self.k = r.choice([2, 3, 4, 4, 4, 5, 6])
        self.kind = r.choice(["rv", "rv", "rv", "ypr", "rod", "zyx", "zxy"])
        self.out = ["new %d %s" % (self.k, self.kind)]
        self.dv, self.up = False, None
        self.size = r.choice([.2, 1, 1, 1.5])

    def T4(self):
        C, r = rotation(self.r, self.kind), self.r
        t = [r.choice([0, r.uniform(-3, 3), r.uniform(-3, 3)]) for _ in range(3)]
        return hmat([C[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1.]])

    def value(self):
        r = self.r
        top = {"rv": 1.6, "rod": 1.2}.get(self.kind, 1.3) * self.size
        q = [r.uniform(-top, top) if r.random() < .9 else 0. for _ in range(3)]
        if r.random() < .05:
            q = [0., 0., 0.]
        return [r.uniform(-3, 3) if r.random() < .8 else float(r.randint(-2, 2)) for _ in range(3)] + q

    def begin(self):
        r, k = self.r, self.k
        x = r.random()
        if x < .55:
            self.T = knots(r, k, r.choice([1, 2, 3, 5]))
            n = len(self.T) - k
            rows = [self.value() for _ in range(n)]
            if r.random() < .15:
                rows = [list(rows[0]) for _ in rows]          # at rest
            if r.random() < .1:
                rows = [q[:3] + [0., 0., 0.] for q in rows]
            self.out.append("set %d %d %s %d 6 %s" % (r.randrange(2), len(self.T), hv(self.T), n, hmat(rows)))
        elif x < .85:
            a = r.choice([0, 0, -2.5, 100.25, 1403636579.75])
            z = a + r.choice([1., .5, 3.25])
            self.out.append("initT %s %s %s" % (hv([a, z]), self.T4(), self.T4()))
            self.uniform(a, z, 1)
        else:
            m = r.choice([3, 5, 8])
            a = r.choice([0, 10.5])
            ts = sorted([a] + [a + r.uniform(.01, 2) for _ in range(m - 2)] + [a + 2.])
            P = [self.value() for _ in ts]
            n = r.choice([1, 2, 4])
            f = r.choice(["2", "3", "sparse", "knots"])
            lam = r.choice([1e-2, 1e-1, 1.])
            if f == "knots":
                self.uniform(a, a + 2., n)
                end = "%d %s" % (len(self.T), hv(self.T))
            else:
                self.uniform(a, a + 2., n)
                end = "%d" % n
            self.out.append("fit %s %d %s %d 6 %s %s %s" % (f, len(ts), hv(ts), len(ts), hmat(P), float(lam).hex(), end))

    def uniform(self, a, z, n):
        dt = (z - a) / n
        self.T = [a + (i - self.k + 1) * dt for i in range(n + 2 * self.k - 1)]

    def time(self, inner=False):
        r, k = self.r, self.k
        a, z = self.T[k - 1], self.T[-k]
        x = r.random()
        if x < .15 and not inner:
            return r.choice([a, z] + self.T[k - 1:len(self.T) - k + 1])
        if x < .2 and not inner:
            return r.choice([a - .25, z + .25, math.nextafter(a, -1e300)])
        return a + (z - a) * r.random()

    def step(self):
        r = self.r
        x = r.random()
        w = self.T[-self.k] - self.T[-self.k - 1]
        if x < .16 and w > 0:
            lam = r.random() < .5
            t = self.T[-self.k] + w * r.choice([.5, 1, 1, 1.75, r.uniform(.3, 2)])
            # the library chooses the last two coefficients from a badly conditioned system at high orders
            self.out.append("%s %s %s" % ("add2T" if lam else "addT", hv([t]), self.T4()) + (" " + float(r.choice([0, 1e-3, .1, 1.])).hex() if lam else ""))
            e = len(self.T) - self.k
            dt = t - self.T[e]
            self.T = self.T[:e + 1] + [t + i * dt for i in range(self.k)]
            self.up = None
        elif x < .22 and len(self.T) > 2 * self.k + 1 and self.T[self.k] < self.T[-self.k]:
            self.out.append("rm")
            self.T = self.T[1:]
            self.up = None
        elif x < .3 and not self.dv:
            i = r.randrange(len(self.T) - self.k)
            self.out.append("vv %d 6 %s" % (i, hv(self.value())))
        elif x < .34 and not self.dv:
            self.out.append("setl %s %d %s" % (hv([self.time()]), 6 * self.k, hv(sum([self.value() for _ in range(self.k)], []))))
        elif x < .40 and not self.dv:
            self.out.append("dv 0")
            self.dv = True
        elif x < .56 and self.dv:
            i = r.randrange(len(self.T) - self.k)
            y = r.random()
            if y < .5:
                self.out.append("dvup %d 6 %s" % (i, hv([.2 * u for u in self.value()])))
                self.up = i
            elif y < .7 and self.up is not None:
                self.out.append("dvrev %d" % self.up)
                self.up = None
            else:
                self.out.append("dvset %d 6 %s" % (i, hv(self.value())))
                self.up = None
        elif x < .60:
            self.out.append("tcv 6 %s" % hv(self.value()))

    def look(self):
        r = self.r
        for _ in range(r.choice([1, 2])):
            if self.dv and r.random() < .75:
                if r.random() < .25:
                    a, z = self.T[self.k - 1], self.T[-self.k]
                    t0 = self.time(True)
                    L, R = [r.choice([0, (z - a) * r.uniform(.02, .6)]) for _ in range(2)]
                    t1 = t0 + (R * .99 * r.random() if r.random() < .5 else -L * .99 * r.random())
                    if r.random() < .1:
                        t1 = t0 + r.choice([-1, 1]) * (z - a) * r.uniform(0, 1.2)
                    self.out.append("toff %s" % hv([t0, L, R, t1]))
                else:
                    self.out.append("pexpr %s %s" % (r.choice(["T", "R", "p", "v", "a", "ab", "ab", "w", "w"]), hv([self.time()])))
            else:
                self.out.append("pose %s" % hv([self.time()]))
        if r.random() < .1:
            self.out.append("span")
        if r.random() < .1:
            self.out.append("loc %s" % hv([self.time()]))

    def text(self, n):
        self.begin()
        if self.r.random() < .5:
            self.out.append("dv 0")
            self.dv = True
        self.look()
        for _ in range(n):
            self.step()
            self.look()
        return "\n".join(self.out)


def scripts(r, n, deep=False, findings=False):
    out = [("p-%d" % i, Poses(r, deep).text(r.choice([2, 4, 6]) if not deep else r.choice([4, 8, 12]))) for i in range(n)]
    for i in range(max(8, n // 10) if findings else 0):      # one observation each: every one shows the listed finding
        p = Poses(r, deep)
        p.begin()
        p.out.append("angacc %s" % hv([p.time(True)]))
        out.append(("angacc-%d" % i, "\n".join(p.out)))
    return out
