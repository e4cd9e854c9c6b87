"""C08: B-splines evaluate, differentiate, integrate and extend correctly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv, hmat
from poses import knots, scripts


class Script:
    def __init__(self, r, deep):
        self.r, self.deep, self.out = r, deep, []
        self.k = r.choice([2, 2, 3, 3, 4, 4, 4, 5, 6])
        self.D = r.choice([1, 2, 3])
        self.T, self.dv, self.up = None, False, set()
        self.out.append("new %d" % self.k)

    def vec(self, n=None):
        r = self.r
        n = self.D if n is None else n
        return [r.uniform(-3, 3) if r.random() < .8 else float(r.randint(-2, 2)) for _ in range(n)]

    def v(self, n=None):
        x = self.vec(n)
        return "%d %s" % (len(x), hv(x))

    def coefs(self, n, D=None):   # one coefficient a row
        D = D or self.D
        return "%d %d %s" % (n, D, hmat([self.vec(D) for _ in range(n)]))

    def W(self, bad=True):
        r, D = self.r, self.D
        A = [self.vec(D) for _ in range(D)]
        M = [[sum(A[x][i] * A[x][j] for x in range(D)) for j in range(D)] for i in range(D)]
        for i in range(D):
            for j in range(i):
                M[i][j] = M[j][i]
        if r.random() < .3:
            M = [[1.0 * (i == j) for j in range(D)] for i in range(D)]
        if bad and D > 1 and r.random() < .06:
            M[0][1] += .25
        if bad and r.random() < .04:
            M = M + [M[0]]
        return "%d %d %s" % (len(M), D, hmat(M))

    def tmin(self):
        return self.T[self.k - 1]

    def tmax(self):
        return self.T[-self.k]

    def segs(self):
        return len(self.T) - 2 * self.k + 1

    def time(self, off=True):
        r = self.r
        a, z = self.tmin(), self.tmax()
        x = r.random()
        if off and x < .05:
            return r.choice([a - .1, z + .1, z + 1e-6, a - 1e-6, float("nan"), float("inf"), -float("inf")])
        if off and x < .08:
            return r.choice([z - 3e-11, z + 3e-11])
        if x < .3:
            return r.choice(self.T[self.k - 1:len(self.T) - self.k + 1])
        if x < .38:
            return z
        if x < .42:
            t = r.choice(self.T[self.k - 1:len(self.T) - self.k])
            t = t + max(abs(t), 1) * 2. ** -52
            return t if t < z - 1e-9 else z
        return min(z, max(a, a + (z - a) * r.random()))

    def put(self, segs):
        self.T = knots(self.r, self.k, segs)
        self.out.append("set %d %d %s %s" % (self.r.randint(0, 1), len(self.T), hv(self.T), self.coefs(len(self.T) - self.k)))

    def refused_set(self):
        r = self.r
        T = list(self.T)
        n = len(T) - self.k
        how = r.randint(0, 3)
        if how == 0:
            i = r.randrange(len(T) - 1)
            T[i] = T[i + 1] + .5
        elif how == 1:
            T = T[:2 * self.k - 1]
            n = max(1, len(T) - self.k)
        elif how == 2:
            n += r.choice([-1, 1])
        else:                         # longer than the present sequence and decreasing at its end
            T += [T[-1] + 1, T[-1] + .5]
            n += 2
        if n < 1:
            return
        self.out.append("set %d %d %s %s" % (r.randint(0, 1), len(T), hv(T), self.coefs(n)))

    def init(self):
        r, k = self.r, self.k
        a = r.choice([0., -2.5, 10.125, 1403636579.75])
        f = r.choice(["init", "const", "2", "3", "s", "knots"])
        if f == "init":
            z = a + r.choice([1., .5, 4.])
            if r.random() < .1:
                self.out.append("init %s %s %s %s" % (h(z), h(r.choice([a, z])), self.v(), self.v()))
                return
            self.out.append("init %s %s %s %s" % (h(a), h(z), self.v(), self.v()))
            self.T = [a + (i - k + 1) * (z - a) for i in range(2 * k)]
            return
        segs = r.randint(1, 6)
        z = a + segs * r.choice([1., .5, .3, 2.7])
        if f == "const":
            if r.random() < .1:
                self.out.append("const %s %s %d %s" % (h(a), h(z), 0, self.v()))
                return
            self.out.append("const %s %s %d %s" % (h(a), h(z), segs, self.v()))
            dt = (z - a) / segs
            self.T = [a + (i - k + 1) * dt for i in range(segs + 2 * k - 1)]
            return
        if k < 2:
            return self.put(r.randint(1, 6))
        n = r.choice([2, 4, 8, 12])
        if f == "2":
            n = max(n, 4)
        ts = [a, z] + [r.uniform(a, z) for _ in range(n - 2)]
        ts.sort()
        if r.random() < .2:
            ts[1] = ts[0]
        if ts[0] == ts[1] and n == 2:
            ts = [a, z]
        lam = r.choice([1e-3, .1, 1., 10.])
        bad = r.random() < .08
        K = [a + (i - k + 1) * ((z - a) / segs) for i in range(segs + 2 * k - 1)]
        if bad:
            how = r.randint(0, 2)
            m = n
            if how == 0:
                ts[0], ts[-1] = ts[-1], ts[0]
            elif how == 1:
                m = n + 1
            elif f != "knots":
                self.out.append("fit %s %d %s %s %s 0" % (f, n, hv(ts), self.coefs(n), h(lam)))
                return
            else:
                K[2], K[1] = K[1] - 1, K[2]
            tail = "%d" % segs if f != "knots" else "%d %s" % (len(K), hv(K))
            self.out.append("fit %s %d %s %s %s %s" % (f, n, hv(ts), self.coefs(m), h(lam), tail))
            return
        if f == "knots":
            K = sorted(a - (k - 1) + i * 1.0 if i < k else z + (i - len(K) + k) * 1.0 if i >= len(K) - k else r.uniform(a, z) for i in range(len(K)))
            K[k - 1], K[len(K) - k] = a, z
            if any(K[i + 1] - K[i] < .02 for i in range(len(K) - 1)):
                K = [a + (i - k + 1) * ((z - a) / segs) for i in range(segs + 2 * k - 1)]
                K[len(K) - k] = max(z, K[len(K) - k])
                K.sort()
            self.out.append("fit knots %d %s %s %s %d %s" % (n, hv(ts), self.coefs(n), h(lam), len(K), hv(K)))
        else:
            self.out.append("fit %s %d %s %s %s %d" % (f, n, hv(ts), self.coefs(n), h(lam), segs))
        self.T = K

    def change(self):
        r = self.r
        x = r.random()
        n = len(self.T) - self.k
        if x < .32 and self.k >= 2 and self.T[-self.k - 1] < self.tmax():
            bad = r.random() < .1
            w = self.T[-self.k] - self.T[-self.k - 1]
            # the first knot beyond the end, if there is one
            t = self.tmax() + w * r.choice([1, 1, .5, 1.75])
            if self.k > 1 and r.random() < .4 and self.T[-self.k + 1] > self.tmax():
                t = self.T[-self.k + 1]
            D = self.D
            if bad:
                if r.random() < .5:
                    t = self.tmax() - r.choice([0, .1])
                else:
                    D += 1
            if r.random() < .75:
                self.out.append("add %s %s" % (h(t), self.v(D)))
            else:
                self.out.append("add2 %s %s %s" % (h(t), self.v(D), h(r.choice([0., 1e-3, .1, 1.]))))
            if not bad:
                self.up = set()
                dt, e = t - self.tmax(), len(self.T) - self.k
                self.T = self.T[:e + 1] + [t + i * dt for i in range(self.k)]
        elif x < .55:
            if self.segs() > 1 and self.T[self.k] < self.tmax() or r.random() < .04:
                self.out.append("rm")
                self.T = self.T[1:]
                self.up = set()
                if self.segs() < 1:
                    self.out += ["span", "at %s 0" % h(self.T[0]), "seg 0", "int %s %s" % (h(self.T[0]), h(self.T[0]))]
                    return False
        elif self.dv:
            i = r.randrange(n)
            if x < .75:
                self.out.append("dvset %d %s" % (i, self.v()))
                self.up.discard(i)
            elif x < .9 or not self.up:
                self.out.append("dvup %d %s" % (i, self.v()))
                self.up.add(i)
            else:
                i = r.choice(sorted(self.up))
                self.out.append("dvrev %d" % i)
                self.up.discard(i)
        elif x < .65:
            self.out.append("setl %s %s" % (h(self.time()), self.v(self.k * self.D + (r.random() < .1))))
        elif x < .75:
            self.out.append("setc %s" % self.v(n * self.D + (r.random() < .15)))
        elif x < .83:
            self.out.append("setm %s" % self.coefs(n + (r.random() < .1), self.D + (r.random() < .1)))
        elif x < .92:
            self.out.append("vv %d %s" % (r.choice([0, n - 1, r.randrange(n), r.randrange(n), n, -1]), self.v()))
        else:
            self.refused_set()
        return True

    def look(self):
        r = self.r
        f = r.choice(["at"] * 6 + ["loc"] * 3 + ["seg", "int", "int", "quad", "curve", "span", "vvget"] + (["expr"] * 4 + ["motion", "simple"]) * self.dv)
        d = r.choice([0, 0, 1, 1, 2, 3, self.k])
        segs = self.segs()
        if f == "at":
            self.out.append("at %s %d" % (h(self.time()), d if r.random() < .98 else -1))
        elif f == "loc":
            self.out.append("loc %s" % h(self.time()))
        elif f == "seg":
            self.out.append("seg %d" % r.choice([0, segs - 1, r.randrange(segs), r.randrange(segs), segs, -1]))
        elif f == "int":
            self.out.append("int %s %s" % (h(self.time()), h(self.time())))
        elif f == "quad":
            self.out.append("quad %d %d %s" % (r.choice([0, segs - 1, r.randrange(segs), segs, -1] if r.random() < .2 else [r.randrange(segs)]), min(d, 3), self.W()))
        elif f == "curve":
            self.out.append("curve %d %s" % (min(d, 3), self.W()))
        elif f == "span":
            self.out.append("span")
        elif f == "vvget":
            n = len(self.T) - self.k
            self.out.append("vvget %d" % r.choice([0, n - 1, n, -1]))
        elif f == "expr":
            self.out.append("expr %s %d %d" % (h(self.time()), d, r.randint(0, 1)))
        elif f == "simple":
            self.out.append("simple %s %d %s" % (h(self.time()), min(d, 2), self.v()))
        elif f == "motion":
            n = len(self.T) - self.k
            act = [i for i in range(n) if r.random() < .8]
            r.shuffle(act)
            idx = [-1] * n
            for b, i in enumerate(act):
                idx[i] = b
            self.out.append("motion %d %s %s" % (r.choice([1, 2, 2, 3]), self.W(), " ".join(map(str, idx))))

    def run(self):
        r = self.r
        n = r.randint(1, 3)
        for _ in range(n):
            if r.random() < .55:
                self.put(r.randint(1, 6))
            else:
                self.init()
        if self.T is None:
            self.put(2)
        if r.random() < .45:
            self.out.append("dv %d" % (self.D == 3 and r.random() < .5))
            self.dv = True
        for _ in range(40 if self.deep else 14):
            if r.random() < .3:
                if not self.change():
                    break
            else:
                self.look()
        return "\n".join(self.out)


def run():
    c = Check("C08")
    c.build("bspl")
    c.design("BSplineMC", "BSplineMCdeep.cfg" if c.thorough else None, timeout=850)
    S = [("b-%d" % i, Script(c.rng, False).run()) for i in range(c.n(500, 9000))]
    S += [("long-%d" % i, Script(c.rng, True).run()) for i in range(c.n(60, 1500))]
    c.conform("BSplineTrace", "bspl", S, timeout=800)
    c.conform("PoseTrace", "bspl", scripts(c.rng, c.n(80, 1500)), timeout=800)
    c.assumptions += ["curves of positive length; addCurveSegment on curves of order 2 and above whose last segment is not empty",
                      "fits with at least two distinct times and lambda above 0"]
    c.finish()


main(run)
