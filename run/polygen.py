"""Random polynomial least squares problems for the backend driver."""
from vlib import h, hv, hmat


def spd(r, n):
    L = [[(r.choice([1, 2, 3]) if i == j else r.choice([0, 1, -1, .5]) if j < i else 0) for j in range(n)] for i in range(n)]
    return [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


class Problem:
    def __init__(self, r, linear=False, robust=0.3, bounds=0.0, inactive=0.25, scaling=True, maxdv=4, maxdim=3, extra=None, spread=3,
                 curve=1.0, weights="IRSV", bz=True, touch=False, priors=1.0):
        self.r = r
        self.lines = []
        n = r.randint(1, maxdv)
        self.names = ["d%d" % i for i in range(n)]
        self.dims = [r.randint(1, maxdim) for _ in range(n)]
        self.active = [r.random() >= inactive for _ in range(n)]
        if not any(self.active):
            self.active[r.randrange(n)] = True
        for i in range(n):
            s = r.choice([1, 1, 1, 2, .5, 4]) if scaling else 1
            self.lines.append("dv %s %s %d %d %s" % (self.names[i], h(s), self.active[i], self.dims[i], hv(self.point(self.dims[i], spread))))
        ets = []
        for i in range(n):
            if (self.active[i] or not touch) and r.random() < priors:
                ets.append((self.dims[i], [i], True))
        for _ in range(r.randint(0, 4) if extra is None else extra):
            k = r.randint(1, min(3, n))
            ids = r.sample(range(n), k)
            if touch and not any(self.active[i] for i in ids):
                ids[0] = r.choice([i for i in range(n) if self.active[i]])
            ets.append((r.randint(1, 3), ids, False))
        if not ets:
            ets.append((2, [self.active.index(True)], False))
        r.shuffle(ets)
        self.nets = len(ets)
        self.etdims = [e[0] for e in ets]
        self.ids = [e[1] for e in ets]
        for dim, ids, prior in ets:
            self.et(dim, ids, prior, linear, robust, bounds, curve, weights, bz)

    def point(self, n, spread=3):
        return [self.r.randint(-spread * 4, spread * 4) / 4 for _ in range(n)]

    def et(self, dim, ids, prior, linear, robust, bounds, curve, weights, bz):
        r = self.r
        nx = sum(self.dims[i] for i in ids)
        kind = "D" if r.random() < .3 or dim > 3 else "F"
        wk = r.choice(weights)
        W = ""
        if wk in "RV":
            W = hmat(spd(r, dim)) + " "
        elif wk == "S":
            W = hmat([[(r.choice([1, 2, .5]) if i == j else r.choice([0, 0, 1, -1]) if j < i else 0) for j in range(dim)] for i in range(dim)]) + " "
        mk, mp = "none", []
        if r.random() < robust:
            mk = r.choice(["gm", "cauchy", "huber", "huber", "cauchy"] + (["bz"] if bz else []))
            mp = {"gm": [r.choice([1, 4, 25])], "cauchy": [r.choice([.5, 1, 4, 9])], "huber": [r.choice([.5, 1, 3])],
                  "bz": [2, r.choice([.9, .99, .999]), r.choice([.1, .5])]}[mk]
        bound = r.choice([2, 3, 5]) if r.random() < bounds else -1
        rows = []
        for i in range(dim):
            c = r.randint(-8, 8) / 2
            if prior:
                A = [(r.choice([1, 2, -1, .5]) if j == i else r.choice([0, 0, .5]) if j < i else 0) for j in range(nx)]
            else:
                A = [r.choice([0, 1, -1, 2, .5, 3]) for _ in range(nx)]
            if linear:
                Q, p = [0] * nx, 0
            else:
                Q = [r.choice([0, 0, .25, -.25, .5, 1]) * curve for _ in range(nx)]
                p = r.choice([0, 0, .5, -1, 1]) * curve
            rows.append("%s %s %s %s" % (h(c), hv(A), hv(Q), h(p)))
        self.lines.append("et %s %d %s %s%s %d %s %s %d %s %s" % (
            kind, dim, wk, W, mk, len(mp), hv(mp), h(bound), len(ids), " ".join(self.names[i] for i in ids), " ".join(rows)))

    def text(self):
        return "\n".join(self.lines)
