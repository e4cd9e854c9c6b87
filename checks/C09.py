"""C09: poses, rotations and their composition form the group they claim."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv, hmat
from poses import scripts

PI = math.pi


def unitv(r, n=3):
    while True:
        v = [r.gauss(0, 1) for _ in range(n)]
        m = math.sqrt(sum(x * x for x in v))
        if m > 1e-3:
            return [x / m for x in v]


def axis(r):
    x = r.random()
    if x < .3:
        a = [0., 0., 0.]
        a[r.randrange(3)] = r.choice([-1., 1.])
        return a
    if x < .45:
        a = unitv(r)
        a[r.randrange(3)] = 0.
        m = math.sqrt(sum(t * t for t in a))
        return [t / m for t in a] if m > 1e-3 else [1., 0., 0.]
    return unitv(r)


def angle(r, top=PI):
    """angles at and around the branch points"""
    c = r.random()
    if c < .45:
        return r.uniform(0, top)
    base = r.choice([0, 0, top, top, PI / 2, top / 2, 2e-4])
    d = r.choice([0, 1e-300, 1e-160, 1e-20, 1e-15, 3e-13, 1e-12, 1e-9, 1e-7, 1e-5, 1.2e-4, 1.3e-4, 1e-3, .02]) * r.choice([-1, 1])
    return min(max(base + d, 0), top)


def quat(r):
    a, t = axis(r), angle(r) * r.choice([1, 1, -1])
    q = [x * math.sin(t / 2) for x in a] + [math.cos(t / 2)]
    if r.random() < .3:
        q = [-x for x in q]
    if r.random() < .15:
        q = r.choice([[0, 0, 0, 1.], [0, 0, 0, -1.], [1., 0, 0, 0], [0, -1., 0, 0], [0, 0, 1., 0], [.5, .5, .5, .5], [.5, -.5, .5, -.5]])
    for _ in range(2):
        m = math.sqrt(sum(x * x for x in q))
        q = [x / m for x in q]
    return q


def rvec(r, top=PI):
    a, t = axis(r), angle(r, top)
    return [t * x for x in a]


def qmat(q):
    x, y, z, w = q
    return [[x * x - y * y - z * z + w * w, 2 * (x * y + z * w), 2 * (x * z - y * w)],
            [2 * (x * y - z * w), -x * x + y * y - z * z + w * w, 2 * (y * z + x * w)],
            [2 * (x * z + y * w), 2 * (y * z - x * w), -x * x - y * y + z * z + w * w]]


def rot(r):
    return qmat(quat(r))


def vec(r, n=3):
    s = r.choice([1, 1, 1, 10, 1e-3, 100])
    return [s * r.choice([0, 1, -1, r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2)]) for _ in range(n)]


def nz(r, n):
    while True:
        v = vec(r, n)
        if max(map(abs, v)) > 1e-4:
            return v


def col(v):
    return [[x] for x in v]


def M(m):
    return "%d %d %s" % (len(m), len(m[0]), hmat(m))


def args(*ms):
    return "%d %s" % (len(ms), " ".join(M(m) for m in ms))


def tmat(C, t):
    return [C[i] + [t[i]] for i in range(3)] + [[0., 0., 0., 1.]]


def cov(r, n):
    if r.random() < .1:
        return [[0.] * n for _ in range(n)]
    A = [[r.choice([0, r.uniform(-1, 1), r.uniform(-1, 1)]) for _ in range(n)] for _ in range(n)]
    s = r.choice([1, 1, 1e-2, 10])
    return [[s * sum(A[i][k] * A[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def eangles(r):
    a = lambda: r.choice([r.uniform(-PI, PI), r.uniform(-PI, PI), 0., PI / 2, -PI / 2, PI, r.uniform(-1e-6, 1e-6)])
    p = r.choice([r.uniform(-1.55, 1.55), 0., r.uniform(-1e-8, 1e-8), r.choice([-1, 1]) * (PI / 2 - r.choice([1e-2, 1e-4, 1e-6]))])
    return [a(), p, a()]


def function(r):
    S = lambda x: [[float(x)]]
    f = r.choice(sorted(FUN))
    return "f %s %s" % (f, FUN[f](r, S))


def points(r, noisy, unit):
    n = r.choice([3, 3, 4, 5, 8])
    C, t = rot(r), vec(r)
    while True:
        P1 = [unitv(r) if unit else [r.uniform(-2, 2) for _ in range(3)] for _ in range(n)]
        a = [P1[1][i] - P1[0][i] for i in range(3)]
        b = [P1[2][i] - P1[0][i] for i in range(3)]
        w = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        if sum(x * x for x in w) > .05:
            break
    if not noisy and r.random() < .2:       # in a plane through the origin
        P1 = [[p[0], p[1], 0.] for p in P1]
        if unit:
            P1 = [[x / math.hypot(*p) for x in p] if math.hypot(*p) > .1 else [1., 0., 0.] for p in P1]
    P0 = [[sum(C[i][k] * p[k] for k in range(3)) + (0 if unit else t[i]) for i in range(3)] for p in P1]
    if noisy:
        e = r.choice([1e-6, 1e-3, .05, .5])
        if r.random() < .35:                # the best orthogonal matrix is then a reflection
            k, m = r.randrange(3), r.choice([-1, -1, -.3, 0, .1])
            P0 = [[x * m if i == k else x for i, x in enumerate(p)] for p in P0]
        P0 = [[x + r.gauss(0, e) for x in p] for p in P0]
        if unit:
            P0 = [[x / math.sqrt(sum(y * y for y in p)) for x in p] for p in P0]
    T = lambda P: [list(z) for z in zip(*P)]
    return T(P0), T(P1)


def rodvec(r):
    a = axis(r)
    s = math.tan(min(angle(r), PI - .05) / 2)
    return [s * x for x in a]


def small(r):
    return [r.uniform(-3, 3) for _ in range(3)]


FUN = dict(
    q2r=lambda r, S: args(col(quat(r) if r.random() < .97 else [2 * x for x in quat(r)])),
    r2q=lambda r, S: args(rot(r)), R2aa=lambda r, S: args(rot(r)), rv_R2p=lambda r, S: args(rot(r)),
    a2q=lambda r, S: args(col(rvec(r, r.choice([PI, 2 * PI, 20])))),
    q2a=lambda r, S: args(col(quat(r))),
    qplus=lambda r, S: args(col(quat(r)), col(quat(r))),
    qoplus=lambda r, S: args(col(quat(r)), col(quat(r))),
    qinv=lambda r, S: args(col(quat(r))),
    qrot=lambda r, S: args(col(quat(r)), col(vec(r))),
    qslerp=lambda r, S: args(col(quat(r)), col(quat(r)), S(r.choice([0, 1, -.5, 1.5, r.random(), r.random(), .5, 1e-9, 1 - 1e-9]))),
    lerp=lambda r, S: (lambda n: args(col(vec(r, n)), col(vec(r, n)), S(r.choice([0, 1, -.5, 1.5, r.random(), r.random()]))))(r.randint(1, 5)),
    qjac=lambda r, S: args(col(vec(r, 4))), qS=lambda r, S: args(col(vec(r, 4))),
    qupd=lambda r, S: args(col(quat(r)), col(rvec(r, r.choice([PI, 6])))),
    expd=lambda r, S: args(col(rvec(r, 6))), logd=lambda r, S: args(col(rvec(r, 5))), rv_invS=lambda r, S: args(col(rvec(r, 5))),
    qexpj=lambda r, S: args(col(rvec(r, 6))),
    qlogj=lambda r, S: args(col([-x for x in q] if q[3] < -.8 else q) if (q := quat(r)) else ""),
    rx=lambda r, S: args(S(r.uniform(-10, 10))), ry=lambda r, S: args(S(r.uniform(-10, 10))), rz=lambda r, S: args(S(r.uniform(-10, 10))),
    rph2R=lambda r, S: args(col(eangles(r))), rph2C=lambda r, S: args(col(eangles(r))),
    cross=lambda r, S: args(col(vec(r))),
    aa2R=lambda r, S: args(col(rvec(r, 7))),
    aa2R4=lambda r, S: args(S(r.choice([-1, 1]) * angle(r, 7)), col(axis(r))),
    amod=lambda r, S: args(S(r.choice([r.uniform(-20, 20), PI * r.randint(-5, 5), PI * r.randint(-5, 5) + 1e-9, r.uniform(-1e4, 1e4)]))),
    deg=lambda r, S: args(S(r.uniform(-400, 400))),
    rt2T=lambda r, S: args(rot(r), col(vec(r))),
    boxp=lambda r, S: args(col(vec(r, 6))), boxm=lambda r, S: args(col(vec(r, 4))),
    boxt=lambda r, S: args(tmat(rot(r), vec(r))), Tinv=lambda r, S: args(tmat(rot(r), vec(r))),
    e2T=lambda r, S: args(col(vec(r) + eangles(r))),
    Tjac=lambda r, S: args(tmat(rot(r), vec(r)), col(vec(r, 4))), Tijac=lambda r, S: args(tmat(rot(r), vec(r)), col(vec(r, 4))),
    hom=lambda r, S: args(col(vec(r))),
    euc=lambda r, S: args(col(nz(r, 3) + [r.choice([-1, 1]) * r.uniform(.1, 5)])),
    homc=lambda r, S: args([vec(r, 3) for _ in range(2)]),
    eucc=lambda r, S: (lambda n: args([vec(r, n) for _ in range(r.randint(1, 3))] + [[r.choice([-1, 1]) * r.uniform(.1, 5) for _ in range(n)]]))(r.randint(1, 4)),
    norm=lambda r, S: args(col(nz(r, 4))), hplus=lambda r, S: args(col(vec(r, 4))),
    svd=lambda r, S: (lambda p: args(p[0], p[1]))(points(r, r.random() < .5, False)),
    qmeth=lambda r, S: (lambda p: args(p[0], p[1], col([r.uniform(.2, 3) for _ in p[0][0]])))(points(r, r.random() < .5, True)),
    qmeth1=lambda r, S: (lambda p: args(p[0], p[1]))(points(r, r.random() < .5, True)),
    rod_p2R=lambda r, S: args(col(rodvec(r))), rv_p2R=lambda r, S: args(col(rvec(r, 5))),
    rod_av=lambda r, S: args(col(rodvec(r)), col(small(r))), rv_av=lambda r, S: args(col(rvec(r, 5)), col(small(r))),
)
for k in ("ypr", "zyx", "zxy"):
    FUN[k + "_p2R"] = lambda r, S: args(col(eangles(r)))
    FUN[k + "_av"] = lambda r, S: args(col(eangles(r)), col(small(r)))
HEAVY = [f for f in FUN if f.endswith("_av")]


def eulermat(r, kind):
    p = eangles(r)
    cz, sz, cy, sy, cx, sx = (math.cos(p[0]), math.sin(p[0]), math.cos(p[1]), math.sin(p[1]), math.cos(p[2]), math.sin(p[2]))
    if kind == "zxy":   # Rz(p0) Rx(p1) Ry(p2)
        return [[cz * cx - sz * sy * sx, -sz * cy, cz * sx + sz * sy * cx], [sz * cx + cz * sy * sx, cz * cy, sz * sx - cz * sy * cx], [-cy * sx, sy, cy * cx]]
    return [[cz * cy, -sz * cx + cz * sy * sx, sz * sx + cz * sy * cx], [sz * cy, cz * cx + sz * sy * sx, -cz * sx + sz * sy * cx], [-sy, cy * sx, cy * cx]]


for k in ("ypr", "zyx", "zxy"):
    FUN[k + "_R2p"] = lambda r, S, k=k: args(eulermat(r, k))
FUN["R2rph"] = FUN["C2rph"] = lambda r, S: args(eulermat(r, "ypr"))
FUN["T2e"] = lambda r, S: args(tmat(eulermat(r, "ypr"), vec(r)))


def rodmat(r):
    a, t = axis(r), min(angle(r), PI - .05)
    q = [x * math.sin(t / 2) for x in a] + [math.cos(t / 2)]
    return qmat(q)


FUN["rod_R2p"] = lambda r, S: args(rodmat(r))


# ------------------------------------------------------------------ registers
class Regs:
    def __init__(self, r):
        self.r, self.k, self.out = r, {}, []

    def set(self, i, k):
        r = self.r
        q, t, C = col(quat(r)), col(vec(r)), None
        if r.random() < .2:
            q = col([x * r.uniform(.3, 3) for x in quat(r)])
        if k == "T":
            how = r.choice(["mat", "qt", "qt", "id", "set"])
            a = args(tmat(rot(r), vec(r))) if how in ("mat", "set") else args(q, t)
        elif k == "U":
            how = r.choice(["mat", "matU", "matd", "qt", "qtU", "qtU", "qtU", "qtd", "TU", "Td", "none"])
            two = col([r.random(), r.random()])
            a = {"mat": lambda: args(tmat(rot(r), vec(r))), "matU": lambda: args(tmat(rot(r), vec(r)), cov(r, 6)),
                 "matd": lambda: args(tmat(rot(r), vec(r)), two), "qt": lambda: args(q, t), "qtU": lambda: args(q, t, cov(r, 6)),
                 "TU": lambda: args(q, t, cov(r, 6)), "qtd": lambda: args(q, t, two), "Td": lambda: args(q, t, two), "none": lambda: "0"}[how]()
        elif k == "h":
            how = r.choice(["3", "4", "as3", "as4", "set", "set", "none"])
            p = nz(r, 3 if "3" in how else 4 if "4" in how else r.choice([3, 4]))
            a = "0" if how == "none" else args(col(p))
        elif k == "p":
            how = r.choice(["3", "4", "3U", "4U", "4U", "hU", "4av", "hav"])
            p = nz(r, 3) if "3" in how else unitv(r, 4) if "av" in how else nz(r, 4)
            a = args(col(p), cov(r, 3 if how in ("3U", "4av", "hav") else 4)) if len(how) > 1 else args(col(p))
        elif k == "v":
            how, a = "new", args(col(nz(r, 3)), cov(r, 3)) if r.random() < .85 else args(col(nz(r, 3)))
        else:
            how, a = "new", args([[r.choice([-1, 1]) * r.uniform(.2, 3)]], [[r.random()]])
        self.k[i] = k
        self.out.append("set %d %s %s %s" % (i, k, how, a))

    def op(self, f, dst, a, b=None, x="0", k=None):
        self.out.append("reg %s %d %d %d %s" % (f, dst, a, a if b is None else b, x))
        if k:
            self.k[dst] = k

    def pick(self, kinds):
        c = [i for i, k in self.k.items() if k in kinds]
        return self.r.choice(c) if c else None

    def step(self):
        r = self.r
        a = self.pick("TUhpvs")
        k = self.k[a]
        d = r.randrange(8)
        x = r.random()
        if k in "TU":
            b = self.pick("TU" if r.random() < .6 else "hp") if x < .5 else None
            if b is not None:
                kb = self.k[b]
                virt = kb in "Up" and r.random() < .3
                K = ("U" if "U" in (k, kb) else "T") if kb in "TU" else ("p" if k == "U" or kb == "p" else "h")
                self.op("mulv" if virt else "mul", d, a, b, k=K)
            elif x < .62:
                self.op("inv", d, a, k=k)
            elif x < .7:
                self.op("oplus", a, a, x=args(col(vec(r) + rvec(r, r.choice([PI, 1e-3])))))
            elif x < .8:
                b = self.pick("TU")
                if r.random() < .5:
                    self.op("slerp", d, a, b, x=args([[r.choice([0., 1., -.2, 1.3, r.random(), r.random(), .5])]]), k="T")
                else:
                    s0, s1 = r.uniform(-5, 5), r.uniform(-5, 5)
                    if abs(s0 - s1) > 1e-3:
                        self.op("interp", d, a, b, x=args(col([s0, s1, r.choice([s0, s1, min(s0, s1) - 1, max(s0, s1) + 1, s0 + r.random() * (s1 - s0), s0 + r.random() * (s1 - s0)])])), k="T")
            elif x < .85 and k == "U":
                self.op(r.choice(["setU", "setUO"]), a, a, x=args(cov(r, 6)))
            elif x < .88 and k == "U":
                self.op("cert", d, a, k="T")
            elif x < .92 and self.pick("v") is not None:
                self.op("rotate", d, a, self.pick("v"), k="v")
            else:
                self.op("view", d, a, x=args(col(vec(r)), col(vec(r, 4))))
        elif k in "hp":
            if x < .4:
                b = self.pick("hp")
                kb = self.k[b]
                self.op(r.choice(["add", "sub"]) + ("v" if kb == "p" and r.random() < .3 else ""), d, a, b, k="p" if "p" in (k, kb) else "h")
            elif x < .5:
                self.op("oplus", a, a, x=args(col(rvec(r))))
            elif x < .6:
                self.op("normalize", a, a)
            elif x < .75:
                if k == "h":
                    f = r.choice(["tovec", "topoint", "scale", "zero"])
                    self.op(f, a, a, x=args([[r.uniform(.5, 2)]]))
                else:
                    self.op(r.choice(["uav", "setUO", "setU"]) if r.random() < .7 else "uav", a, a, x=args(cov(r, 3)))
                    if self.out[-1].startswith("reg setU "):
                        self.out[-1] = "reg setU %d %d %d %s" % (a, a, a, args(cov(r, 4)))
            else:
                self.op("view", d, a)
        elif k == "v":
            y = [lambda: self.op(r.choice(["add", "sub"]), d, a, self.pick("v"), k="v"),
                 lambda: self.op("mul", d, a, self.pick("s"), k="v"),
                 lambda: self.op("times", d, a, x=args([[r.uniform(-3, 3)]]), k="v"),
                 lambda: self.op("normalized", d, a, k="v"),
                 lambda: self.op("normalize", a, a),
                 lambda: self.op("dot", d, a, self.pick("v"), k="s"),
                 lambda: self.op("dotc", d, a, x=args(col(vec(r))), k="s"),
                 lambda: self.op(r.choice(["addc", "subc"]), d, a, x=args(col(vec(r))), k="v"),
                 lambda: self.op("lin", d, a, x=args([vec(r) for _ in range(3)]), k="v"),
                 lambda: self.op("setU", a, a, x=args(cov(r, 3)))]
            c = r.choice(y)
            if self.pick("s") is None and c is y[1]:
                c = y[0]
            c()
        else:
            y = [lambda: self.op(r.choice(["add", "sub", "mul", "div", "dot"]), d, a, self.pick("s"), k="s"),
                 lambda: self.op("mul", d, a, self.pick("v"), k="v"),
                 lambda: self.op(r.choice(["addc", "subc", "times", "divc"]), d, a, x=args([[r.choice([-1, 1]) * r.uniform(.3, 3)]]), k="s"),
                 lambda: self.op("svec", d, a, x=args(col(vec(r))), k="v")]
            c = r.choice(y)
            if self.pick("v") is None and c is y[1]:
                c = y[0]
            c()
        # keep the numbers moderate
        for i in list(self.k):
            if r.random() < .08:
                self.set(i, r.choice("TUUhppvs"))


def regs(r, n):
    g = Regs(r)
    kinds = list("TUUhpv") + [r.choice("TUps"), r.choice("hps")]
    for i, k in enumerate(kinds):
        g.set(i, k)
    for _ in range(n):
        g.step()
    return "\n".join(g.out)


def chain(r, n):
    """long compositions keep rotations orthonormal"""
    g = Regs(r)
    g.set(0, "U")
    g.set(1, "T")
    for _ in range(n):
        g.op("mul", 0, 0, 1, k="U")
        if r.random() < .3:
            g.op("oplus", 0, 0, x=args(col([r.uniform(-1, 1) for _ in range(3)] + rvec(r))))
        if r.random() < .1:
            g.op("inv", 0, 0, k="U")
            g.op("setU", 0, 0, x=args(cov(r, 6)))
        if r.random() < .1:
            g.set(1, "T")
    g.op("view", 0, 0, x=args(col(vec(r)), col(vec(r, 4))))
    return "\n".join(g.out)


def functions(r, n):
    names = sorted(FUN)
    out = []
    for _ in range(n):
        f = r.choice(names)
        if f in HEAVY and r.random() < .5:
            f = r.choice(names)
        out.append("f %s %s" % (f, FUN[f](r, lambda x: [[float(x)]])))
    return "\n".join(out)


def run():
    c = Check("C09")
    c.build("kin", "bspl")
    c.design("KinLawsMC", "KinLawsMCdeep.cfg" if c.thorough else None, timeout=800)
    r = c.rng
    S = [("f-%d" % k, functions(r, 60)) for k in range(c.n(90, 1500))]
    S += [("regs-%d" % k, regs(r, 30)) for k in range(c.n(120, 2000))]
    S += [("chain-%d" % k, chain(r, c.n(60, 300))) for k in range(c.n(8, 60))]
    c.conform("KinTrace", "kin", S, timeout=800)
    c.conform("PoseTrace", "bspl", scripts(r, c.n(150, 2500), findings=True), timeout=800)
    c.assumptions += ["Euler angles are judged up to 1e-6 from their singularity, Rodrigues vectors up to 0.05 rad from pi",
                      "covariances are those of the first-order propagation"]
    c.finish()


if __name__ == "__main__":
    main(run)
