"""C01: an optimization run never raises the cost and reports what it did."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv
from polygen import Problem

SOLVERS = ["block_cholesky", "block_spqr", "sparse_cholesky", "dense_qr", "sparse_qr"]


def opt(r, pol, fails=0.15, solvers=SOLVERS):
    k = r.choice(solvers)
    if pol == "lm" and k == "sparse_qr":
        k = r.choice([x for x in solvers if x != k])
    maxit = r.choice([0, 1, 2, 3, 5, 8, 20])
    f = sorted(r.sample(range(6), r.randint(1, 3))) if r.random() < fails else []
    return "opt %s %s %s %d %s %s %d %d %d %s" % (
        pol, h(r.choice([-1, 1e-6, .1, 10])), k, maxit, h(r.choice([0, 1e-3, 1e-8, 1])), h(r.choice([0, 1e-3, 1e-8, .1])),
        r.choice([0, 1, 2, 3, 8]), r.randint(0, 1), len(f), " ".join(map(str, f)))


def sets(r, p, spread=6):
    i = r.randrange(len(p.names))
    return "set %s %d %s" % (p.names[i], p.dims[i], hv(p.point(p.dims[i], spread)))


def script(r, kind):
    pol = kind.split("-")[0]
    linear = "linear" in kind
    touch = r.random() < .6     # the sparse solvers want an active variable in every error term
    p = Problem(r, touch=touch, linear=linear, robust=0 if linear else .4, bounds=.3 if "bound" in kind else 0, spread=2 if "bound" in kind else r.choice([1, 3, 6]),
                curve=1 if pol != "gn" else .25)
    out = [p.text()]
    for _ in range(2):
        out.append(opt(r, pol, 0.4 if "fail" in kind else 0, SOLVERS if touch else [k for k in SOLVERS if "sparse" not in k]))
        if r.random() < .7:
            out.append(sets(r, p, 2 if "bound" in kind else 6))
    return "\n".join(out)


def script1(r, how):
    linear = how == "gn" or r.random() < .2
    p = Problem(r, linear=linear, robust=0 if linear else .4, spread=r.choice([1, 3, 6]), scaling=False)
    act = [p.names[i] for i in range(len(p.names)) if p.active[i]]
    # marginalised variables must not share an error term
    marg = []
    if how != "dl" and len(act) > 1 and r.random() < .6:
        for a in r.sample(act, r.randint(1, len(act) - 1)):
            if not any(a in {p.names[i] for i in ids} and b in {p.names[i] for i in ids} for b in marg for ids in p.ids):
                marg.append(a)
    out = [p.text()]
    for _ in range(2):
        out.append("opt1 %s %s %d %s %s %d %s %d %s" % (how, r.choice(["cholmod", "dense", "spqr"]), r.choice([1, 2, 3, 5, 10, 20]),
                   h(r.choice([0, 1e-3, 1e-8])), h(r.choice([0, 1e-3, 1e-8])), 1 if marg else 0, h(r.choice([-1, -1.001, -2, 1e-6, 1])), len(marg), " ".join(marg)))
        out.append(sets(r, p))
    return "\n".join(out)


# a steepest descent step fails, and the Gauss-Newton step of the same system follows
STALE = """dv d0 0x1p+0 1 1 -0x1p-2
dv d1 0x1p-1 1 2 -0x1p+0 0x1p-2
dv d2 0x1p-1 0 2 0x1.8000000000000p-1 -0x1p+0
et F 2 S 0x1p+1 0x0.0p+0 -0x1p+0 0x1p+0 none 0  -0x1p+0 2 d0 d2 -0x1.8000000000000p+0 0x1p+0 0x1p+1 -0x1p+0 0x1p-1 0x0.0p+0 0x0.0p+0 0x0.0p+0 0x0.0p+0 0x1p-1 0x1p+0 -0x1p+0 -0x1p-2 -0x1p-2 0x1p-2 0x1p-1
et D 1 I gm 1 0x1p+2 -0x1p+0 3 d1 d0 d2 0x1p+0 0x1p-1 0x1p-1 0x1p+1 0x1p+0 0x1p+0 0x1p+0 0x0.0p+0 0x0.0p+0 0x1p-1 0x0.0p+0 -0x1p+0
et D 2 I none 0  -0x1p+0 1 d1 -0x1p+0 0x1p-1 0x0.0p+0 -0x1p-2 0x1p-2 -0x1p+0 0x1.4000000000000p+1 0x1p-1 0x1p-1 0x1p+0 0x1p+0 0x1p+0
et D 1 I cauchy 1 0x1p-1 -0x1p+0 2 d2 d1 0x1p-1 0x1p-1 0x1p+1 0x0.0p+0 0x1.8000000000000p+1 -0x1p-2 0x1p-2 0x1p-2 0x1p-1 0x0.0p+0
et D 1 I none 0  -0x1p+0 1 d0 0x1.8000000000000p+1 -0x1p+0 -0x1p-2 -0x1p+0
opt dl 0x1.4000000000000p+3 %s 20 0x0.0p+0 0x0.0p+0 3 0 0 """


def run():
    c = Check("C01")
    c.build("backend")
    c.design("OptimizerMC", "OptimizerMCdeep.cfg" if c.thorough else None, timeout=800)
    S = []
    for kind, n in [("lm", 60), ("lm-bound", 30), ("lm-fail", 20), ("dl", 50), ("dl-bound", 30), ("dl-fail", 20), ("gn", 20), ("gn-linear", 30), ("gn-fail", 10),
                    ("lm-linear", 10), ("dl-linear", 10)]:
        for k in range(c.n(n, n * 10)):
            S.append(("%s-%d" % (kind, k), script(c.rng, kind)))
    for how, n in [("lm", 40), ("gn", 20), ("dl", 30)]:
        for k in range(c.n(n, n * 10)):
            S.append(("old-%s-%d" % (how, k), script1(c.rng, how)))
    S += [("stale-%s" % k, STALE % k) for k in SOLVERS]
    c.conform("OptimizerTrace", "backend", S)
    c.assumptions += ["residuals are polynomials of degree two, weights and M-estimators vary",
                      "linear solver failures are injected by a solver that refuses chosen solves",
                      "Gauss-Newton in Optimizer2 has no cost check, so only its book-keeping is checked"]
    c.finish()


main(run)
