"""C02: every linear solver and thread count solves the same normal equations."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv
from polygen import Problem

SOLVERS = ["block_cholesky", "block_spqr", "sparse_cholesky", "dense_qr", "sparse_qr"]


def script(r, kind):
    touch = kind != "loose"
    p = Problem(r, touch=touch, linear=r.random() < .4, robust=r.choice([0, .5]), spread=r.choice([1, 3]), priors=.6 if kind == "rank" else 1,
                maxdv=r.choice([2, 4, 6]), extra=r.choice([0, 2, 5, 9]))
    n = sum(d for d, a in zip(p.dims, p.active) if a)
    out = [p.text(), "number"]
    live = {}
    for s in range(r.randint(1, 3)):
        k = r.choice(SOLVERS if touch else ["block_cholesky", "block_spqr", "dense_qr"])
        live["s%d" % s] = k
        out.append("new s%d %s %d" % (s, k, r.randint(0, 1)))
    for _ in range(r.randint(2, 4)):
        if r.random() < .7:
            i = r.randrange(len(p.names))
            out.append("set %s %d %s" % (p.names[i], p.dims[i], hv(p.point(p.dims[i]))))
        if r.random() < .2:
            k = r.choice(list(live))
            out.append("new %s %s %d" % (k, live[k], r.randint(0, 1)))
        for s in r.sample(list(live), r.randint(1, len(live))):
            m = r.randint(0, 1)
            if r.random() < .25:               # an error term fails for a while
                k, how, t = r.randrange(p.nets), r.randint(1, 2), r.choice([0, 1, 2, 3, 4, 8])
                if how == 2:
                    out.append("errors %s %d %d" % (s, t, m))
                out.append("fails %d %d" % (k, how))
                out.append("%s %s %d %d" % ("errors" if how == 1 else "build", s, t, m))
                out.append("fails %d 0" % k)
            for _ in range(r.choice([1, 1, 2])):
                out.append("errors %s %d %d" % (s, r.choice([0, 1, 2, 3, 4, 8]), m))
            for _ in range(r.choice([1, 1, 2])):
                out.append("build %s %d %d" % (s, r.choice([0, 1, 2, 3, 4, 8]), m))
            for _ in range(r.randint(1, 4)):
                c = r.random()
                if c < .3:
                    out.append("cond %s 1 %s" % (s, h(r.choice([0, .5, 1, 3]))))
                elif c < .45:
                    out.append("cond %s %d %s" % (s, n, hv([r.choice([0, .5, 1, 2] if kind == "rank" else [.5, 1, 2]) for _ in range(n)])))
                elif c < .5 and n > 1:
                    out.append("cond %s %d %s" % (s, n + 1, hv([1] * (n + 1))))
                elif c < .62 and live[s] == "block_cholesky":
                    out.append("cov %s" % s)
                elif c < .7 and live[s] == "sparse_qr":
                    out.append("qr %s" % s)
                else:
                    if r.random() < .2:        # another state is looked at before the system is solved
                        i = r.randrange(len(p.names))
                        out += ["set %s %d %s" % (p.names[i], p.dims[i], hv(p.point(p.dims[i]))), "errors %s %d %d" % (s, r.choice([0, 2]), m)]
                    out.append("solve %s" % s)
    return "\n".join(out)


def run():
    c = Check("C02")
    c.build("backend")
    c.design("SolverBuildMC", "SolverBuildMCdeep.cfg" if c.thorough else None, timeout=800)
    S = []
    for kind, n in [("touch", 200), ("loose", 60), ("rank", 60)]:
        for k in range(c.n(n, n * 12)):
            S.append(("%s-%d" % (kind, k), script(c.rng, kind)))
    c.conform("LinearSystemTrace", "backend", S, timeout=800)
    c.assumptions += ["residuals are polynomials of degree two; weights, M-estimators, scalings and active sets vary",
                      "systems a double cannot tell from singular are exempt from the check of the solution",
                      "the sparse solvers are given error terms that depend on an active variable, as they demand"]
    c.finish()


main(run)
