"""C03: weighted errors, robust costs and Hessian blocks follow their definition."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv, hmat
from polygen import Problem, spd


def mest(r):
    k = r.choice(["none", "gm", "cauchy", "huber", "bz", "clear"])
    p = {"gm": [r.choice([1, 4, 25, .25])], "cauchy": [r.choice([.5, 1, 4, 9])], "huber": [r.choice([.5, 1, 3])],
         "bz": [2, r.choice([.9, .99, .999]), r.choice([.1, .5])]}.get(k, [])
    return "%s %d %s" % (k, len(p), hv(p))


def script(r, kind):
    p = Problem(r, robust=.7, inactive=.2, spread=r.choice([1, 2, 3, 8]), maxdv=4, extra=r.choice([1, 3]))
    out = [p.text()]
    for _ in range(r.randint(3, 7)):
        i = r.randrange(p.nets)
        x = r.random()
        if x < .3:
            out.append("setmest %d %s" % (i, mest(r)))
        elif x < .5:
            d = p.etdims[i]
            k = r.choice("RSV")
            W = spd(r, d) if k != "S" else [[(r.choice([1, 2, .5]) if a == b else r.choice([0, 1, -1]) if b < a else 0) for b in range(d)] for a in range(d)]
            out.append("setw %d %s %s" % (i, k, hmat(W)))
        if x > .4:
            j = r.randrange(len(p.names))
            out.append("set %s %d %s" % (p.names[j], p.dims[j], hv(p.point(p.dims[j], r.choice([1, 3, 10])))))
        out.append("eval %d" % i)
        if r.random() < .3:
            out.append("eval %d" % r.randrange(p.nets))
    return "\n".join(out)


def weights(r):
    out = []
    for _ in range(4):
        k = r.choice(["none", "gm", "cauchy", "huber", "bz"])
        g = 10 ** r.uniform(-3, 3)
        p = {"none": [], "gm": [g], "cauchy": [g], "huber": [g],
             "bz": [r.choice([1, 2, 3, 4, 6, 8, 10, 20]), r.choice([.5, .9, .99, .999, .99999]), r.choice([.001, .1, .5, .9])]}[k]
        e = [0, 1e-300, 1e-9, 1, 1e4] + [10 ** r.uniform(-6, 6) for _ in range(6)]
        if k == "huber":
            e += [g * g, g * g * (1 + 1e-12), g * g * (1 - 1e-12)]
        if k == "bz":
            e = [x for x in e if x < 600] + [r.uniform(0, 60) for _ in range(6)] + [1000, 1e8]
        out.append("weights %s %d %s %d %s" % (k, len(p), hv(p), len(e), hv(e)))
    return "\n".join(out)


def run():
    c = Check("C03")
    c.build("backend")
    c.design("MEstimatorMC", "MEstimatorMCdeep.cfg" if c.thorough else None, timeout=800)
    S = [("term-%d" % k, script(c.rng, 0)) for k in range(c.n(250, 4000))]
    S += [("weights-%d" % k, weights(c.rng)) for k in range(c.n(60, 1000))]
    c.conform("ErrorTermTrace", "backend", S, timeout=800)
    c.assumptions += ["residuals are polynomials of degree two in up to twelve coordinates",
                      "quantiles of the chi-square distribution are checked for even degrees of freedom; for odd ones only the weight at the quantile"]
    c.finish()


main(run)
