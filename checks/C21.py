"""C21: marginalising a variable preserves the information on the rest."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv
from polygen import Problem


def script(r, scaling):
    p = Problem(r, inactive=0, linear=r.random() < .4, scaling=scaling, maxdv=4, maxdim=2 if r.random() < .5 else 3, bz=False,
                priors=1.0 if r.random() < .7 else .6)
    out = p.lines
    n = len(p.names)
    for i in range(n):
        if r.random() < .4:
            out.append("curve %s %s" % (p.names[i], h(r.choice([.25, .5, -.25]))))
    for k in range(r.randint(1, 3)):
        order = r.sample(range(n), n)
        ets = r.sample(range(p.nets), p.nets) if r.random() < .7 else [e for e in range(p.nets)]
        rm = r.randint(0, n - 1)
        tot = sum(p.dims)
        top = r.choice([0, 0, r.randint(0, tot)])
        out.append("marg p%d %d %d %d %d %s %d %s" % (k, rm, r.random() < .5, top, n, " ".join(map(str, order)), len(ets), " ".join(map(str, ets))))
        out.append("prior p%d" % k)
        for _ in range(r.randint(1, 3)):
            i = r.randrange(n)
            out.append("set %s %d %s" % (p.names[i], p.dims[i], hv(p.point(p.dims[i]))))
            if r.random() < .3:                 # inactive variables keep their values and appear in no Jacobian
                out.append("act %s %d" % (p.names[r.randrange(n)], r.random() < .4))
            out.append("prior p%d" % r.randint(0, k))
        for i in range(n):
            out.append("act %s 1" % p.names[i])
    return "\n".join(out)


def run():
    c = Check("C21")
    c.build("marg")
    c.design("MarginalMC", "MarginalMCdeep.cfg" if c.thorough else None, timeout=800)
    S = [("marg-%d" % k, script(c.rng, False)) for k in range(c.n(300, 4000))]
    S += [("scaled-%d" % k, script(c.rng, True)) for k in range(c.n(60, 800))]
    c.conform("MarginalTrace", "marg", S, timeout=800)
    c.finish()


main(run)
