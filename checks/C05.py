"""C05: expressions evaluate to their formula and differentiate correctly."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv, hmat
from exprgen import DIM, Graph, rotation, transformation, unit, vec
from poses import scripts


def graph(r, n):
    g = Graph(r)
    for k in r.sample(["scalar", "point", "rot", "rot", "mrot", "mpoint", "dir", "hom", "mhom", "vec1", "vec3", "vec4", "mvec3", "matb", "scalar"], r.randint(3, 6)):
        g.dv(k)
    made, tries = 0, 0
    while made < n and tries < 20 * n:
        made += g.grow() is not None
        tries += 1
    return g


def script(r, n, evals):
    g = graph(r, n)
    nodes = [i + 1 for i in range(len(g.kinds))]
    for k in range(evals):
        if k:
            for _ in range(r.randint(0, 2)):
                g.step()
        tail = [i for i in nodes if g.kinds[i - 1] in "serth"]
        i = r.choice(tail[len(tail) // 2:])
        rows = r.randint(1, 3)
        kd = {"s": 1, "e": 3, "r": 3, "t": 6, "h": 4}[g.kinds[i - 1]]
        if g.kinds[i - 1] == "e" and r.random() < .2:
            g.out.append("err %d %s" % (i, hv(vec(r, 3))))
        else:
            g.out.append("eval %d %d %s" % (i, rows, hmat([vec(r, kd) for _ in range(rows)])))
    return "\n".join(g.out)


def walk(r):
    """Design variables alone: updates, reversals, differences."""
    g = Graph(r)
    for k in r.sample(["scalar", "point", "rot", "mrot", "mpoint", "dir", "hom", "mhom", "vec1", "vec3", "mvec3", "matb"], 4):
        g.dv(k)
    for _ in range(16):
        g.step()
    return "\n".join(g.out)


def prior(r):
    """A pose close to, or far from, its prior."""
    g = Graph(r)
    q = unit(r)
    t = vec(r, 3, 3)
    g.out += ["dv %s %s" % (r.choice(["rot", "mrot"]), hv(q)), "dv point " + hv(t), "node t_make 1 2"]
    s = r.choice([1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, .01, .1, .5, 1])
    a = vec(r, 3, s)
    n = math.sqrt(sum(x * x for x in a)) or 1
    # the prior: the pose turned by a
    d = [x / n * math.sin(n / 2) for x in a] + [math.cos(n / 2)]
    x, y, z, w = q
    p = d
    q2 = [p[0] * w + p[3] * x - p[1] * z + p[2] * y, p[0] * z + p[1] * w - p[2] * x + p[3] * y,
          p[1] * x - p[0] * y + p[2] * w + p[3] * z, p[3] * w - p[0] * x - p[1] * y - p[2] * z]
    m = math.sqrt(sum(v * v for v in q2))
    x, y, z, w = [v / m for v in q2]
    C = [[x * x - y * y - z * z + w * w, 2 * (x * y + z * w), 2 * (x * z - y * w)],
         [2 * (x * y - z * w), -x * x + y * y - z * z + w * w, 2 * (y * z + x * w)],
         [2 * (x * z + y * w), 2 * (y * z - x * w), -x * x - y * y + z * z + w * w]]
    u = [t[k] + a[k] for k in range(3)]
    T = [C[0] + [u[0]], C[1] + [u[1]], C[2] + [u[2]], [0, 0, 0, 1]]
    g.out.append("err 3 " + hmat(T))
    return "\n".join(g.out)


def run():
    c = Check("C05")
    c.build("expr", "bspl")
    c.design("RatCheck", "RatCheckdeep.cfg" if c.thorough else None, timeout=800)
    S = [("graph-%d" % k, script(c.rng, c.rng.randint(4, 14), 3)) for k in range(c.n(160, 2500))]
    S += [("deep-%d" % k, script(c.rng, 26, 2)) for k in range(c.n(30, 500))]
    S += [("walk-%d" % k, walk(c.rng)) for k in range(c.n(60, 800))]
    S += [("prior-%d" % k, prior(c.rng)) for k in range(c.n(60, 800))]
    c.conform("ExprTrace", "expr", S, timeout=850)
    c.conform("PoseTrace", "bspl", scripts(c.rng, c.n(40, 800)), timeout=850)
    c.assumptions += [
        "a node's value is evaluated before its Jacobians, as every error term does: nodes keep the values of their operands in between",
        "divisors, fourth homogeneous coordinates and rotation parameters are evaluated away from their singularities",
        "double arithmetic: values and Jacobians agree to 2^-31 of the largest number on the way"]
    c.finish()


main(run)
