"""C04: Jacobian containers accumulate the chain rule exactly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv, hmat


def mat(r, a, b):
    return [[r.choice([0, 0, 1, -1, 2, -3, .5]) for _ in range(b)] for _ in range(a)]


def script(r, long):
    n = r.randint(1, 6)
    dims = [r.randint(1, 3) for _ in range(n)]
    act = [r.random() < .8 for _ in range(n)]
    bis = r.sample(range(n), n)
    scal = [r.choice([1, 1, 2, .5]) for _ in range(n)]
    out = ["var %d %d %d %s" % (dims[i], act[i], bis[i], h(scal[i])) for i in range(n)]
    bl, s = [], 0
    for b in range(n):
        s += dims[bis.index(b)]
        bl.append(s)
    blocks = "%d %s" % (n, " ".join(map(str, bl)))
    rows = {}
    mag = {}
    names = ["a", "b", "c"]
    for c in names:
        rows[c] = r.randint(1, 4) if c != "b" else rows["a"]
        mag[c] = 0
        out.append("new %s %d" % (c, rows[c]))
    for _ in range(r.randint(6, 14) * (3 if long else 1)):
        c = r.choice(names)
        x = r.random()
        if x < .45:
            v = r.randrange(n)
            rr, kk = rows[c], dims[v]
            if r.random() < .06:
                rr, kk = r.choice([(rr + 1, kk), (rr, kk + 1)])
            out.append("add %s %d %d %d %s" % (c, v, rr, kk, hmat(mat(r, rr, kk))))
            mag[c] = max(mag[c], 1)
        elif x < .62:
            d = r.choice([k for k in names if k != c])
            if r.random() < .7:
                same = [k for k in names if k != c and rows[k] == rows[c]]
                d = r.choice(same) if same else d
            out.append("merge %s %s" % (c, d))
            if rows[c] == rows[d]:
                mag[c] = max(mag[c], mag[d])
        elif x < .75:
            if mag[c] < 5:
                k = rows[c] + (r.random() < .06)
                m = r.randint(1, 4) if r.random() < .5 else rows[c]
                out.append("chain %s %d %d %s" % (c, m, k, hmat(mat(r, m, k))))
                if k == rows[c]:
                    rows[c] = m
                    mag[c] += 1
        elif x < .79:
            out.append("clear %s" % c)
            mag[c] = 0
        elif x < .83:
            rows[c] = r.randint(1, 4)
            out.append("reset %s %d" % (c, rows[c]))
            mag[c] = 0
        elif x < .86:
            out.append("act %d %d" % (r.randrange(n), r.randint(0, 1)))
        elif x < .9:
            d = r.choice([k for k in names if k != c])
            out.append("copy %s %s" % (c, d))
            rows[d], mag[d] = rows[c], mag[c]
        else:
            out.append("hess %s %d %d %s %s %s" % (c, r.randint(1, 2), rows[c], hv([r.randint(-3, 3) for _ in range(rows[c])]),
                                                hmat(mat(r, rows[c], rows[c])), blocks))
        if r.random() < .5:
            out.append("view %s %s" % (r.choice(names), blocks))
    for c in names:
        out.append("view %s %s" % (c, blocks))
        out.append("hess %s 1 %d %s %s %s" % (c, rows[c], hv([r.randint(-3, 3) for _ in range(rows[c])]), hmat(mat(r, rows[c], rows[c])), blocks))
    return "\n".join(out)


def merges(r, pairs, n):
    """containers over given sets of variables, added to one another"""
    d = r.randint(1, 2)
    dims = [d if r.random() < .85 else r.randint(1, 3) for _ in range(n)]
    bis = r.sample(range(n), n)
    out = ["var %d 1 %d %s" % (dims[i], bis[i], h(1)) for i in range(n)]
    ends, s = [], 0
    for b in range(n):
        s += dims[bis.index(b)]
        ends.append(s)
    blocks = "%d %s" % (n, " ".join(map(str, ends)))
    rows = r.randint(1, 2)
    for c in "ab":
        out.append("new %s %d" % (c, rows))
    for A, B in pairs:
        for c, S in (("a", A), ("b", B)):
            out.append("clear %s" % c)
            for v in range(n):
                if S >> v & 1:
                    out.append("add %s %d %d %d %s" % (c, v, rows, dims[v], hmat([[r.choice([1, -1, 2, -3, .5]) for _ in range(dims[v])] for _ in range(rows)])))
        out.append("merge a b")
        out.append("view a %s" % blocks)
    out.append("view b %s" % blocks)
    return "\n".join(out)


def run():
    c = Check("C04")
    c.build("jac")
    c.design("JacobianContainerMC", "JacobianContainerMCdeep.cfg" if c.thorough else None, timeout=800)
    S = [("short-%d" % k, script(c.rng, False)) for k in range(c.n(600, 8000))]
    S += [("long-%d" % k, script(c.rng, True)) for k in range(c.n(80, 1000))]
    every = [(a, b) for a in range(16) for b in range(16)]      # every pair of sets of four variables
    for rep in range(c.n(1, 8)):
        c.rng.shuffle(every)
        S += [("merge-%d-%d" % (rep, k), merges(c.rng, every[k:k + 8], 4)) for k in range(0, 256, 8)]
    S += [("merge5-%d" % k, merges(c.rng, [(c.rng.randrange(32), c.rng.randrange(32)) for _ in range(8)], 5)) for k in range(c.n(40, 600))]
    c.conform("JacobianTrace", "jac", S, timeout=800)
    c.assumptions += ["block indices of the variables in one container are distinct, as the optimizer numbers them"]
    c.finish()


main(run)
