"""C06: optimization problems hold exactly what was added."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import BUILD, Check, main


def lst(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))


def perm(r, n, bad=.15):
    p = list(range(n))
    r.shuffle(p)
    x = r.random()
    if x < bad and n:
        k = r.random()
        if k < .3:
            p.append(n)
        elif k < .6:
            p = p[:-1]
        else:
            p[r.randrange(n)] = n + r.randint(0, 2)
    return p


def pool(r, nd, ne, dup):
    out = ["dv %d %d" % (r.randint(1, 4), r.random() < .8) for _ in range(nd)]
    ets = []
    for _ in range(ne):
        k = r.randint(1, min(3, nd))
        ets.append([r.randrange(nd) for _ in range(k)] if dup else r.sample(range(nd), k))
        out.append("et %s" % lst(ets[-1]))
    return out, ets


def plain(r, long):
    """A plain problem and a simple one; what a problem owns dies with it and is not used again."""
    nd, ne = r.randint(2, 6), r.randint(2, 8)
    out, ets = pool(r, nd, ne, True)
    mode = r.choice([0, 2])                  # who keeps what the problem does not own
    own = {"d": [r.random() < .35 for _ in range(nd)], "e": [r.random() < .5 for _ in range(ne)]}
    here = {"P": ([], []), "S": ([], [])}
    deadd, deade = set(), set()

    def bury(p, ds, es):
        for d in ds:
            if own["d"][d]:
                deadd.add(d)
        for e in es:
            if own["e"][e]:
                deade.add(e)
    for _ in range(r.randint(8, 20) * (3 if long else 1)):
        x = r.random()
        p = "P" if r.random() < .85 else "S"
        ds, es = here[p]
        live = [d for d in range(nd) if d not in deadd]
        if not live:
            break
        if x < .35:
            d = r.choice(live)
            if own["d"][d] and any(d in here[q][0] for q in here):
                if d in ds:
                    # handed over twice: refused before anything takes it
                    out.append("adddv %s %d 0" % (p, d))
                continue
            if own["d"][d] and any(d in ets[e] for e in here["S" if p == "P" else "P"][1]):
                continue
            out.append("adddv %s %d %d" % (p, d, 1 if own["d"][d] else mode))
            if d not in ds:
                ds.append(d)
        elif x < .65:
            c = [e for e in range(ne) if e not in deade and not any(e in here[q][1] for q in here)
                 and not any(d in deadd for d in ets[e])]
            if not c:
                continue
            e = r.choice(c)
            ok = all(d in ds for d in ets[e])
            if p == "S" and not ok:
                continue
            if not ok and r.random() < .7:
                continue
            out.append("addet %s %d %d" % (p, e, 1 if own["e"][e] else mode))
            if ok:
                es.append(e)
            elif own["e"][e]:
                deade.add(e)
        elif x < .78:
            ds, es = here["P"]
            d = r.choice(live)
            if d in ds:
                gone = [e for e in es if d in ets[e]]
                ds.remove(d)
                here["P"] = (ds, [e for e in es if e not in gone])
                bury("P", [d], gone)
            out.append("rmdv %d" % d)
        elif x < .9:
            c = [e for e in range(ne) if e not in deade]
            if not c:
                continue
            ds, es = here["P"]
            e = r.choice(es) if es and r.random() < .8 else r.choice(c)
            if e in es:
                es.remove(e)
                bury("P", [], [e])
            out.append("rmet %d" % e)
        elif x < .93:
            here[p] = ([], [])
            bury(p, ds, es)
            out.append("clear %s" % p)
        else:
            out.append("act %d %d" % (r.choice(live), r.randint(0, 1)))
        if r.random() < .6:
            out.append("view %s" % r.choice("PPPS"))
    out += ["view P", "view S"]
    return "\n".join(out)


def calib(r, long):
    nd, ne = r.randint(2, 7), r.randint(2, 9)
    out, ets = pool(r, nd, ne, r.random() < .5)
    names = ["a", "b", "c", "d"][:r.randint(1, 4)]
    grp = {d: r.randint(0, 3) for d in range(nd)}
    prob = {}
    val = [0]

    def fill(c, k):
        for _ in range(k):
            ds, es, _ = prob[c]
            if r.random() < .55 or not ds:
                d = r.randrange(nd)
                g = grp[d] if r.random() < .93 else r.randint(0, 4)
                out.append("cdv %s %d %d" % (c, d if r.random() < .97 else -1, g))
                if not out[-1].split()[2] == "-1" and d not in ds:
                    ds.append(d)
                    prob[c][2].setdefault(g, []).append(d)
            else:
                fit = [e for e in range(ne) if all(d in ds for d in ets[e]) and not any(e in prob[q][1] for q in prob)]
                e = r.choice(fit) if fit and r.random() < .9 else r.randrange(ne)
                out.append("cet %s %d" % (c, e))
                if e not in es and all(d in ds for d in ets[e]):
                    es.append(e)
    for c in names:
        out.append("cnew %s" % c)
        prob[c] = _P({})
        fill(c, r.randint(2, 9))
    merged = []

    def fits(c):
        mine = {}
        for q in merged:
            for g, v in prob[q][2].items():
                for d in v:
                    mine[d] = g
        for g, v in prob[c][2].items():
            for d in v:
                if mine.get(d, g) != g:
                    return False
        return not any(set(prob[q][1]) & set(prob[c][1]) for q in merged)

    def igroups():
        gs = {}
        for q in merged:
            for g, v in prob[q][2].items():
                gs.setdefault(g, set()).update(v)
        return gs
    for _ in range(r.randint(8, 22) * (3 if long else 1)):
        x = r.random()
        c = r.choice(names)
        if x < .18:
            if c not in merged:
                fill(c, r.randint(1, 3))
        elif x < .36:
            out.append("iadd %s" % (c if r.random() < .97 else "-"))
            if out[-1][-1] != "-" and fits(c):
                merged.append(c)
        elif x < .5:
            how = r.choice(["idx", "it", "ptr"])
            if how == "ptr":
                out.append("irm ptr %s" % c)
                if c in merged:
                    merged.remove(c)
            else:
                k = r.randint(0, len(merged)) if r.random() < .3 else r.randrange(max(1, len(merged)))
                if how == "it":
                    k = min(k, len(merged))
                out.append("irm %s %d" % (how, k))
                if k < len(merged):
                    merged.pop(k)
        elif x < .57:
            if r.random() < .4:
                p = perm(r, len(merged))
                out.append("perme I %s" % lst(p))
                if sorted(p) == list(range(len(merged))):
                    merged[:] = [merged[k] for k in p]
            else:
                out.append("perme %s %s" % (c, lst(perm(r, len(prob[c][1])))))
        elif x < .68:
            w = r.choice([c, "I"])
            gs = igroups() if w == "I" else prob[c][2]
            g = r.choice(sorted(gs)) if gs and r.random() < .9 else r.randint(0, 4)
            out.append("permd %s %d %s" % (w, g, lst(perm(r, len(gs.get(g, []))))))
        elif x < .77:
            w = r.choice([c, "I"])
            gs = sorted(igroups() if w == "I" else prob[c][2])
            r.shuffle(gs)
            if r.random() < .2:
                gs = gs + [r.randint(0, 4)] if r.random() < .5 else [gs[0]] * len(gs) if gs else [1]
            out.append("order %s %s" % (w, lst(gs)))
        elif x < .86:
            val[0] += 1
            out.append("set %d %d" % (r.randrange(nd), val[0]))
        elif x < .9:
            out.append("save %s" % r.choice([c, "I", "I"]))
        elif x < .94:
            out.append("restore %s" % r.choice([c, "I", "I"]))
            out.append("vals")
        elif x < .96:
            if r.random() < .4:
                merged[:] = []
                out.append("clear I")
            elif c not in merged:
                prob[c] = _P({})
                out.append("clear %s" % c)
        else:
            out.append("act %d %d" % (r.randrange(nd), r.randint(0, 1)))
        if r.random() < .6:
            out.append("view %s" % r.choice(["I", "I", c]))
    out += ["view I", "vals"] + ["view %s" % c for c in names]
    return "\n".join(out)


class _P(tuple):
    """design variables, error terms, groups of a sub-problem"""
    def __new__(cls, groups):
        return tuple.__new__(cls, ([], [], groups))


def run():
    c = Check("C06")
    c.build("problems")
    c.design("ProblemsMC", "ProblemsMCdeep.cfg" if c.thorough else None, timeout=800, heap="8g")
    S = [("plain-%d" % k, plain(c.rng, k % 6 == 0)) for k in range(c.n(400, 6000))]
    S += [("inc-%d" % k, calib(c.rng, k % 6 == 0)) for k in range(c.n(500, 8000))]
    c.conform("ProblemsTrace", "problems", S, timeout=800, drvenv={"MALLOC_PERTURB_": "165"})
    # Once more with every access to memory checked: what was deleted is not touched again.
    V = [("vg-plain-%d" % k, plain(c.rng, k % 3 == 0)) for k in range(c.n(48, 400))]
    V += [("vg-inc-%d" % k, calib(c.rng, False)) for k in range(c.n(16, 200))]
    c.conform("ProblemsTrace", "problems", V, timeout=800,
              cmd=["valgrind", "-q", "--error-exitcode=99", os.path.join(BUILD, "bin", "drv_problems")])
    c.assumptions += ["a sub-problem is not changed while it is merged into an incremental problem",
                      "a permutation with a repeated index is not offered (the code does not promise to refuse it)"]
    c.finish()


main(run)
