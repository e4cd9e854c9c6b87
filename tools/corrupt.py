#!/usr/bin/env python3
"""tools/corrupt.py CNN [N] [SEED]: does the specification see what the records say?

Records runs of the real code as the check does, changes one value in one record of each of N runs, and validates
the changed run.  Prints how many were refused, and which fields were changed without being refused: these are either
inputs the specification does not need, or observations it does not judge.
"""
import collections, concurrent.futures as cf, copy, os, random, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/run", ROOT + "/checks"]
import vlib

prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 60
rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
HEX = re.compile(r"^-?0x[0-9a-f.]+p[+-]\d+$")
refused, kept = collections.Counter(), collections.Counter()


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, w in v.items():
            if k not in ("op", "id"):
                yield from leaves(w, path + (k,))
    elif isinstance(v, list):
        for k, w in enumerate(v):
            yield from leaves(w, path + (k,))
    elif isinstance(v, (bool, int)) or isinstance(v, str) and HEX.match(v):
        yield path


def changed(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    x = float.fromhex(v)
    return (x * 1.25 + rng.choice([-.25, .25])).hex()


def mutate(recs):
    for _ in range(20):
        k = rng.randrange(len(recs))
        ps = list(leaves(recs[k]))
        if ps:
            by = collections.defaultdict(list)
            for p in ps:
                by[tuple(x for x in p if isinstance(x, str))].append(p)
            name = rng.choice(sorted(by))
            p = rng.choice(by[name])
            out = copy.deepcopy(recs)
            v = out[k]
            for x in p[:-1]:
                v = v[x]
            v[p[-1]] = changed(v[p[-1]])
            return out, (recs[k]["op"],) + name
    return None, None


def conform(self, module, driver, scripts, cfg=None, batch=None, env=None, timeout=300, cmd=None, drvenv=None, **_):
    pick = [scripts[rng.randrange(len(scripts))] for _ in range(n)]
    runs = self.run_scripts(driver, list({i: (i, t) for i, t in pick}.values()), timeout, drvenv, cmd)
    pick = [(i,) + mutate(runs[i]) for i, _ in pick if i in runs]

    def one(m):
        i, recs, name = m
        if recs is None:
            return None
        _, ref = self.validate(module, [(i, recs)], cfg, env)
        return bool(ref), (module,) + name
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        for r in ex.map(one, pick):
            if r:
                (refused if r[0] else kept)[r[1]] += 1


vlib.Check.conform, vlib.Check.design, vlib.Check.finish = conform, lambda *a, **k: None, lambda *a, **k: None
vlib.main = lambda fn: globals().__setitem__("RUN", fn)
path = "%s/checks/%s.py" % (ROOT, prop)
sys.argv = [path]
exec(compile(open(path).read().replace("__file__", repr(path)), path, "exec"))
RUN()
print("%s: %d of %d changed values refused" % (prop, sum(refused.values()), sum(refused.values()) + sum(kept.values())))
for k, c in kept.most_common(25):
    print("  kept %d/%d %s" % (c, c + refused[k], ".".join(k)))
