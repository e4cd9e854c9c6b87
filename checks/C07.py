"""C07: block-sparse and compressed-column matrices and the solvers on them refine dense linear algebra."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main


def ends(sizes):
    out, t = [], 0
    for s in sizes:
        t += s
        out.append(t)
    return out


class Gen:
    """Random legal histories over a few registers; follows layouts and allocation only."""

    def __init__(self, rng, maxblocks=4, maxdim=3):
        self.r, self.mb, self.md = rng, maxblocks, maxdim
        self.m = {}          # register -> [row sizes, column sizes, allocated blocks]
        self.out = []
        self.layouts = [[rng.randint(1, maxdim) for _ in range(rng.randint(1, maxblocks))] for _ in range(2)]
        self.layouts.append([rng.randint(1, maxdim) for _ in range(len(self.layouts[0]))])

    def emit(self, *w):
        self.out.append(" ".join(str(x) for x in w))

    def val(self):
        return self.r.choice([0, 1, -1, 2, 3, -2, 5, -4, 7, 11])

    def vals(self, n):
        return [self.val() for _ in range(n)]

    def new(self, d, rb=None, cb=None):
        rb = rb or self.r.choice(self.layouts)
        cb = cb or self.r.choice(self.layouts)
        self.m[d] = [list(rb), list(cb), set()]
        self.emit("new", d, len(rb), *ends(rb), len(cb), *ends(cb), self.r.randint(0, 2))

    def set(self, d, r=None, c=None, v=None):
        rb, cb, S = self.m[d]
        r = self.r.randrange(len(rb)) if r is None else r
        c = self.r.randrange(len(cb)) if c is None else c
        S.add((r, c))
        self.emit("set", d, r, c, *(v or self.vals(rb[r] * cb[c])))

    def fill(self, d, k=None):
        rb, cb, _ = self.m[d]
        for _ in range(self.r.randint(0, len(rb) * len(cb)) if k is None else k):
            self.set(d)

    def step(self):
        R, r = sorted(self.m), self.r
        names = ["A", "B", "D", "E"]
        if len(R) < 2:
            d = r.choice(names)
            self.new(d)
            self.fill(d)
            return
        op = r.choice("new set set set get entries clear copy move slice slice slice transpose transpose transposed add add mul mul mul times "
                      "scale mulvec mulvec perm ccs ccs2 structure".split())
        s, d = r.choice(R), r.choice(names)
        rb, cb, S = self.m[s]
        if op == "new":
            self.new(d)
            self.fill(d)
        elif op == "set":
            self.set(s)
        elif op == "get":
            if r.random() < .3:
                self.emit("getblock", s, *r.choice([(len(rb), 0), (0, len(cb)), (-1, 0), (0, -1), (len(rb) + 3, len(cb) + 3)]))
            else:
                self.emit("getblock", s, r.randrange(len(rb)), r.randrange(len(cb)))
        elif op == "entries":
            self.emit("entries", s)
        elif op == "clear":
            de = r.randint(0, 1)
            self.emit("clear", s, de)
            if de:
                self.m[s][2] = set()
        elif op == "copy":
            how = r.choice("clone ctor assign into scaled1".split())
            if how in ("assign", "into") and d not in self.m:
                self.new(d)
            if d == s and how in ("into",):
                how = "assign"
            if d == s and how in ("clone", "ctor", "scaled1"):
                pass
            self.emit("copy", d, s, how)
            self.m[d] = [list(rb), list(cb), set(S)]
        elif op == "move":
            if d == s or len(R) < 3:
                return
            if d not in self.m:
                how = 0
            else:
                how = r.randint(0, 1)
            self.emit("move", d, s, how)
            self.m[d] = self.m.pop(s)
        elif op == "slice":
            a = r.randrange(len(rb)); b = r.randint(a + 1, len(rb))
            c = r.randrange(len(cb)); e = r.randint(c + 1, len(cb))
            how = r.randint(0, 2)
            sub = [rb[a:b], cb[c:e], {(i - a, j - c) for i, j in S if a <= i < b and c <= j < e}]
            if how == 0:
                self.emit("slice", "V", s, a, b, c, e, 0)
                self.emit("entries", "V")
                self.emit("mulvec", "V", *self.vals(sum(sub[1])), *self.vals(sum(sub[0])))
                self.emit("drop", "V")
            elif how == 1:
                if d == s:
                    return
                self.emit("slice", d, s, a, b, c, e, 1)
                self.m[d] = sub
            else:
                self.new("T", sub[0], sub[1])
                if r.random() < .5:
                    self.fill("T", 2)
                self.emit("slice", "T", s, a, b, c, e, 2)
                self.m["T"][2] |= sub[2]
                self.emit("drop", "T")
                del self.m["T"]
        elif op == "transpose":
            if d == s:
                return
            if d in self.m and r.random() < .5:
                self.emit("drop", d)
                del self.m[d]
            T = {(j, i) for i, j in S}
            if d in self.m:
                self.emit("clear", d, 1)
                self.m[d][2] = set()
            self.emit("transpose", d, s)
            if d not in self.m:
                self.m[d] = [list(cb), list(rb), T]
            elif self.m[d][0] == cb and self.m[d][1] == rb:
                self.m[d][2] = T
        elif op == "transposed":
            self.emit("transposed", s)
        elif op == "add":
            if d == s:
                return
            if d not in self.m:
                self.m[d] = [list(rb), list(cb), set(S)]
            elif self.m[d][0] == rb and self.m[d][1] == cb:
                self.m[d][2] |= S
            self.emit("add", d, s)
        elif op == "mul":
            b = r.choice(R)
            good = [x for x in R if self.m[x][0] == cb]
            if good and r.random() < .8:
                b = r.choice(good)
            ok = self.m[b][0] == cb
            pat = {(i, j) for i, k in S for k2, j in self.m[b][2] if k == k2}
            lay = [list(rb), list(self.m[b][1]), pat]
            if d in (s, b):
                return
            if d in self.m and ok:
                if self.m[d][0] != lay[0] or self.m[d][1] != lay[1]:
                    self.emit("drop", d)
                    del self.m[d]
            if not ok and d not in self.m:
                return
            self.emit("mul", d, s, b)
            if ok:
                if d in self.m:
                    self.m[d][2] |= pat
                else:
                    self.m[d] = lay
        elif op == "times":
            good = [x for x in R if self.m[x][0] == cb]
            self.emit("times", s, r.choice(good) if good and r.random() < .8 else r.choice(R))
        elif op == "scale":
            self.emit("scale", s, r.choice([0, 1, -1, 2, 3]), r.randint(0, 1))
            # keep the numbers in range
            if r.random() < .3:
                self.emit("clear", s, 1)
                self.m[s][2] = set()
        elif op == "mulvec":
            self.emit("mulvec", s, *self.vals(sum(cb)), *self.vals(sum(rb)))
        elif op == "perm":
            if rb != cb:
                return
            up = 1 if all(i <= j for i, j in S) and r.random() < .6 else 0
            p = list(range(len(rb)))
            r.shuffle(p)
            inv = [0] * len(p)
            for i, k in enumerate(p):
                inv[k] = i
            self.emit("perm", "P", s, up, *p)
            self.emit("entries", "P")
            self.emit("perm", "P", s, up, *p)
            self.emit("drop", "P")
        elif op == "ccs":
            self.emit("ccs", s, 0)
        elif op == "ccs2":
            if rb == cb and all(i <= j for i, j in S):
                self.emit("ccs", s, 1)
                if all((k, k) in S for k in range(len(rb))):
                    self.emit("ccs", s, 2)
            self.emit("structure", s, r.randint(1, 3))

    def trim(self):
        # the products grow: restart registers whose entries may become large
        pass

    def text(self, n):
        for k in range(n):
            self.step()
            if k % 9 == 8:
                # fresh numbers, so that products stay exactly representable
                for d in sorted(self.m):
                    self.emit("clear", d, 1)
                    self.m[d][2] = set()
                    self.fill(d)
        return "\n".join(self.out)


def spd(r, sizes, density):
    """A block SPD integer matrix L L' + diagonal, upper triangle, as blocks."""
    n = sum(sizes)
    e = [0] + ends(sizes)
    nb = len(sizes)
    L = [[0] * n for _ in range(n)]
    for bi in range(nb):
        for bj in range(bi + 1):
            if bi == bj or r.random() < density:
                for i in range(e[bi], e[bi + 1]):
                    for j in range(e[bj], e[bj + 1]):
                        if j <= i:
                            L[i][j] = r.choice([0, 1, -1, 2, -2]) if j < i else r.choice([1, 2, 3])
    A = [[sum(L[i][k] * L[j][k] for k in range(n)) + (r.choice([1, 2]) if i == j else 0) for j in range(n)] for i in range(n)]
    out = []
    for bi in range(nb):
        for bj in range(bi, nb):
            blk = [A[i][j] for i in range(e[bi], e[bi + 1]) for j in range(e[bj], e[bj + 1])]
            if bi == bj or any(blk):
                out.append((bi, bj, blk))
    return out


def solve_script(r, k):
    sizes = [r.randint(1, 3) for _ in range(r.randint(1, 5))]
    out = ["new A %d %s %d %s 1" % (len(sizes), " ".join(map(str, ends(sizes))), len(sizes), " ".join(map(str, ends(sizes))))]
    blocks = spd(r, sizes, r.choice([.2, .5, 1]))
    r.shuffle(blocks)
    for i, j, b in blocks:
        out.append("set A %d %d %s" % (i, j, " ".join(map(str, b))))
    b = [r.randint(-5, 5) for _ in range(sum(sizes))]
    for w in ("cholmod", "cholmodblock", "dense", "spqr"):
        out.append("solve A %s %d %s" % (w, r.randint(1, 3), " ".join(map(str, b))))
    want = [(i, j) for i in range(len(sizes)) for j in range(len(sizes))]
    for w in ("cholmod", "cholmodblock"):
        r.shuffle(want)
        out.append("cov A %s %d %s" % (w, len(want), " ".join("%d %d" % p for p in want)))
    return "\n".join(out)


def ccm_script(r, n):
    out = []
    cm = {}      # register -> [rows, columns, has diagonal]

    def emit(*w):
        out.append(" ".join(str(x) for x in w))

    def vals(k):
        return [r.choice([0, 1, -1, 2, -3, 4, 9]) for _ in range(k)]

    def jac(d):
        rows, cols, hd = cm[d]
        # disjoint ranges of the rows, in block order
        base, vs = 0, []
        while base < rows:
            dim = r.randint(1, min(3, rows - base))
            if r.random() < .7:
                vs.append((dim, base))
            base += dim
        if not vs:
            vs = [(1, 0)]
        k = r.randint(1, 3)
        w = ["cjac", d, r.randint(0, 2), k, len(vs)]
        any_act = False
        for q, (dim, base) in enumerate(vs):
            act = r.random() < .85
            any_act = any_act or act
            w += [dim, base, q, int(act)] + vals(k * dim)
        if not any_act and w[2] != 0:
            w[2] = 0
        emit(*w)
        if any_act and not hd:
            cm[d][1] += k

    emit("cnew", "A", 0, 0)
    d = "A"
    start = r.randint(1, 6)
    emit("cclear", d)
    emit("cinit", d, start, 0)
    cm[d] = [start, 0, False]
    for _ in range(n):
        d = r.choice(sorted(cm))
        rows, cols, hd = cm[d]
        op = r.choice("jac jac jac jac diag diag diag diag mul mul dense new clear reinit view".split())
        if op == "jac":
            jac(d)
        elif op == "diag":
            how = r.choice("push pushc update updatec pop".split())
            if r.random() < .6:
                how = r.choice(["update", "updatec", "pop"] if hd else ["push", "pushc"])
            if how in ("push", "update"):
                k = rows if r.random() < .85 or how == "update" else rows + r.choice([-1, 1])
                emit("cdiag", d, how, k, *vals(k))
                if how == "push" and not hd and k == rows:
                    cm[d][2] = True
            elif how == "pop":
                emit("cdiag", d, how)
                cm[d][2] = False
            else:
                emit("cdiag", d, how, r.choice([0, 1, 3]))
                if how == "pushc" and not hd:
                    cm[d][2] = True
        elif op == "mul":
            emit("cmul", d, cols, *vals(cols), rows, *vals(rows))
        elif op == "dense":
            rr, cc = r.randint(1, 5), r.randint(1, 5)
            emit("cdense", d, rr, cc, *vals(rr * cc), r.choice([-1, 0, 1, 3]))
            cm[d] = [rr, cc, False]
        elif op == "new":
            e = r.choice("AB")
            rr = r.randint(1, 6)
            emit("cnew", e, rr, 0)
            cm[e] = [rr, 0, False]
        elif op == "clear":
            emit("cclear", d)
            cm[d] = [rows, cols + (rows if hd else 0), False]
        elif op == "reinit":
            emit("cclear", d)
            rr = r.randint(1, 6)
            emit("cinit", d, rr, 0)
            cm[d] = [rr, 0, False]
            for _ in range(r.randint(1, 3)):
                jac(d)
        elif op == "view":
            emit("cview", d, "V")
    return "\n".join(out)


def fixed_script(r):
    nb, mb = r.randint(1, 4), r.randint(1, 4)
    cells = [(i, j) for i in range(nb) for j in range(mb)]
    r.shuffle(cells)
    cells = cells[:r.randint(0, len(cells))]
    v = lambda k: " ".join(str(r.randint(-4, 4)) for _ in range(k))
    return "fixed2 %d %d %d %s %s %s" % (nb, mb, len(cells), " ".join("%d %d %s" % (i, j, v(4)) for i, j in cells), v(2 * mb), v(2 * nb))


def run():
    c = Check("C07")
    c.build("sparse")
    c.design("SparseBlockMC", "SparseBlockMCdeep.cfg" if c.thorough else None, timeout=800)
    S = []
    for k in range(c.n(120, 1200)):
        S.append(("block-%d" % k, Gen(c.rng, c.rng.choice([2, 3, 4]), c.rng.choice([1, 2, 3])).text(30)))
    for k in range(c.n(60, 600)):
        S.append(("solve-%d" % k, solve_script(c.rng, k)))
    for k in range(c.n(150, 1500)):
        S.append(("ccm-%d" % k, ccm_script(c.rng, 25)))
    for k in range(c.n(40, 300)):
        S.append(("fixed-%d" % k, fixed_script(c.rng)))
    c.conform("SparseTrace", "sparse", S)
    c.assumptions += ["block values are small integers, so every product and sum is exact in doubles",
                      "slices that are views are only read, and dropped before their parent changes",
                      "a transpose destination is new or cleared"]
    c.finish()


main(run)
