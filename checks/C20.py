"""C20: fiducial detection decodes every tag identity it should and no other."""
import math
import os
import re
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "run"))
from vlib import Check, main, h

FAMS = {"16h5": 4, "16h5o": 4, "25h7": 5, "25h9": 5, "36h11": 6, "36h11o": 6, "36h9": 6}


def tables():
    """The published tables, from the specification."""
    s = open(os.path.join(HERE, "..", "spec", "TagCodes.tla")).read()
    T = {}
    for n in FAMS:
        b = re.search(r"^C%s == <<(.*?)^  >>" % n, s, re.M | re.S).group(1)
        T[n] = [sum(int(d) << (6 * i) for i, d in enumerate(w.split(","))) for w in re.findall(r"<<([\d,]+)>>", b)]
    return T


def turn(w, d):
    r = 0
    for k in range(d * d - 1, -1, -1):
        p = d * d - 1 - k
        y, x = p // d, p % d
        r |= ((w >> (d * d - 1 - ((d - 1 - x) * d + y))) & 1) << k
    return r


def spoil(r, w, d, n):
    for b in r.sample(range(d * d), n):
        w ^= 1 << b
    return w


def fs(v):
    return " ".join("%.9g" % x for x in v)


class Gen:
    def __init__(self, r, T):
        self.r, self.T = r, T

    def word(self, n, errs):
        r, d = self.r, FAMS[n]
        w = r.choice(self.T[n])
        for _ in range(r.randrange(4)):
            w = turn(w, d)
        return spoil(r, w, d, r.choice(errs))

    def between(self, n):
        """a word on the way from one code to another, in some turn: as near to both as it gets, or a little off"""
        r, d = self.r, FAMS[n]
        a, b = r.choice(self.T[n]), r.choice(self.T[n])
        for _ in range(r.randrange(4)):
            b = turn(b, d)
        diff = [i for i in range(d * d) if ((a ^ b) >> i) & 1]
        for i in r.sample(diff, max(0, min(len(diff), len(diff) // 2 + r.randrange(-1, 2)))):
            a ^= 1 << i
        for _ in range(r.randrange(4)):
            a = turn(a, d)
        return a

    def words(self, n, k):
        r, d = self.r, FAMS[n]
        o = ["table %s %d" % (n, r.choice([1, 2]))]
        for _ in range(k):
            q = r.random()
            if q < .12:
                o.append("bits %d" % r.choice([0, 1, 2, 3, 5, 8, 12]))
            elif q < .2:
                o.append("frac %d %d" % (r.randrange(0, 5), 4))
            elif q < .3:
                o.append("dec %x" % r.getrandbits(d * d))
            elif q < .4:
                o.append("dec %x" % self.between(n))
            elif q < .45:
                e = r.randrange(1, 9)
                o.append("rot %d %x" % (e, r.getrandbits(e * e)))
            elif q < .5:
                o.append("ham %x %x" % (r.getrandbits(64), r.getrandbits(64)))
            else:
                o.append("dec %x" % self.word(n, [0, 1, 1, 2, 2, 3, 4, 5]))
        return "\n".join(o)

    def uf(self):
        r = self.r
        n = r.randrange(1, 24)
        o = ["uf %d" % n]
        for _ in range(r.randrange(5, 50)):
            q = r.random()
            o.append("join %d %d" % (r.randrange(n), r.randrange(n)) if q < .5 else
                     "rep %d" % r.randrange(n) if q < .7 else "size %d" % r.randrange(n) if q < .9 else "ufsnap")
        return "\n".join(o + ["ufsnap"])

    def gridder(self):
        r = self.r
        x0, y0 = r.choice([0, 0, -7, 12.5]), r.choice([0, 0, 3, -20])
        w, hh, c = r.choice([20, 64, 35.5]), r.choice([20, 48, 30]), r.choice([10, 10, 5, 7, 2.5])
        o = ["grid " + fs([x0, y0, x0 + w, y0 + hh, c])]
        for _ in range(r.randrange(3, 40)):
            if r.random() < .6:
                o.append("gadd " + fs([round(r.uniform(x0, x0 + w) * 4) / 4, round(r.uniform(y0, y0 + hh) * 4) / 4]))
            else:
                o.append("gfind " + fs([round(r.uniform(x0 - 9, x0 + w + 9) * 2) / 2, round(r.uniform(y0 - 9, y0 + hh + 9) * 2) / 2, r.choice([0, 1, 5, 8, 10, 20, 100])]))
        return "\n".join(o)

    def lines(self):
        r, o = self.r, []
        for _ in range(14):
            q = r.random()
            if q < .25:
                v = [r.randrange(-60, 700) for _ in range(8)]
                if r.random() < .2:
                    v[6], v[7] = v[4] + 2 * (v[2] - v[0]), v[5] + 2 * (v[3] - v[1])
                if v[:2] == v[2:4] or v[4:6] == v[6:8]:
                    continue
                o.append("cross " + fs(v))
            elif q < .45:
                v = [r.randrange(-60, 700) for _ in range(7)]
                if v[:2] != v[2:4]:
                    o.append("coord " + fs(v))
            elif q < .7:
                n = r.randrange(2, 12)
                a, b, t = r.randrange(0, 40), r.randrange(0, 40), r.uniform(0, math.pi)
                k = r.choice([0, .5, 3])
                v = []
                for _ in range(n):
                    s = r.uniform(-20, 20)
                    v += [round(a + s * math.cos(t) + r.uniform(-k, k)), round(b + s * math.sin(t) + r.uniform(-k, k)), r.choice([1, .5, .25, .125, 2])]
                if len({(v[3 * i], v[3 * i + 1]) for i in range(n)}) > 1:
                    o.append("fit %d %s" % (n, fs(v)))
            elif q < .85:
                o.append("mod " + fs([r.choice([0., 1., 3.141592, -3.1416, 3.1416, 6.2831855, r.uniform(-20, 20), r.uniform(-500, 500)])]))
            else:
                v, cx, cy = [], r.choice([0, 320, 160]), r.choice([0, 240, 120])
                x, y, s, t = r.uniform(60, 500), r.uniform(60, 400), r.uniform(15, 90), r.uniform(0, 6.28)
                for i, (a, b) in enumerate([(-1, -1), (1, -1), (1, 1), (-1, 1)]):
                    u = t + math.pi / 4 + i * math.pi / 2
                    m = s * r.uniform(.8, 1.2)
                    v += [a, b, round(x + m * math.cos(u), 2), round(y - m * math.sin(u), 2)]
                o.append("homo %g %g 4 %s" % (cx, cy, fs(v)))
        return "\n".join(o)

    def grey(self):
        r, o = self.r, []
        for _ in range(4):
            n = r.choice([1, 3, 5, 6, 7, 12, 30])
            v = []
            k = r.choice([0, .1])
            c = [r.uniform(-.3, .3) for _ in range(3)]
            for i in range(n):
                x, y = r.randrange(0, 65) / 64, r.randrange(0, 65) / 64
                v += [x, y, round((.5 + c[0] * x + c[1] * y + c[2] * x * y + r.uniform(-k, k)) * 256) / 256]
            # a well spread set of places
            if n >= 6:
                for i, (x, y) in enumerate([(0, 0), (1, 0), (0, 1), (1, 1)]):
                    v[3 * i], v[3 * i + 1] = x, y
            o.append("gray %d %s" % (n, fs(v)))
        for _ in range(2):
            o.append("gauss %g %d" % (r.choice([0, .8, 1.5, .5, r.uniform(.4, 4)]), r.choice([1, 3, 5, 7, 9])))
        nh, nv = r.choice([1, 3, 5]), r.choice([1, 3, 5])
        w, hh = r.randrange(max(nh, 2), 9), r.randrange(max(nv, 2), 9)
        f = lambda n: [r.randrange(-8, 17) / 16 for _ in range(n)]
        o.append("filt %d %d %d %d %s %s %s" % (w, hh, nh, nv, fs(f(nh)), fs(f(nv)), fs([r.randrange(0, 256) / 256 for _ in range(w * hh)])))
        px = [r.randrange(0, 256) / 256 for _ in range(12)]
        px[3] = px[7] + .5
        o.append("norm 4 3 " + fs(px))
        return "\n".join(o)

    def corners(self, x, y, side, bend):
        r = self.r
        t = r.choice([r.uniform(0, 2 * math.pi), r.randrange(4) * math.pi / 2 + r.uniform(-.05, .05)])
        c = []
        for i in range(4):
            u = t - 3 * math.pi / 4 + i * math.pi / 2
            m = side / math.sqrt(2) * r.uniform(1 - bend, 1)
            c += [x + m * math.cos(u), y - m * math.sin(u)]
        return c

    def scene(self):
        r = self.r
        n = r.choice(["36h11", "36h11", "36h11o", "25h9", "36h9"])
        b = r.choice([1, 2, 2])
        cells = FAMS[n] + 2 * b
        side = r.uniform(6, 9) * cells
        gap = side * 1.62
        nx, ny = r.randrange(1, 4), r.randrange(1, 3)
        W, H = int(nx * gap + 12), int(ny * gap + 12)
        o = []
        places = [(i, j) for i in range(nx) for j in range(ny)]
        same = r.random() < .2
        w0 = self.word(n, [0, 1])
        for i, j in r.sample(places, r.randrange(0 if r.random() < .1 else 1, len(places) + 1)):
            w = w0 if same else self.word(n, [0, 0, 0, 1, 1, 2, 3])
            x, y = 6 + gap * (i + .5) + r.uniform(-3, 3), 6 + gap * (j + .5) + r.uniform(-3, 3)
            o.append("%x %s" % (w, fs(self.corners(x, y, side, .08))))
        return "table %s %d\ntags %d %d %d %d %s" % (n, b, W, H, r.random() < .3, len(o), " ".join(o))

    def board(self):
        r, out = self.r, []
        for _ in range(2):
            k = r.choice(["checker", "checker", "circle", "asym"])
            rows, cols = {"checker": r.choice([(3, 4), (4, 4), (5, 4), (3, 6), (6, 5)]), "circle": r.choice([(3, 4), (4, 4), (4, 5), (5, 3)]), "asym": r.choice([(7, 4), (9, 4), (11, 4), (5, 3)])}[k]
            a, b = {"checker": (cols + 1, rows + 1), "circle": (2 * cols, 2 * rows), "asym": (2 * cols + 1, rows + 1)}[k]
            px = r.uniform(24, 34) if k == "checker" else r.uniform(15, 20)
            w2, h2, t, bend = a * px / 2, b * px / 2, r.choice([0, r.uniform(0, 6.28), r.uniform(-.4, .4)]), r.choice([0, .03])
            c, s = math.cos(t), math.sin(t)
            q = [(c * x - s * y, -(s * x + c * y)) for x, y in [(-w2, -h2), (w2, -h2), (w2, h2), (-w2, h2)]]
            q = [(x * r.uniform(1 - bend, 1), y * r.uniform(1 - bend, 1)) for x, y in q]
            x0, y0 = min(x for x, y in q) - 30, min(y for x, y in q) - 30
            W, H = int(max(x for x, y in q) - x0 + 30), int(max(y for x, y in q) - y0 + 30)
            out.append("board %s %d %d %d %d %d %d %s" % (k, W, H, r.random() < .3, rows, cols, r.random() < .7, fs([z for x, y in q for z in (x - x0, y - y0)])))
        return "\n".join(out)

    def april(self):
        r = self.r
        rows, cols = r.randrange(1, 4), r.randrange(1, 5)
        b = r.choice([1, 2, 2])
        size, gap = r.choice([.088, .03, 1.]), r.choice([.3, .25, .35])
        mintags = r.choice([1, 1, 2, 4, 4])
        minborder = r.choice([4, 4, 10, 1])
        sub = r.random() < .7
        out = ["april %d %d %.9g %.9g %d %d %g %g %d" % (rows, cols, size, gap, b, mintags, minborder, 1.5, sub)]
        C = self.T["36h11"]
        for _ in range(r.randrange(1, 3)):
            px = (6 + 2 * b) * r.uniform(5.5, 7.5)       # pixels of a tag
            step = px * (1 + gap)
            t = r.choice([0, 0, r.uniform(0, 6.28), r.uniform(-.4, .4)])
            w2, h2 = cols * step / 2, rows * step / 2
            c, s = math.cos(t), math.sin(t)
            q = [(c * x - s * y, -(s * x + c * y)) for x, y in [(-w2, -h2), (w2, -h2), (w2, h2), (-w2, h2)]]
            bend = r.choice([0, .03, .05])
            q = [(x * r.uniform(1 - bend, 1), y * r.uniform(1 - bend, 1)) for x, y in q]
            m = r.choice([22, 22, 22, 2, -.5 * px])
            x0, y0 = min(x for x, y in q) - m, min(y for x, y in q) - m
            W, H = int(max(x for x, y in q) - x0 + 22), int(max(y for x, y in q) - y0 + 22)
            places = list(range(rows * cols))
            ids = list(places)
            if r.random() < .3:
                r.shuffle(ids)
            if r.random() < .2 and rows * cols > 1:
                ids[r.randrange(len(ids))] = r.randrange(rows * cols, 587)
            if r.random() < .4:
                places = sorted(r.sample(places, r.randrange(0, len(places) + 1)))
            words = []
            for k in places:
                w = C[ids[k]]
                if r.random() < .15:
                    for _ in range(r.randrange(4)):
                        w = turn(w, 6)
                words.append("%d %x" % (k, spoil(r, w, 6, r.choice([0, 0, 0, 0, 1, 2]))))
            out.append("view %d %d %d %d %d %.9g %.9g %s %d %s" % (W, H, r.random() < .3, rows, cols, size, gap, fs([z for x, y in q for z in (x - x0, y - y0)]), len(words), " ".join(words)))
        return "\n".join(out)


def run():
    c = Check("C20")
    c.build("tag")
    c.design("TagsMC", "TagsMCdeep.cfg" if c.thorough else None, timeout=800)
    c.design("GroupingMC", "GroupingMCdeep.cfg" if c.thorough else None, timeout=800)
    g = Gen(c.rng, tables())
    S = []
    for n in FAMS:
        big = n == "36h9"
        S += [("words-%s-%d" % (n, k), g.words(n, 15 if big else 40)) for k in range(c.n(1 if big else 2, 10 if big else 40))]
    S += [("union-%d" % k, g.uf()) for k in range(c.n(60, 2000))]
    S += [("near-%d" % k, g.gridder()) for k in range(c.n(60, 1500))]
    S += [("lines-%d" % k, g.lines()) for k in range(c.n(60, 1500))]
    S += [("grey-%d" % k, g.grey()) for k in range(c.n(30, 600))]
    S += [("scene-%d" % k, g.scene()) for k in range(c.n(40, 800))]
    S += [("board-%d" % k, g.board()) for k in range(c.n(25, 500))]
    S += [("grid-%d" % k, g.april()) for k in range(c.n(40, 800))]
    c.conform("TagTrace", "tag", S, timeout=800)
    c.assumptions += ["images are drawn tags on white, at least 5 pixels per cell, with little perspective; corners are judged to half a pixel",
                      "the filter is not longer than the row it runs over; a board shows no identity twice (the code then ends the process)"]
    c.finish()


if __name__ == "__main__":
    main(run)
