"""C18: stored data is read back exactly and damaged data is refused."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h, hv

NAMES = ["a", "B", "T_cam0", "x" * 32, "n1", "z9_", "data", "Data"]
BAD = ["", "1a", "_a", "a b", "a-b", "x" * 33, "a!", "\u00e9"]


def hx(s):
    return s.encode().hex() or "-"


class Ama:
    def __init__(self, r):
        self.r, self.o, self.files = r, [], []
        self.names = r.sample(NAMES, r.randint(2, 4))

    def name(self):
        r = self.r
        return r.choice(self.names) if r.random() < .95 else r.choice(BAD)

    def num(self):
        r = self.r
        return h(r.choice([0., -0., 1., r.uniform(-9, 9), 5e-324, 1.7e308, float("inf"), r.gauss(0, 1) * 10. ** r.randint(-200, 200), 2.2604e-310]))

    def some(self):
        r = self.r
        n = 0 if r.random() < .7 else r.randint(1, 3)
        return "%d %s" % (n, " ".join(hx(r.choice(self.names)) for _ in range(n)))

    def step(self):
        r = self.r
        a = r.choice("AAB")
        c = r.random()
        if c < .4:
            how = r.choice(["matrix", "xd", "vector", "vxd", "scalar", "string", "string", "create"])
            k = hx(self.name())
            if how == "string":
                self.o.append("set %s string %s %s" % (a, k, hx(r.choice(["", "x", "B", "AB", "S" * 40, "line\nbreak", "A" * 33, " ", "a\0b", "\0", "x" * r.randrange(300)]))))
                return
            n, m = r.choice([(1, 1), (0, 0), (2, 0), (0, 3), (3, 1), (1, 4), (2, 3), (3, 2), (7, 7), (r.randint(1, 5), r.randint(1, 5))])
            if how in ("matrix", "xd", "create"):
                d = "%d %d " % (n, m) + ("%d " % r.randrange(2) if how == "create" else "")
            elif how == "scalar":
                n, m, d = 1, 1, ""
            else:
                m, d = 1, "%d " % n
            self.o.append("set %s %s %s %s%s" % (a, how, k, d, " ".join(self.num() for _ in range(n * m))))
        elif c < .55:
            self.o.append("get %s %s %s" % (a, r.choice(["matrix", "vector", "scalar", "string", "find"]), hx(self.name())))
        elif c < .62:
            self.o.append("clear %s %s" % (a, hx(self.name())))
        elif c < .64:
            self.o.append("clearall %s" % a)
        elif c < .67:
            self.o.append("new %s" % a)
        elif c < .7:
            self.o.append("copy %s %s" % (a, r.choice("AB")))
        elif c < .83:
            f = r.choice("fg")
            self.o.append("%s %s %s %s" % (r.choice(["save", "stream", "append"]), a, f, self.some()))
            if r.random() < .3:
                self.o.append("load %s %s %s" % (r.choice("AB"), f, self.some()))
        elif c < .9:
            f = r.choice("fg")
            self.o.append("save %s %s 0" % (a, f))
            if r.random() < .6:
                self.o.append("cut %s %d" % (f, r.choice([0, 1, 5, 33, 34, 37, 41, 42, 43, 50, r.randrange(200), r.randrange(800)])))
            else:
                self.o.append("damage %s %d %s" % (f, r.choice([0, 0, 1, 2]), r.choice(["start", "end", "name", "rows", "cols"])))
            self.o.append("load %s %s %s" % (r.choice("AB"), f, self.some()))
        else:
            self.o.append("load %s %s %s" % (a, r.choice("fgh"), self.some()))


def ama(r, n):
    g = Ama(r)
    for _ in range(n):
        g.step()
    return "\n".join(g.o)


def cuts(r):
    """one archive cut at every byte"""
    g = Ama(r)
    g.o += ["set A matrix %s 1 1 %s" % (hx("m"), g.num()), "set A string %s %s" % (hx("s"), hx("xyz"))]
    for k in range(0, 92):
        g.o += ["save A f 0", "cut f %d" % k, "new B", "load B f 0"]
    return "\n".join(g.o)


TYPES = """MatrixXd VectorXd RowVectorXd Matrix3d Matrix2Xd MatrixX3d MatrixXi RowMajor MatrixXf Transformation UncertainTransformation
HomogeneousPoint UncertainHomogeneousPoint UncertainVector3 UncertainVector2 Time Duration FrameId LandmarkId Mat Point2f KeyPoint Image
ImageMask Camera Camera Target Observation Detector CheckerOptions CircleOptions AprilOptions DetectorOptions Keypoint Landmark Frame0 Frame1 Frame2
Transformations Cameras Observations Times""".split()


def ser(r, types, n):
    """objects of a few types, written and read in every format; some files lose their end"""
    o, files, slots = [], {}, {}
    for _ in range(n):
        t = r.choice(types)
        s, f, k = t + r.choice("ab"), t + r.choice("fg"), r.choice(["bin", "txt", "xml"])
        if s not in slots or r.random() < .3:
            slots[s] = 1
            o.append("make %s %s %d" % (s, t, r.randrange(10 ** 9)))
        if f not in files or r.random() < .6:
            files[f] = k
            o.append("save %s %s %s" % (s, f, k))
        if r.random() < .35:
            o.append("cut %s %d" % (f, r.choice([-r.randrange(30, 90), -r.randrange(30, 400), r.randrange(60), 0] if files[f] == "xml" else
                                                 [-1, -1, -2, -3, -r.randrange(1, 40), -r.randrange(1, 400), r.randrange(60), 0])))
        s = t + r.choice("abc")
        o.append("make %s %s %d" % (s, t, r.randrange(10 ** 9)))
        o.append("load %s %s %s" % (s, f, files[f]))
        slots.pop(s, 0)
    return "\n".join(o)


def run():
    c = Check("C18")
    c.build("ama")
    c.build("ser")
    c.design("ArchiveMC", "ArchiveMCdeep.cfg" if c.thorough else None, timeout=800)
    r = c.rng
    S = [("ama-%d" % k, ama(r, 40)) for k in range(c.n(150, 3000))]
    S += [("cuts-%d" % k, cuts(r)) for k in range(c.n(1, 10))]
    c.conform("ArchiveTrace", "ama", S, timeout=800)
    S = [("ser-%d" % k, ser(r, TYPES, 25)) for k in range(c.n(60, 1500))]
    S += [("all-%d-%s" % (k, t), ser(r, [t], 12)) for k in range(c.n(1, 20)) for t in sorted(set(TYPES))]
    c.conform("SerialTrace", "ser", S, timeout=800)
    c.assumptions += ["a change inside the contents of an entry cannot be seen in this format and is not judged"]
    c.finish()


if __name__ == "__main__":
    main(run)
