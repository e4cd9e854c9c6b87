"""C17: property trees store values under their path."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, h

NAMES = ["a", "b", "c", "camera", "max_iter", "x1", "A", "d-e", "f.g"]
WORDS = ["", "hello", "true", "false", "1", "0", "-7", "42", "2.5", "1e3", "+3", "007", "-0", "2147483647", "2147483648", "-2147483648", "99999999999", "1.5e-3",
         "0x10", "12abc", "1e", ".5", "5.", ".", "-", "1,5", "1 2", "yes", "TRUE", "True", "a&b<c>\"d'", "semi;colon", "key=value", "[x]", "# no", "é\u4e2d", "a\\nb", "\\", "{", "}", "\"q"]
ODD = [" lead", "trail ", " ", "   ", "two\nlines", "\t", "tab\there", "\n", " 3 ", " true", "a  b"]


def hx(s):
    return s.encode().hex() or "-"


class Gen:
    def __init__(self, r, ini):
        self.r, self.o, self.nodes, self.keys, self.ini = r, [], [], [], ini
        self.names = r.sample(NAMES, 3)
        self.files = []

    def rel(self, most=3):
        r = self.r
        return "/".join(r.choice(self.names) for _ in range(1 if self.ini and r.random() < .9 else r.choice([1, 1, 2, most])))

    def key(self):
        r = self.r
        if r.random() < .04:
            return r.choice(["", "/"])
        return ("/" if r.random() < .3 else "") + self.rel()

    def value(self, t):
        r = self.r
        if t == "d":
            return h(r.choice([0., -0., 1., 2., .1, 1 / 3, -1e300, 5e-324, 1.7976931348623157e308, 1e-9, r.uniform(-1, 1), r.gauss(0, 1) * 10 ** r.randint(-30, 30), float(r.randint(-10, 10))]))
        if t == "i":
            return str(r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randint(-100, 100), r.randint(-2 ** 31, 2 ** 31 - 1)]))
        if t == "b":
            return str(r.randrange(2))
        return hx(r.choice(WORDS if self.ini or r.random() < .8 else ODD))

    def step(self):
        r = self.r
        c = r.random()
        if not self.nodes or c < .03:
            n = "T%d" % len(self.nodes)
            self.o.append("tree %s %s" % (n, hx(r.choice(["", "", "/", "a", "/a", "a/b", "/a/"]))))
            self.nodes.append(n)
            return
        p = r.choice(self.nodes)
        if c < .12 and len(self.nodes) < 8:
            n = "N%d" % len(self.nodes)
            if r.random() < .85:
                self.o.append("child %s %s %s" % (n, p, hx(r.choice(["", "/"]) + self.rel() + r.choice(["", "/"]) if r.random() < .9 else r.choice(["", "/"]))))
            else:
                self.o.append("copy %s %s" % (n, p))
            self.nodes.append(n)
            return
        t = r.choice("dibs")
        if c < .4:
            k = self.key()
            self.keys.append(k)
            self.o.append("set %s %s %s %s" % (p, t, hx(k), self.value(t)))
            return
        k = r.choice(self.keys) if self.keys and r.random() < .75 else self.key()
        if c < .62:
            self.o.append("get %s %s %s" % (p, t, hx(k)))
        elif c < .76:
            self.o.append("getd %s %s %s %s %d" % (p, t, hx(k), self.value(t), r.randrange(2)))
        elif c < .84:
            self.o.append("exist %s %s" % (p, hx(k)))
        elif c < .93:
            fmt = r.choice(["xml", "ini", "info"]) if not self.ini else "ini"
            f = "f%d.%s" % (r.randrange(4), fmt)
            self.files.append((f, fmt))
            self.o.append("save %s %s %s" % (p, fmt, f))
            if r.random() < .4:
                self.o.append("load %s %s %s" % (p if r.random() < .5 else r.choice(self.nodes), fmt, f))
        elif c < .98:
            f, fmt = r.choice(self.files) if self.files else ("f9", "xml")
            if r.random() < .15:
                f = "f8." + fmt
            self.o.append("load %s %s %s" % (p, fmt, f))
        else:
            f, fmt = r.choice([("j1", "xml"), ("j2", "ini"), ("j3", "info")])
            self.o.append("junk %s %s" % (f, hx({"xml": "<a><b>1</b>", "ini": "[s]\nnothing", "info": "a { b 1"}[fmt])))
            self.o.append("load %s %s %s" % (p, fmt, f))


def script(r, n, ini):
    g = Gen(r, ini)
    for _ in range(n):
        g.step()
    return "\n".join(g.o)


def run():
    c = Check("C17")
    c.build("proptree")
    c.design("PropTreeMC", "PropTreeMCdeep.cfg" if c.thorough else None, timeout=800)
    r = c.rng
    S = [("tree-%d" % k, script(r, 60, False)) for k in range(c.n(150, 3000))]
    S += [("ini-%d" % k, script(r, 50, True)) for k in range(c.n(60, 1000))]
    S += [("nonfinite-%d" % k, "tree T -\nset T d %s %s\nget T s %s\nget T d %s" % (hx("x"), x, hx("x"), hx("x"))) for k, x in enumerate(["inf", "-inf", "nan"])]
    c.conform("PropTreeTrace", "proptree", S, timeout=800)
    c.assumptions += ["names hold letters, digits and .-_ only; an INI file is judged on trees it can hold (sections of keys, one-line texts without surrounding space)",
                      "a path that only leads to other paths holds the empty text"]
    c.finish()


if __name__ == "__main__":
    main(run)
