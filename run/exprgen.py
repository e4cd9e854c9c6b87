"""Random expression graphs and histories of their design variables."""
import math

from vlib import h, hv, hmat


def vec(r, n, s=2.0):
    return [r.uniform(-s, s) for _ in range(n)]


def unit(r, n=4, w=None):
    while True:
        v = [r.gauss(0, 1) for _ in range(n)]
        if w is not None:
            v[3] = w + abs(v[3])
        m = math.sqrt(sum(x * x for x in v))
        if m > .2:
            return [x / m for x in v]


def rotation(r):
    x, y, z, w = unit(r)
    return [[x * x - y * y - z * z + w * w, 2 * (x * y + z * w), 2 * (x * z - y * w)],
            [2 * (x * y - z * w), -x * x + y * y - z * z + w * w, 2 * (y * z + x * w)],
            [2 * (x * z + y * w), 2 * (y * z - x * w), -x * x - y * y + z * z + w * w]]


def transformation(r):
    C = rotation(r)
    t = vec(r, 3, 3)
    return [C[0] + [t[0]], C[1] + [t[1]], C[2] + [t[2]], [0, 0, 0, 1]]


DIM = dict(scalar=1, point=3, mpoint=3, dir=2, rot=3, mrot=3, hom=3, mhom=3, vec1=1, vec3=3, vec4=4, mvec3=3)


class Graph:
    def __init__(self, r):
        self.r, self.out, self.kinds, self.dvs, self.div = r, [], [], [], []
        self.size = []

    def dv(self, k):
        r = self.r
        pat = None
        if k == "scalar":
            x = [r.choice([-1, 1]) * r.uniform(.6, 3)]
        elif k in ("rot", "mrot", "vec4"):
            x = unit(r)
            if r.random() < .15:
                x = [0, 0, 0, 1.0]
        elif k in ("hom", "mhom"):
            x = unit(r, 4, .6)
            if r.random() < .5:
                x = [2 * a for a in x]
        elif k == "vec1":
            x = vec(r, 1)
        elif k == "matb":
            x = [v for _ in range(3) for v in vec(r, 3)]
            while True:
                pat = [r.randint(0, 1) for _ in range(9)] if r.random() < .7 else [1] * 9
                if sum(pat):
                    break
        else:
            x = vec(r, 3)
        self.out.append("dv %s %s%s" % (k, hv(x), " " + hv(pat) if pat else ""))
        self.dvs.append((k, sum(pat) if pat else DIM[k]))
        self.kinds.append({"scalar": "s", "rot": "r", "mrot": "r", "hom": "h", "mhom": "h", "vec1": "w", "vec3": "v",
                           "vec4": "u", "mvec3": "v", "matb": "m"}.get(k, "e"))
        self.div.append(k == "scalar")
        self.size.append(1)
        return len(self.kinds)

    def node(self, f, kind, args=(), const="", div=False):
        self.out.append("node %s %s %s" % (f, " ".join(map(str, args)), const))
        self.kinds.append(kind)
        self.div.append(div)
        self.size.append(1 + sum(self.size[a - 1] for a in args))
        return len(self.kinds)

    def any(self, kind):
        c = [i + 1 for i, k in enumerate(self.kinds) if k == kind and self.size[i] < 24]
        if not c:
            c = [i + 1 for i, k in enumerate(self.kinds) if k == kind]
        # later ones more often, for depth
        return c[max(self.r.randrange(len(c)), self.r.randrange(len(c)))] if c else None

    def grow(self):
        r, a = self.r, self.any
        f = r.choice(["s_add", "s_sub", "s_mul", "s_div", "s_addc", "s_subc", "s_mulc", "s_divc", "e_add", "e_sub", "e_cross",
                      "e_elem", "e_neg", "e_subc", "e_scale", "e_hom", "h_euc", "r_mul", "r_inv", "r_rot", "r_rv", "r_ypr",
                      "r_rod", "t_make", "t_mul", "t_inv", "t_rot", "t_pos", "t_hom", "m_mul", "v_euc", "w_sca", "u_rot",
                      "const_s", "const_e", "const_h", "const_h3", "const_t", "t_make", "r_mul", "t_mul", "r_rot", "e_add"])
        k = {"s": "s", "e": "e", "h": "h", "r": "r", "t": "t"}.get(f[0])
        sig = dict(s_add="ss", s_sub="ss", s_mul="ss", s_div="sd", s_addc="s", s_subc="s", s_mulc="s", s_divc="s", e_add="ee",
                   e_sub="ee", e_cross="ee", e_elem="ee", e_neg="e", e_subc="e", e_scale="es", e_hom="e", h_euc="h", r_mul="rr",
                   r_inv="r", r_rot="re", r_rv="r", r_ypr="r", r_rod="r", t_make="re", t_mul="tt", t_inv="t", t_rot="t",
                   t_pos="t", t_hom="th", m_mul="me", v_euc="v", w_sca="w", u_rot="u").get(f, "")
        out = dict(h_euc="e", r_rot="e", r_rv="e", r_ypr="e", r_rod="e", t_rot="r", t_pos="e", t_hom="h", m_mul="e",
                   v_euc="e", w_sca="s", u_rot="r", e_hom="h").get(f, k)
        if f.startswith("const"):
            c = f[6:]
            x = {"s": lambda: h(r.choice([-1, 1]) * r.uniform(.6, 3)), "e": lambda: hv(vec(r, 3)), "h": lambda: hv(vec(r, 3) + [r.uniform(.6, 2)]),
                 "h3": lambda: hv(vec(r, 3)), "t": lambda: hmat(transformation(r))}[c]()
            return self.node(f, c[0], (), x, div=(c == "s"))
        args = []
        for s in sig:
            if s == "d":
                c = [i + 1 for i, d in enumerate(self.div) if d]
                i = r.choice(c) if c else None
            elif f == "h_euc":   # away from infinity
                c = [i + 1 for i, q in enumerate(self.kinds) if q == "h" and self.size[i] < 8]
                i = r.choice(c) if c else None
            elif f in ("r_rv", "r_ypr", "r_rod"):
                i = self.safe_rotation()
            else:
                i = a(s)
            if i is None:
                return None
            args.append(i)
        if sum(self.size[x - 1] for x in args) > 30:
            return None
        const = {"s_addc": lambda: h(r.uniform(-3, 3)), "s_subc": lambda: h(r.uniform(-3, 3)), "s_mulc": lambda: h(r.uniform(-3, 3)),
                 "s_divc": lambda: h(r.choice([-1, 1]) * r.uniform(.5, 3)), "e_subc": lambda: hv(vec(r, 3))}.get(f, lambda: "")()
        return self.node(f, out, args, const)

    def safe_rotation(self):
        """A rotation whose parameters are regular: a rotation by a moderate angle."""
        if not hasattr(self, "saferot"):
            v = vec(self.r, 3, .55)
            n = math.sqrt(sum(x * x for x in v))
            q = [x / n * math.sin(n / 2) for x in v] + [math.cos(n / 2)]
            self.out.append("dv rot " + hv(q))
            self.safedv = len(self.dvs)
            self.dvs.append(("rot", 3))
            self.kinds.append("r")
            self.div.append(False)
            self.size.append(40)      # not used elsewhere
            self.saferot = len(self.kinds)
        if self.r.random() < .4:
            self.node("r_inv", "r", [self.saferot])
            self.size[-1] = 40
            return len(self.kinds)
        return self.saferot

    def step(self):
        r = self.r
        i = r.randrange(len(self.dvs))
        k, n = self.dvs[i]
        x = r.random()
        if x < .45 and k != "vec4":
            s = r.choice([1e-9, 1e-4, .02, .02]) if k in ("scalar", "hom", "mhom", "rot", "vec1") else r.choice([1e-9, 1e-5, 1e-4, .05, .5, 2])
            self.out.append("update %d %d %s" % (i + 1, n, hv(vec(r, n, s))))
            if r.random() < .4:
                self.out.append("revert %d" % (i + 1))
        elif x < .6:
            self.out.append("active %d %d" % (i + 1, r.randint(0, 1)))
        elif x < .75 and k in ("rot", "mrot", "hom", "mhom", "point", "mpoint", "scalar", "vec1", "vec3", "mvec3"):
            if k in ("rot", "mrot", "hom", "mhom"):
                y = [[v] for v in unit(r)]
            else:
                y = [[v] for v in vec(r, 1 if k in ("scalar", "vec1") else 3)]
            self.out.append("mindiff %d 0 0" % (i + 1) if r.random() < .25 else "mindiff %d %d 1 %s" % (i + 1, len(y), hmat(y)))
        elif x < .85 and k in ("point", "mpoint", "mrot", "vec3", "mvec3", "rot", "hom", "mhom", "scalar", "vec1") and i != getattr(self, "safedv", None):
            y = (unit(r) if k in ("rot", "mrot") else unit(r, 4, .6) if k in ("hom", "mhom")
                 else [r.choice([-1, 1]) * r.uniform(.6, 3)] if k == "scalar" else vec(r, 1 if k == "vec1" else 3))
            y = [[v] for v in y]
            self.out.append("set %d %d 1 %s" % (i + 1, len(y), hmat(y)))
