"""C22: inertial error terms compare measurement and prediction."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main, hv, hmat
import exprgen as G

SIG = dict(euclidean="e", accel="reee", accelsize="mreeereeeee", gyro="ee", gyronobias="e", gyrosize="mmreeereee")


def weight(r):
    L = [[r.uniform(.5, 2) if i == j else r.uniform(-.6, .6) if j < i and r.random() < .6 else 0 for j in range(3)] for i in range(3)]
    A = [[sum(L[i][k] * L[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
    return [[A[i][j] if i <= j else A[j][i] for j in range(3)] for i in range(3)]


def script(r, kind):
    g = G.Graph(r)
    sig = SIG[kind]
    for k in ["rot"] * sig.count("r") + ["matb"] * sig.count("m") + [r.choice(["point", "mpoint", "dir", "point"]) for _ in range(r.randint(2, 5))]:
        g.dv(r.choice(["rot", "mrot"]) if k == "rot" else k)
    for _ in range(r.randint(0, 4)):     # some formulas on the way, and constants
        f, s, o = r.choice([("e_add", "ee", "e"), ("e_cross", "ee", "e"), ("r_mul", "rr", "r"), ("r_inv", "r", "r"), ("r_rot", "re", "e"), ("const_e", "", "e"), ("m_mul", "me", "e")])
        a = [g.any(k) for k in s]
        if None not in a:
            g.node(f, o, a, hv(G.vec(r, 3)) if f == "const_e" else "")
    n = r.randint(1, 2)
    for _ in range(n):
        g.out.append("kmake %s %s %s %s" % (kind, hv(G.vec(r, 3)), hmat(weight(r)), " ".join(str(g.any(k)) for k in sig)))
    for k in range(r.randint(1, 3)):
        if k:
            for _ in range(r.randint(1, 3)):
                g.step()
        g.out.append("kerr %d" % r.randint(1, n))
    return "\n".join(g.out)


def run():
    c = Check("C22")
    c.build("imu")
    c.design("RatCheck", "RatCheckdeep.cfg" if c.thorough else None, timeout=800)
    r = c.rng
    kinds = ["accel", "accelsize", "accelsize", "gyro", "gyronobias", "gyrosize", "gyrosize", "euclidean"]
    c.conform("ImuTrace", "imu", [("term-%s-%d" % (kinds[i % 8], i), script(r, kinds[i % 8])) for i in range(c.n(160, 2400))], timeout=800)
    c.assumptions += [
        "derivatives are central differences of the exact residual over a step of 2^-56",
        "values are compared to 2^-31 of the largest number on the way",
        "weights are symmetric and positive definite",
    ]
    c.finish()


main(run)
