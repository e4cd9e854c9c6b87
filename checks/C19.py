"""C19: concurrent helpers lose no work and never hang."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "run"))
from vlib import Check, main


class Prog:
    def __init__(self, r, runs):
        self.r, self.o, self.runs = r, [], runs

    def t(self, k, *a):
        self.o.append("t %d %s" % (k, " ".join(map(str, a))))

    def end(self):
        r = self.r
        for _ in range(self.runs):
            self.o.append("run %s %d" % (r.choice(["rand", "p", "p", "slow", "slow"]), r.randint(0, 1 << 30)))
        return "\n".join(self.o)


def queue(r, runs):
    p = Prog(r, runs)
    w = r.choice([1, 1, 2, 2, 3, 4])
    nj = [0]
    futs = {}

    def give(k, child=True):
        nj[0] += 1
        j = nj[0]
        if r.random() < .3:
            p.t(k, "fut", j, r.randint(0, 3), int(r.random() < .3))
            futs.setdefault(k, []).append(j)
        else:
            c = 0
            if child and r.random() < .25:
                nj[0] += 1
                c = nj[0]
            p.t(k, "sched", j, r.randint(0, 4), c)

    p.t(0, "new")
    early = r.random() < .4
    if early:
        for _ in range(r.randint(1, 3)):
            give(0)
    if r.random() < .05:  # never started
        p.t(0, "empty")
        p.t(0, r.choice(["stop", "empty"]))
        p.t(0, r.choice(["join", "yield 1"]))
        p.t(0, "del")
        return p.end()
    p.t(0, "start", w)
    if r.random() < .08:  # and is not wanted any more
        for _ in range(r.randint(0, 1)):
            give(0)
        p.t(0, "yield", r.randint(0, 9))
        p.t(0, "del")
        return p.end()
    others = r.randint(0, 2)
    for k in range(1, others + 1):
        p.t(0, "spawn", k)
        for _ in range(r.randint(1, 4)):
            c = r.random()
            if c < .6:
                give(k)
            elif c < .75:
                p.t(k, "empty")
            elif c < .85:
                p.t(k, "wait")
            elif futs.get(k):
                p.t(k, "get", futs[k].pop())
            else:
                p.t(k, "yield", r.randint(1, 4))
    quiet = r.random() < .5    # everything is waited for
    for _ in range(r.randint(0, 5)):
        c = r.random()
        if c < .55:
            give(0)
        elif c < .65:
            p.t(0, "empty")
        elif c < .75:
            p.t(0, "wait")
        elif c < .85 and futs.get(0):
            p.t(0, "get", futs[0].pop())
        else:
            p.t(0, "yield", r.randint(1, 6))
    reaped = r.random() < .6
    wait_free = all("wait" not in x and "get" not in x for x in p.o if not x.startswith("t 0 "))
    if not wait_free:
        reaped = True
    if reaped:
        for k in range(1, others + 1):
            p.t(0, "reap", k)
    if quiet:
        p.t(0, "wait")
        if reaped:
            p.t(0, "empty")
    how = r.choice(["stop join", "join", "join", "stop", "none", "join join"])
    for f in how.split():
        if f != "none":
            p.t(0, f)
    if r.random() < .2 and "join" in how:
        give(0, False)
        p.t(0, "empty")
    if not reaped:
        for k in range(1, others + 1):
            p.t(0, "reap", k)
    p.t(0, "del")
    return p.end()


def mutex(r, runs):
    p = Prog(r, runs)
    rec = int(r.random() < .5)
    p.t(0, "mnew", "m", rec)
    ks = list(range(1, r.randint(2, 4)))
    for k in ks:
        p.t(0, "spawn", k)
    for k in ks + [0]:
        held = 0
        for _ in range(r.randint(2, 7)):
            c = r.random()
            if held == 0:
                if c < .7:
                    p.t(k, "lock", "m")
                    held = 1
                elif c < .8:
                    p.t(k, "unlock", "m")      # refused
                elif c < .9:
                    p.t(k, "wunlock", "m")
                else:
                    p.t(k, "locks", "m")
            else:
                if c < .3:
                    p.t(k, r.choice(["lock", "trylock", "tlock"]), "m")
                    held += rec
                elif c < .5:
                    p.t(k, "locks", "m")
                elif c < .6:
                    p.t(k, "yield", r.randint(1, 5))
                else:
                    p.t(k, "unlock", "m")
                    held -= 1
        for _ in range(held):
            p.t(k, "unlock", "m")
    for k in ks:
        p.t(0, "reap", k)
    p.t(0, "locks", "m")
    return p.end()


def tries(r, runs):
    """trylock may fail: what follows cannot depend on it, so it comes last."""
    p = Prog(r, runs)
    p.t(0, "mnew", "m", int(r.random() < .5))
    for k in (1, 2, 3):
        p.t(0, "spawn", k)
        for _ in range(r.randint(0, 2)):
            p.t(k, "lock", "m")
            p.t(k, "yield", r.randint(0, 3))
            p.t(k, "unlock", "m")
    a = r.choice([1, 2, 3])
    p.t(a, r.choice(["trylock", "tlock"]), "m")
    p.t(a, "unlock", "m")  # refused if it failed
    for k in (1, 2, 3):
        p.t(0, "reap", k)
    p.t(0, "trylock", "m")
    p.t(0, "unlock", "m")
    return p.end()


def conds(r, runs):
    """A signal always comes after the waiting began: the signaller is made inside the lock."""
    p = Prog(r, runs)
    p.t(0, "mnew", "m", int(r.random() < .3))
    p.t(0, "cnew", "c")
    n = r.randint(1, 3)
    timed = r.random() < .4
    for k in range(n):
        p.t(k, "lock", "m")
        p.t(k, "spawn", k + 1)
        p.t(k, "ctwait" if timed and r.random() < .7 else "cwait", "c", "m")
        if r.random() < .5:
            p.t(k, "locks", "m")
        p.t(k, "yield", r.randint(0, 3))
        p.t(k, "unlock", "m")
    p.t(n, "lock", "m")
    held = r.random() < .7
    if not held:
        p.t(n, "unlock", "m")
    if r.random() < .5:
        p.t(n, "bcast", "c")
    else:
        for _ in range(n):
            p.t(n, "signal", "c")
    if held:
        p.t(n, "unlock", "m")
    for k in range(n):
        p.t(k, "reap", k + 1)
    return p.end()


def thread(r, runs):
    p = Prog(r, runs)
    cycle = r.choice(["-1", "0", "inf", "inf"])
    p.t(0, "tnew", cycle, r.randint(0, 4))
    for _ in range(r.randint(1, 2)):
        if r.random() < .2:
            p.t(0, r.choice(["tbusy", "texists", "tint"]))
        p.t(0, "tstart")
        for _ in range(r.randint(0, 3)):
            p.t(0, r.choice(["tbusy", "texists", "ttrig", "yield 1", "yield 3"]))
        if cycle == "-1":
            # the trigger ends the pause after the work, if there is one
            p.t(0, r.choice(["tint", "twait"]))
        else:
            if r.random() < .3:
                p.t(0, "tint0")
                p.t(0, "twait")
            elif r.random() < .3:
                p.t(0, "spawn", 1)
                p.o = [x for x in p.o if not x.startswith("t 1 ")]
                p.t(1, "tint")
                p.t(0, "twait")
                p.t(0, "reap", 1)
            else:
                p.t(0, "tint")
        p.t(0, r.choice(["tbusy", "texists"]))
    p.t(0, "tdel")
    return p.end()


def run():
    c = Check("C19")
    c.build("conc")
    c.design("JobQueueMC", "JobQueueMCdeep.cfg" if c.thorough else None, timeout=600)
    r = c.rng
    runs = c.n(12, 60)
    s = []
    for kind, n in ((queue, c.n(130, 700)), (mutex, c.n(40, 250)), (tries, c.n(25, 150)), (conds, c.n(40, 250)), (thread, c.n(40, 250))):
        s += [("%s-%d" % (kind.__name__, i), kind(r, runs)) for i in range(n)]
    c.conform("ConcTrace", "conc", s, timeout=600)
    c.assumptions += [
        "the code synchronises through POSIX mutexes, conditions and threads only: the scheduler switches at these; "
        "unprotected accesses between them are ordered as one processor would order them",
        "the preconditions of the library: jobs do not throw unless a future carries the exception, the queue is waited for only "
        "when it runs and is not stopped, a derived thread is interrupted before it is destroyed",
    ]
    c.finish()


main(run)
