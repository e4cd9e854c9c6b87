"""What every check shares: build, model check, drive the code, validate traces, report.

A check is a Python file in /verif/checks that fills in a Check object:

    c = Check("C07", level="model_checking")
    c.build("sparse")                            # driver target, from /repo's working tree
    c.design("SparseBlockMC")                    # exhaustive TLC run of the design
    scripts = [...]                              # list of (script id, text)
    c.conform("SparseBlockTrace", "sparse", scripts)
    c.finish()
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import resource
import sys
import tempfile
import time

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
SPEC = os.path.join(ROOT, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVACLS = os.path.join(BUILD, "java")
NCPU = 8


class BrokenCheck(Exception):
    """The check itself could not run: neither a pass nor a violation."""


def sh(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, input=stdin,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def compile_java():
    srcs = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    h = hashlib.sha256("".join(open(s).read() for s in srcs).encode()).hexdigest()
    stamp = os.path.join(JAVACLS, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(JAVACLS, exist_ok=True)
    r = sh(["javac", "-cp", TLAJARS, "-d", JAVACLS] + srcs)
    if r.returncode:
        raise BrokenCheck("javac: " + r.stdout)
    with open(stamp, "w") as f:
        f.write(h)


def configure():
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(os.path.join(BUILD, "build.ninja")):
        r = sh(["cmake", "-S", os.path.join(ROOT, "harness"), "-B", BUILD, "-G", "Ninja", "-DREPO=" + REPO,
                "-DCMAKE_BUILD_TYPE=", "-DCMAKE_C_FLAGS=-O1", "-DCMAKE_CXX_FLAGS=-O1"],
               env={"CC": "gcc", "CXX": "g++"})
        if r.returncode:
            raise BrokenCheck("cmake: " + r.stdout[-4000:])


def ninja(targets):
    configure()
    r = sh(["ninja", "-C", BUILD] + targets)
    if r.returncode:
        raise BrokenCheck("build of %s failed:\n%s" % (targets, r.stdout[-6000:]))


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else None
        self.ok = "No error has been found" in out
        self.coverage = None


def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=800, heap="2g", work=None):
    compile_java()
    meta = os.path.join(work or os.path.join(BUILD, "work"), "meta-%d-%d" % (os.getpid(), random.getrandbits(40)))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + meta,
           "-cp", ":".join([JAVACLS, TLAJARS]), "-DTLA-Library=" + SPEC, "tlc2.TLC",
           "-config", cfg or module + ".cfg", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-nowarning"] + list(args) + [module + ".tla"]
    try:
        r = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise BrokenCheck("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.stdout, r.returncode)


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    return json.load(open(path))["known"] if os.path.exists(path) else []


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop + "-%d" % os.getpid())
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.lines = 0
        self.samples, self.assumptions, self.violations, self.known_hit = [], [], [], []
        self.ops = {}
        self.designs = []
        self.known = [k for k in load_known() if k.get("property") == prop]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ build
    def build(self, *drivers):
        ninja(["drv_" + d for d in drivers])

    # ----------------------------------------------------------------- design
    def design(self, module, cfg=None, workers=NCPU, timeout=600, args=(), heap="4g"):
        """Exhaustive model checking of the design: every invariant in every state."""
        t = time.time()
        r = tlc(module, cfg, workers=workers, timeout=timeout, args=args, heap=heap, work=self.work)
        if not r.ok:
            raise BrokenCheck("the design %s does not satisfy its own properties:\n%s" % (cfg or module, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.designs.append(dict(model=cfg or module, states=r.distinct, transitions=r.generated,
                                 wall_s=round(time.time() - t, 1)))
        return r

    def behaviours(self, module, cfg=None, num=None, depth=None, seed=None, timeout=300, workers=1):
        """Behaviours of a generator specification: what it prints as "@@ json" lines.

        With num, TLC simulates num random behaviours; without it, TLC explores exhaustively."""
        args = []
        if num:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)]
        r = tlc(module, cfg, workers=workers, timeout=timeout, args=args, work=self.work)
        out = []
        for ln in r.out.split("\n"):
            m = re.match(r'^"@@ (.*)"$', ln)
            if m:
                out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        if not out:
            raise BrokenCheck("no behaviours from %s:\n%s" % (module, r.out[-3000:]))
        self.transitions += r.generated
        return out

    # ------------------------------------------------------------ conformance
    def drive(self, driver, text, timeout=150, env=None, cmd=None):
        """Runs a script on the real code; returns the observations (a crash is one too)."""
        cmd = cmd or [os.path.join(BUILD, "bin", "drv_" + driver)]
        e = dict(os.environ)
        e.update(env or {})
        def limits():  # code that runs away ends instead of taking the machine with it
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            resource.setrlimit(resource.RLIMIT_FSIZE, (400 << 20, 400 << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        with tempfile.TemporaryFile(dir=self.work) as f, tempfile.TemporaryFile(dir=self.work) as g, tempfile.TemporaryFile(dir=self.work) as script:
            script.write(text.encode())
            script.seek(0)
            p = subprocess.Popen(cmd, stdin=script, stdout=f, stderr=g, env=e, cwd=self.work, preexec_fn=limits)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            f.seek(0)
            out = f.read(400 << 20).decode(errors="replace")
            g.seek(0)
            err = g.read(1 << 20).decode(errors="replace")
        recs = []
        for ln in out.split("\n"):
            if ln.startswith("{"):
                try:
                    r = json.loads(ln)
                    # no honest observation is this long, and TLC need not read it to refuse it
                    recs.append(r if len(ln) < (4 << 20) else {"op": "runaway", "of": r.get("op"), "bytes": len(ln)})
                except ValueError:
                    pass
        if rc != 0:
            # A script the driver cannot follow is broken, unless an observation before was refused.
            recs.append({"op": "script-error" if "script:" in err else "crash", "how": str(rc), "err": err[-300:]})
        return recs

    def run_scripts(self, driver, scripts, timeout=150, env=None, cmd=None):
        """{id: observations}; a script the driver did not survive ends with a "crash" record."""
        result = {}
        todo = list(scripts)
        guard = 0
        while todo:
            text = "".join("begin %s\n%s\n" % (i, t) for i, t in todo)
            recs = self.drive(driver, text, min(timeout, 180), env, cmd)
            cur, order = None, []
            for r in recs:
                if r["op"] == "begin":
                    cur = r["id"]
                    order.append(cur)
                    result[cur] = []
                elif cur is not None:
                    result[cur].append(r)
                else:
                    raise BrokenCheck("driver %s: %s" % (driver, r))
            if not recs or recs[-1]["op"] not in ("crash", "script-error"):
                missing = [i for i, _ in todo if i not in result]
                if missing:
                    raise BrokenCheck("driver %s gave no answer to %s" % (driver, missing[:5]))
                break
            done = set(order)
            todo = [(i, t) for i, t in todo if i not in done]
            guard += 3 if recs[-1].get("how") == "timeout" else 1
            if guard > 6:
                for i, _ in todo:
                    result[i] = None
                break
        return {i: r for i, r in result.items() if r is not None}

    def validate(self, module, runs, cfg=None, env=None, timeout=600):
        """Checks recorded runs [(id, records)] against a trace specification.

        Returns (accepted ids, [(id, index of the refused record, reasons)])."""
        accepted, refused = [], []
        rest = list(runs)
        while rest:
            path = os.path.join(self.work, "trace-%d.ndjson" % random.getrandbits(48))
            index = []
            with open(path, "w") as f:
                for i, recs in rest:
                    f.write(json.dumps({"op": "begin", "id": i}) + "\n")
                    index.append((i, -1))
                    for k, r in enumerate(recs):
                        f.write(json.dumps(r) + "\n")
                        index.append((i, k))
            e = {"TRACE": path}
            e.update(env or {})
            r = tlc(module, cfg, env=e, timeout=timeout, work=self.work)
            os.remove(path)
            self.states += r.distinct
            if r.ok and r.depth == len(index) + 1:
                accepted += [i for i, _ in rest]
                break
            if r.depth is not None and "Error: The error" not in r.out and "evaluating" not in r.out:
                at = r.depth - 1
            else:
                m = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
                if not m:
                    raise BrokenCheck("TLC failed on %s:\n%s" % (module, r.out[-4000:]))
                at = int(m[-1]) - 1
            if at >= len(index):
                raise BrokenCheck("TLC failed on %s:\n%s" % (module, r.out[-4000:]))
            why = [w for w in re.findall(r'^<<"REJECT", %d, (.*)>>$' % (at + 1), r.out, re.M)][:6]
            if not why:
                m = re.search(r"Error: (?!The behavior)(?!The error occ)(.*?)(?:\n\n|Error:|$)", r.out, re.S) if not r.ok else None
                why = [m.group(1)[:600] if m else "no transition of the specification matches this observation"]
            bad = index[at][0]
            refused.append((bad, index[at][1], why))
            p = [k for k, (i, _) in enumerate(rest) if i == bad][0]
            accepted += [i for i, _ in rest[:p]]
            rest = rest[p + 1:]
            if len(refused) >= 3:
                break
        return accepted, refused

    def conform(self, module, driver, scripts, cfg=None, batch=None, env=None, timeout=300, cmd=None,
                drvenv=None, samples=2, replayable=True, jobs=NCPU):
        """Runs the scripts on the code and validates what happened against the specification."""
        seen, uniq = set(), []
        for i, t in scripts:
            if i in seen:
                raise BrokenCheck("script id %s twice" % i)
            seen.add(i)
            uniq.append((i, t))
        scripts = uniq
        texts = dict(scripts)
        nb = min(jobs, max(1, len(scripts)))
        groups = [g for g in (scripts[k::nb] for k in range(nb)) if g]

        def one(group):
            runs = self.run_scripts(driver, group, timeout, drvenv, cmd)
            ordered = [(i, runs[i]) for i, _ in group if i in runs]
            return runs, self.validate(module, ordered, cfg, env)

        allruns, refused, accepted = {}, [], []
        with cf.ThreadPoolExecutor(jobs) as ex:
            for runs, (acc, ref) in ex.map(one, groups):
                allruns.update(runs)
                accepted += acc
                refused += ref
        self.traces += len(accepted)
        for i in accepted:
            self.lines += len(allruns[i])
            for r in allruns[i]:
                self.ops[r["op"]] = self.ops.get(r["op"], 0) + 1
        for i in accepted[:samples]:
            self.samples.append(dict(script=texts[i].split("\n")[:6], observed=[_short(r) for r in allruns[i][:3]],
                                     verdict="accepted by " + module))
        for i, at, why in refused:
            if len(self.violations) >= 4:
                break
            rec = allruns[i][at] if at >= 0 else {"op": "begin"}
            if rec["op"] == "script-error":
                raise BrokenCheck("driver %s on %s: %s" % (driver, i, rec["err"]))
            # Once more, alone: what is reported is reproducible.
            if replayable:
                again = self.run_scripts(driver, [(i, texts[i])], timeout, drvenv, cmd)
                _, ref2 = self.validate(module, [(i, again[i])], cfg, env)
                if not ref2:
                    again = self.run_scripts(driver, [(i, texts[i])], timeout, drvenv, cmd)
                    _, ref2 = self.validate(module, [(i, again[i])], cfg, env)
                if not ref2:
                    # Not reproducible alone: the run in its group is the history that fails.
                    group = [g for g in groups if any(j == i for j, _ in g)][0]
                    again = self.run_scripts(driver, group, timeout, drvenv, cmd)
                    _, ref2 = self.validate(module, [(j, again[j]) for j, _ in group if j in again], cfg, env)
                    if not ref2:
                        print("note: a refusal of %s (%s) did not repeat" % (i, why))
                        continue
                else:
                    rec = again[i][ref2[0][1]] if ref2[0][1] >= 0 else rec
                    at, why = ref2[0][1], ref2[0][2]
            self.report(i, texts[i], rec, at, why, module, driver)
        return allruns

    def report(self, i, text, rec, at, why, module, driver):
        for k in self.known:
            if k.get("script") == i or (k.get("script_prefix") and i.startswith(k["script_prefix"])):
                if all(w in json.dumps(rec) + " ".join(map(str, why)) for w in k.get("contains", [])):
                    self.known_hit.append(k)
                    return
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            f.write("# property %s, refused by %s.tla at observation %d\n# reasons: %s\n# observation: %s\n"
                    "# replay: build/bin/drv_%s < this file\n" % (self.prop, module, at, why, json.dumps(rec)[:3000], driver))
            f.write("begin %s\n%s\n" % (i, text))
        self.violations.append((path, why, i))

    # ----------------------------------------------------------------- finish
    def finish(self, extra=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   observations_validated=self.lines, operations=dict(sorted(self.ops.items())),
                   design_models=self.designs, samples=self.samples[:6])
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 1), assumptions=self.assumptions,
                  violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in {k["id"]: k for k in self.known_hit}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for path, why, i in self.violations:
            print("  refused: %s: %s" % (i, "; ".join(map(str, why))[:800]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s: %d design states, %d traces (%d observations) validated, %d violations, %.1f s" % (
            self.prop, self.tier, self.states, self.traces, self.lines, len(self.violations), time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(1 if self.violations else 0)


def _short(r):
    s = json.dumps(r)
    return r if len(s) < 600 else s[:600] + "..."


def main(fn):
    try:
        fn()
    except BrokenCheck as e:
        print("the check could not run: %s" % e)
        sys.exit(3)


# --------------------------------------------------------------- script helpers
def h(x):
    """A double for a script, exactly."""
    return float(x).hex() if x == x and abs(x) != float("inf") else str(x)


def hv(v):
    return " ".join(h(x) for x in v)


def hmat(m):
    return " ".join(h(x) for row in m for x in row)
