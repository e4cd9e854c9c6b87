"""Runs scripts on kalibr's Python: one JSON object per line in, one observation per line out."""
import io
import json
import os
import sys
import tempfile
import time
import types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
stubs.install()
import numpy as np
import importlib
OUT = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)   # the code under test prints
import sys as _s


def out(op, **kw):
    kw["op"] = op
    OUT.write(json.dumps(kw) + "\n")
    OUT.flush()


def ints(m):
    m = np.array(m)
    r = np.round(m * 8)
    return [[int(x) for x in row] for row in r] if np.allclose(m * 8, r, atol=1e-9) else []


class Obs(object):
    def __init__(self, cam, k, corners, n):
        self.cam, self.k, self.corners, self.n = cam, k, corners, n

    def time(self):
        return types.SimpleNamespace(toSec=lambda: self.k / 1024.)

    def getCornersIdx(self):
        return list(self.corners)


def tag(o):
    return 0 if o is None else o.n


class Cams(object):
    def __init__(self):
        self.db = self.graph = None

    # ---- C14
    def op_db(self, tol):
        m = importlib.import_module("kalibr_camera_calibration.ObsDb")
        self.db = m.ObservationDatabase(tol / 1024.)
        self.n = 0
        out("db", tol=tol)

    def op_add(self, cam, t, corners):
        e = len(stubs.logged["error"])
        self.n += 1
        self.db.addObservation(cam, Obs(cam, t, corners, self.n))
        out("add", cam=cam, t=t, corners=sorted(corners), n=self.n, err=len(stubs.logged["error"]) > e)

    def op_views(self):
        d = self.db
        v = []
        for t in d.getAllViewTimestamps():
            v.append(dict(t=int(round(t * 1024)), exact=t * 1024 == round(t * 1024),
                          cams=[dict(cam=c, n=tag(d.getObservationAtTime(t, c)), corners=sorted(d.getCornerIdsAtTime(t, c))) for c in d.getCamIdsAtTimestamp(t)],
                          all=[[c, o.n] for c, o in d.getAllObsAtTimestamp(t)]))
        cams = list(range(d.numCameras()))
        out("views", views=v, cams=len(cams), each=[[o.n for o in d.getAllObsCam(c)] for c in cams],
            two=[dict(a=a, b=b, obs=[[tag(x), tag(y)] for x, y in d.getAllObsTwoCams(a, b)]) for a in cams for b in cams if a != b])

    def op_graph(self):
        kcc = sys.modules["kalibr_camera_calibration"]
        m = importlib.import_module("kalibr_camera_calibration.MulticamGraph")
        self.kcc, self.graph = kcc, m.MulticamCalibrationGraph(self.db)
        g = self.graph
        n = self.db.numCameras()
        mutual = []
        for a in range(n):
            for b in range(n):
                if a != b:
                    x, y = g.getAllMutualObsBetweenTwoCams(a, b)
                    mutual.append(dict(a=a, b=b, x=[o.n for o in x], y=[o.n for o in y]))
        out("graph", n=n, edges=[dict(a=min(e.tuple), b=max(e.tuple), w=e["weight"]) for e in g.G.es], connected=bool(g.isGraphConnected()),
            overlaps=[sorted(g.getCamOverlaps(c)) for c in range(n)], mutual=mutual)

    def op_guess(self, poses):
        """poses: T_c_w of every camera, whole numbers"""
        T = [stubs.Transformation(p) for p in poses]
        pairs = []

        def stereo(a, b, obs, **kw):
            pairs.append(dict(a=a.id, b=b.id, obs=[[tag(x), tag(y)] for x, y in obs]))
            return True, T[b.id] * T[a.id].inverse()
        self.kcc.stereoCalibrate = stereo
        self.kcc.solveFullBatch = lambda cams, base, graph: (True, base)
        cams = [types.SimpleNamespace(id=i) for i in range(len(T))]
        how = ""
        base = []
        try:
            base = self.graph.getInitialGuesses(cams)
        except SystemExit:
            how = "exit"
        out("guess", poses=[ints(p) for p in poses], base=[ints(b.T()) for b in base], how=how, pairs=pairs)

    def op_pose(self, view, poses, target):
        """the target's pose as the camera that sees most of it finds it"""
        T = [stubs.Transformation(p) for p in poses]
        W = stubs.Transformation(target)     # T_w_t ... the world seen from the target: T_t_w
        asked = []

        def cam(i):
            def est(o):
                asked.append(o.n)
                return True, W * T[i].inverse()
            return types.SimpleNamespace(geometry=types.SimpleNamespace(estimateTransformation=est))
        base = [T[i + 1] * T[i].inverse() for i in range(len(T) - 1)]
        ts = list(self.db.getAllViewTimestamps())
        t = ts[view % len(ts)]
        r = self.graph.getTargetPoseGuess(t, [cam(i) for i in range(len(T))], base)
        out("pose", t=int(round(t * 1024)), poses=[ints(p) for p in poses], target=ints(target), pose=ints(r.T()), asked=asked)

    # ---- C15
    def op_bag(self, base, conns):
        self.base = base
        Msg = types.SimpleNamespace
        made = []
        for topic, msgs in conns:
            l = []
            for m in msgs:
                i = m["id"]
                x = Msg(header=Msg(stamp=stubs.Stamp(m["t"], base)), stamp=stubs.Stamp(m["t"] + m.get("lag", 0), base), _type="sensor_msgs/Image",
                        encoding=m.get("enc", ""), angular_velocity=Msg(x=i + .25, y=i + .5, z=i + .75), linear_acceleration=Msg(x=-i - .25, y=-i - .5, z=-i - .75))
                if x.encoding in ("16UC1", "mono16"):
                    x.pixels = np.array([[256 * i + 255, 256 * (i + 1)]], dtype="uint16")
                elif x.encoding in ("8UC1", "mono8"):
                    x.pixels = np.array([[i, i + 1]], dtype="uint8")
                elif x.encoding.startswith("bayer"):
                    x.pixels = np.array([[i, i + 1]], dtype="uint8")
                elif x.encoding in ("8UC4", "bgra8"):
                    x.pixels = np.array([[[i, 2, 1, 77], [1, i, 2, 77]]], dtype="uint8")
                else:
                    x.pixels = np.array([[[i, 2, 1], [1, i, 2]]], dtype="uint8")
                l.append(x)
            made.append((topic, l))
        stubs.Bag.files["/bag"] = made
        out("bag", conns=[dict(topic=t, msgs=[dict(id=m["id"], t=m["t"], enc=m.get("enc", "")) for m in ms]) for t, ms in conns])

    def op_open(self, kind, topic, lo=None, hi=None, sync=False):
        """lo, hi: the wanted range in 1/512 s"""
        self.kind, self.ds = kind, None
        rng = None if lo is None else (lo / 512., hi / 512.)
        ok = True
        try:
            if kind == "imu":
                m = importlib.import_module("kalibr_common.ImuDatasetReader")
                self.ds = m.BagImuDatasetReader("/bag", topic, rng, sync)
                n = self.ds.numMessages()
            else:
                m = importlib.import_module("kalibr_common.ImageDatasetReader")
                self.ds = m.BagImageDatasetReader("/bag", topic, rng, sync)
                n = self.ds.numImages()
        except RuntimeError:
            ok, n = False, 0
        out("open", kind=kind, topic=topic, ranged=rng is not None, lo=lo or 0, hi=hi or 0, sync=bool(sync), ok=ok, n=n)

    def item(self, x):
        ts = x[0]
        k = ts.toSec() * 512 - (0 if len(ts.a) == 1 else 0) - self.base * 512
        if len(ts.a) == 2:
            k = (ts.a[0] - self.base) * 512 + ts.a[1] / 1953125.
        t = int(round(k)) if abs(k - round(k)) < 1e-9 else -1
        if self.kind == "imu":
            return dict(t=t, data=[int(round(v * 4)) for v in list(x[1]) + list(x[2])])
        return dict(t=t, data=[int(v) for v in np.array(x[1]).reshape(-1)])

    def op_read(self, how, seed=0):
        np.random.seed(seed)
        items, err = [], ""
        try:
            for x in {"iter": lambda: iter(self.ds), "read": self.ds.readDataset, "shuffle": self.ds.readDatasetShuffle}[how]():
                items.append(self.item(x))
        except Exception as e:
            err = type(e).__name__
        out("read", how=how, items=items, err=err)

    def op_extract(self, n, found, procs, naps, fail=None, clear=True, bare=False):
        """n images, the target is seen in those of found, the detector takes its time and fails on one"""
        m = importlib.import_module("kalibr_common.TargetExtractor")
        ds = types.SimpleNamespace(numImages=lambda: n, topic="/cam", readDataset=lambda: iter([(i, np.full((1, 1), i)) for i in range(n)]))
        res = []
        for multi in (False, True):
            try:
                r = m.extractCornersFromDataset(ds, Detector(found, naps if multi else None, fail, bare), multithreading=multi, numProcesses=procs, clearImages=clear, noTransformation=bare)
                res.append(dict(how="ok", obs=[[o.stamp, o.pixel] for o in r], cleared=all(o.cleared == clear for o in r)))
            except Exception as e:
                res.append(dict(how="error", obs=[], cleared=True))
        out("extract", n=n, found=found, fails=fail is not None and fail < n, serial=res[0], parallel=res[1])

    # ---- C16
    def val(self, v):
        r = dict(t="none", v=0, s="", l=[])
        if isinstance(v, (bool, np.bool_)):
            r.update(t="b", v=int(v))
        elif isinstance(v, (int, np.integer)):
            r.update(t="i", v=int(v) * 1000)
        elif isinstance(v, float):
            r.update(t="f", v=int(round(v * 1000)))
        elif isinstance(v, str):
            r.update(t="s", s=v)
        elif isinstance(v, (list, tuple)):
            r.update(t="l", l=[self.val(x) for x in v])
        elif v is not None:
            r.update(t="?", s=type(v).__name__)
        return r

    def ask(self, f, *a):
        try:
            v = f(*a)
            if isinstance(v, stubs.Transformation):
                v = v.T().tolist()
            if isinstance(v, dict):
                return dict(how="ok", why="", val=self.val(""), fields={k: self.val(x) for k, x in v.items()})
            return dict(how="ok", why="", val=self.val(v), fields={"": self.val("")})
        except Exception as e:
            good = type(e) is RuntimeError
            return dict(how="refused" if good else "broken", why=type(e).__name__, val=self.val(""), fields={"": self.val("")})

    def cfg(self):
        return importlib.import_module("kalibr_common.ConfigReader")

    KINDS = {"camera": ("CameraParameters", ["getRosTopic", "getIntrinsics", "getDistortion", "getResolution"]),
             "imu": ("ImuParameters", ["getRosTopic", "getUpdateRate", "getAccelerometerStatistics", "getGyroStatistics"]),
             "target": ("CalibrationTargetParameters", ["getTargetType", "getTargetParams"])}

    def answers(self, kind, o):
        return {g: self.ask(getattr(o, g)) for g in self.KINDS[kind][1]}

    def op_config(self, kind, data):
        """a file with these fields: what every getter makes of it"""
        import yaml
        m = self.cfg()
        d = tempfile.mkdtemp(prefix="pyk", dir=".")
        f = os.path.join(d, "c.yaml")
        with open(f, "w") as g:
            g.write(yaml.dump(data))
        o = getattr(m, self.KINDS[kind][0])(f)
        a = self.answers(kind, o)
        try:
            o.printDetails(io.StringIO())
            details = "ok"
        except Exception as e:
            details = "refused" if type(e) is RuntimeError else "broken"
        o2 = getattr(m, self.KINDS[kind][0])(os.path.join(d, "d.yaml"), createYaml=True)
        o2.setYamlDict(o.getYamlDict())
        o2.writeYaml()
        again = self.answers(kind, getattr(m, self.KINDS[kind][0])(os.path.join(d, "d.yaml")))
        gone = self.ask(getattr(m, self.KINDS[kind][0]), os.path.join(d, "none.yaml"))
        os.remove(f)
        os.remove(os.path.join(d, "d.yaml"))
        os.rmdir(d)
        fields = {k: self.val(data.get(k)) for k in ("rostopic", "camera_model", "intrinsics", "distortion_model", "distortion_coeffs", "resolution", "update_rate",
                  "accelerometer_noise_density", "accelerometer_random_walk", "gyroscope_noise_density", "gyroscope_random_walk", "target_type", "targetRows", "targetCols",
                  "rowSpacingMeters", "colSpacingMeters", "spacingMeters", "asymmetricGrid", "tagRows", "tagCols", "tagSize", "tagSpacing")}
        out("config", kind=kind, data=fields, got=a, same=a == again, gone=gone["how"], details=details)
        if kind == "camera":
            out("camera", data=fields, made=self.made(lambda: m.AslamCamera.fromParameters(o)))

    def made(self, f):
        r = dict(how="ok", why="")
        try:
            c = f()
            for n in ("frameType", "keypointType", "reprojectionErrorType", "undistorterType"):
                r[n] = getattr(c, n).__name__ if hasattr(c, n) else ""
            p = c.geometry.args[0]
            r.update(geometry=c.geometry.name, projection=p.name, args=[self.val(float(x)) for x in p.args if not isinstance(x, stubs.Named)])
            dd = [x for x in p.args if isinstance(x, stubs.Named)]
            r.update(dist=dd[0].name if dd else "", dargs=[self.val(float(x)) for x in dd[0].args] if dd else [])
        except Exception as e:
            r = dict(how="refused" if type(e) is RuntimeError else "broken", why=type(e).__name__)
        return r

    def op_make(self, model, intrinsics, dist, coeffs, resolution):
        """a camera of these models, known or not; its numbers are legal"""
        r = self.made(lambda: self.cfg().AslamCamera(model, intrinsics, dist, coeffs, resolution))
        out("make", model=model, dist=dist, made=r, args=[self.val(float(x)) for x in intrinsics + resolution], dargs=[self.val(float(x)) for x in coeffs])

    def op_new(self, kind):
        self.o = getattr(self.cfg(), self.KINDS[kind][0])("x.yaml", createYaml=True)
        self.kind = kind
        out("new", kind=kind)

    def op_set(self, f, args):
        """set and get again"""
        r = self.ask(getattr(self.o, "set" + f), *args)
        g = self.ask(getattr(self.o, "get" + f))
        out("set", f=f, args=[self.val(a) for a in args], how=r["how"], got=g)

    def op_chain(self, n):
        m = self.cfg()
        self.chain = m.CameraChainParameters("chain.yaml", createYaml=True)
        for i in range(n):
            c = m.CameraParameters("x", createYaml=True)
            c.setRosTopic("/cam%d" % i)
            self.chain.addCameraAtEnd(c)
        out("chain", n=n, count=self.chain.numCameras())

    def op_ch(self, f, cam, arg=None):
        a = [cam]
        if f.startswith("set"):
            a.append(stubs.Transformation(arg) if "Extrinsics" in f and isinstance(arg, list) and len(arg) == 4 else arg)
        if f == "getCameraParameters":
            r = self.ask(lambda i: self.chain.getCameraParameters(i).getRosTopic(), cam)
        else:
            r = self.ask(getattr(self.chain, f), *a)
        out("ch", f=f, cam=cam, arg=self.val(arg), legal=("Extrinsics" not in f) or (isinstance(arg, list) and len(arg) == 4), how=r["how"], got=r["val"])

    def op_rewrite(self):
        d = tempfile.mkdtemp(prefix="pyk", dir=".")
        f = os.path.join(d, "chain.yaml")
        self.chain.writeYaml(f)
        self.chain = self.cfg().CameraChainParameters(f)
        os.remove(f)
        os.rmdir(d)
        out("rewrite", count=self.chain.numCameras())


class TObs(object):
    def __init__(self, stamp, pixel):
        self.stamp, self.pixel, self.cleared = stamp, pixel, False

    def clearImage(self):
        self.cleared = True


class Detector(object):
    def __init__(self, found, naps, fail, bare):
        self.found, self.naps, self.fail, self.bare = set(found), naps, fail, bare

    def work(self, stamp, image):
        if self.naps:
            time.sleep(self.naps[stamp % len(self.naps)] / 1000.)
        if stamp == self.fail:
            raise ValueError("detector")
        return (stamp in self.found), TObs(stamp, int(image[0][0]))

    def findTarget(self, stamp, image):
        assert not self.bare
        return self.work(stamp, image)

    def findTargetNoTransformation(self, stamp, image):
        assert self.bare
        return self.work(stamp, image)


def main():
    o = Cams()
    for ln in sys.stdin:
        ln = ln.strip()
        if ln.startswith("begin "):
            o = Cams()
            out("begin", id=ln[6:])
        elif ln:
            s = json.loads(ln)
            op = s.pop("op")
            getattr(o, "op_" + op)(**s)


if __name__ == "__main__":
    main()
