"""What kalibr's Python needs and is not here: the compiled bindings, igraph, rosbag, OpenCV.

Each stand-in has the interface its original documents and computes the same thing on
the exact data the drivers use; nothing here knows what kalibr should make of it."""
import heapq
import sys
import functools
import types
import numpy as np

REPO = "/repo/aslam_offline_calibration/kalibr/python"
logged = {"error": [], "warn": [], "fatal": []}


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


class Transformation(object):
    def __init__(self, *a):
        if not a:
            self.m = np.eye(4)
        else:
            self.m = np.array(a[0], dtype=float)
            if self.m.shape != (4, 4):
                raise RuntimeError("not a transformation")

    def T(self):
        return self.m.copy()

    def inverse(self):
        r = self.m[:3, :3].T
        m = np.eye(4)
        m[:3, :3] = r
        m[:3, 3] = -r.dot(self.m[:3, 3])
        return Transformation(m)

    def __mul__(self, o):
        return Transformation(self.m.dot(o.m))

    def C(self):
        return self.m[:3, :3].copy()

    def t(self):
        return self.m[:3, 3].copy()


class Progress(object):
    def __init__(self, *a):
        pass

    def sample(self, *a):
        pass


class Corrector(object):
    """Local time is remote time and 1000 s, once every message was seen."""
    seen = []

    def __init__(self):
        Corrector.seen = []

    def correctTimestamp(self, remote, local):
        Corrector.seen.append((remote, local))
        return remote + 1000.

    def getLocalTime(self, remote):
        return remote + 1000.


def log(kind):
    return lambda *a: logged[kind].append(" ".join(map(str, a)))


class Time(object):
    def __init__(self, *a):
        self.a = a

    def toSec(self):
        return self.a[0] if len(self.a) == 1 else self.a[0] + self.a[1] / 1e9


# ------------------------------------------------------------------ igraph
class Vertex(object):
    def __init__(self, g, i):
        self.g, self.index, self.attr = g, i, {}

    def neighbors(self):
        return [self.g.vs[b if a == self.index else a] for a, b in (e.tuple for e in self.g.es) if self.index in (a, b)]

    def degree(self):
        return len(self.neighbors())

    outdegree = degree

    def __setitem__(self, k, v):
        self.attr[k] = v

    def __getitem__(self, k):
        return self.attr[k]


class Edge(object):
    def __init__(self, t):
        self.tuple, self.attr = t, {}

    source = property(lambda s: s.tuple[0])
    target = property(lambda s: s.tuple[1])

    def __setitem__(self, k, v):
        self.attr[k] = v

    def __getitem__(self, k):
        return self.attr[k]


class Seq(list):
    def __getitem__(self, k):
        if isinstance(k, str):
            return [x.attr.get(k) for x in self]
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            for x, w in zip(self, v):
                x.attr[k] = w
        else:
            list.__setitem__(self, k, v)

    def outdegree(self):
        return [v.degree() for v in self]

    degree = indegree = outdegree


class Graph(object):
    def __init__(self, n=0):
        self.vs = Seq(Vertex(self, i) for i in range(n))
        self.es = Seq()

    def get_eid(self, a, b, directed=True, error=True):
        for i, e in enumerate(self.es):
            if set(e.tuple) == set((a, b)):
                return i
        if not error:
            return -1
        raise RuntimeError("no such edge")

    def are_connected(self, a, b):
        return self.get_eid(a, b, error=False) >= 0

    are_adjacent = are_connected

    def add_edges(self, es):
        for a, b in es:
            if not (0 <= a < len(self.vs) and 0 <= b < len(self.vs)):
                raise RuntimeError("no such vertex")
            self.es.append(Edge((min(a, b), max(a, b))))

    def add_edge(self, a, b, **kw):
        self.add_edges([(a, b)])
        self.es[len(self.es) - 1].attr.update(kw)

    def delete_edges(self, ids):
        ids = set(ids)
        self.es = Seq(e for i, e in enumerate(self.es) if i not in ids)

    def layout(self, *a, **kw):
        return None

    def ecount(self):
        return len(self.es)

    def vcount(self):
        return len(self.vs)

    def copy(self):
        g = Graph(len(self.vs))
        for e in self.es:
            f = Edge(e.tuple)
            f.attr = dict(e.attr)
            g.es.append(f)
        return g

    def _paths(self, v, weights):
        w = weights or [1] * len(self.es)
        best = {v: (0, None, None)}
        q = [(0, v)]
        done = set()
        while q:
            d, u = heapq.heappop(q)
            if u in done:
                continue
            done.add(u)
            for i, e in enumerate(self.es):
                if u in e.tuple:
                    x = e.tuple[0] if e.tuple[1] == u else e.tuple[1]
                    if x not in best or d + w[i] < best[x][0]:
                        best[x] = (d + w[i], u, i)
                        heapq.heappush(q, (d + w[i], x))
        return best

    def get_shortest_paths(self, v, to=None, weights=None, mode=None, output="vpath"):
        if isinstance(weights, str):
            weights = self.es[weights]
        best = self._paths(v, weights)
        out = []
        for t in (range(len(self.vs)) if to is None else [to] if isinstance(to, int) else to):
            p = []
            if t in best:
                x = t
                while best[x][1] is not None:
                    p.append(best[x][2] if output == "epath" else x)
                    x = best[x][1]
                if output != "epath":
                    p.append(v)
            out.append(p[::-1])
        return out

    get_shortest_path = lambda self, v, to, **kw: self.get_shortest_paths(v, to, **kw)[0]

    def is_connected(self, mode=None):
        return len(self.vs) > 0 and len(self._paths(0, None)) == len(self.vs)

    def adhesion(self, *a, **kw):
        """Edge connectivity: the fewest edges whose removal disconnects the graph."""
        n = len(self.vs)
        if n < 2 or not self.is_connected():
            return 0
        best = min(v.degree() for v in self.vs)
        for mask in range(1, 1 << (n - 1)):
            best = min(best, sum(1 for e in self.es if ((mask >> e.tuple[0]) & 1) != ((mask >> e.tuple[1]) & 1)))
        return best

    edge_connectivity = adhesion


# ------------------------------------------------------------------ rosbag
@functools.total_ordering
class Stamp(object):
    def __init__(self, k, base):
        self.secs, r = divmod(k, 512)
        self.secs += base
        self.nsecs = r * 1953125

    def to_sec(self):
        return self.secs + self.nsecs / 1e9

    def to_nsec(self):
        return self.secs * 10 ** 9 + self.nsecs

    to_time = to_sec

    def __eq__(self, o):
        return self.to_nsec() == o.to_nsec()

    def __lt__(self, o):
        return self.to_nsec() < o.to_nsec()

    def __hash__(self):
        return hash(self.to_nsec())


class Bag(object):
    files = {}

    def __init__(self, name, *a, **kw):
        self.conns = Bag.files[name]      # [(topic, [message])]
        self.pos = {}
        self.index = []
        for c, (topic, msgs) in enumerate(self.conns):
            ix = []
            for i, m in enumerate(msgs):
                p = 1000 * (c + 1) + i
                self.pos[p] = (topic, m, m.stamp)
                ix.append(types.SimpleNamespace(position=p, time=m.stamp))
            ix.sort(key=lambda e: e.time)     # rosbag keeps a connection's index in order of receipt
            self.index.append(ix)

    def _get_connections(self, topics=None, *a, **kw):
        topics = [topics] if isinstance(topics, str) else topics
        for c, (t, _) in enumerate(self.conns):
            if topics is None or t in topics:
                yield types.SimpleNamespace(id=c, topic=t)

    def _get_indexes(self, conns):
        for c in conns:
            yield self.index[c.id]

    def _read_message(self, p, *a, **kw):
        return self.pos[p]

    def read_messages(self, topics=None, *a, **kw):
        topics = [topics] if isinstance(topics, str) else topics
        for p in sorted(self.pos, key=lambda p: self.pos[p][2].to_nsec()):
            if topics is None or self.pos[p][0] in topics:
                yield self.pos[p]


class CvBridge(object):
    def imgmsg_to_cv2(self, data, *a, **kw):
        return np.array(data.pixels)


GRAY = {"BGR2GRAY": (4, 2, 1), "RGB2GRAY": (1, 2, 4), "BGRA2GRAY": (4, 2, 1), "RGBA2GRAY": (1, 2, 4)}


def cvtColor(img, code):
    """Blue counts four times, green twice, red once: who mistakes one for the other is seen."""
    if code in GRAY:
        return sum(w * img[:, :, i].astype(int) for i, w in enumerate(GRAY[code])).astype("uint8")
    return (img.astype(int) + {"BAYER_BG2GRAY": 1, "BAYER_RG2GRAY": 2, "BAYER_GB2GRAY": 3, "BAYER_GR2GRAY": 4}[code]).astype("uint8")


class Named(object):
    """A compiled class: remembers its name and what it was made of."""
    def __init__(self, name, args):
        self.name, self.args = name, args


class NameSpace(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        cls = type(n, (Named,), {"__init__": lambda s, *a: Named.__init__(s, n, a)})
        setattr(self, n, cls)
        return cls


def install():
    module("sm_python", Transformation=Transformation, Progress2=Progress, Progress=Progress, DoubleTimestampCorrector=Corrector,
           logDebug=log("warn"), logInfo=log("warn"), logWarn=log("warn"), logError=log("error"), logFatal=log("fatal"))
    sys.modules["sm"] = sys.modules["sm_python"]
    module("sm_numpy_eigen")
    acv = NameSpace("aslam_cv_python")
    acv.Time = Time
    sys.modules["aslam_cv_python"] = acv
    sys.modules["aslam_cv_backend_python"] = NameSpace("aslam_cv_backend_python")
    sys.modules["aslam_backend_python"] = NameSpace("aslam_backend_python")
    module("igraph", Graph=Graph, plot=lambda *a, **kw: None)
    module("pylab")
    try:
        import PIL
    except ImportError:
        module("PIL").Image = module("PIL.Image")
    module("rosbag", Bag=Bag)
    module("cv_bridge", CvBridge=CvBridge)
    cv2 = module("cv2", cvtColor=cvtColor, destroyAllWindows=lambda: None)
    for k in list(GRAY) + ["BAYER_BG2GRAY", "BAYER_RG2GRAY", "BAYER_GB2GRAY", "BAYER_GR2GRAY"]:
        setattr(cv2, "COLOR_" + k, k)
    # packages without their heavy parts: the modules are loaded one by one
    for p in ("kalibr_common", "kalibr_camera_calibration"):
        m = module(p)
        m.__path__ = [REPO + "/" + p]
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
