"""Distance computations of the real code, for DistTrace.tla."""
from trackdrv import *
import warnings
from norfair import distances as ND

U = 65536
WORLDS = {"none": None}
# equality classes of labels: (value, code); Python equality decides
LABELVALS = [(None, 0), ("a", 1), ("1", 2), (1, 3), (1.0, 3), (True, 3), (3, 4), ("3", 5), (("t", 1), 6),
             (frozenset({1}), 7), ("None", 8), (0, 9), (False, 9), ("", 10), (b"a", 11), ("a ", 12), ("A", 13)]
NAN = float("nan")     # a missing label of a data frame: not even equal to itself
LABELVALS += [(NAN, 99), (NAN, 99)]


def code(lab, i):
    return 1000 + i if lab == 99 else lab


SCALAR = ["frobenius", "mean_euclidean", "mean_manhattan"]
BOXES = ["iou", "iou_opt"]
NUM = ["cityblock", "chebyshev", "euclidean", "sqeuclidean", "canberra", "braycurtis", "hamming", "matching",
       "minkowski", "cosine", "correlation"]
BOOL = ["dice", "jaccard", "rogerstanimoto", "russellrao", "sokalsneath", "yule"]


def fixu(v):
    try:
        v = float(v)
    except Exception:
        return WEIRD
    if math.isnan(v):
        return WEIRD
    if math.isinf(v):
        return BIG if v > 0 else -BIG
    if abs(v) > 16000:
        return WEIRD
    return int(round(v * U))


# what moving the origin and changing the unit of the coordinates does to the documented value
SHIFTS = SCALAR + BOXES + ["voting", "normalized", "cityblock", "chebyshev", "euclidean", "sqeuclidean", "minkowski", "hamming", "matching"]
LINEAR = SCALAR + ["cityblock", "chebyshev", "euclidean", "minkowski", "asym"]


class Place:
    """Where the integer coordinates of the specification lie: p * unit + off."""

    def __init__(self, r, m, dim):
        self.unit = r.choice([1, 1, 0.25, 2.0 ** -10, 4, 64]) if m not in BOOL and r.random() < 0.4 else 1
        if m == "normalized" and self.unit < 1:
            self.unit = 4
        self.off = [self.unit * r.choice([0, 700, -4096, 30000, 65536]) for _ in range(dim)] if m in SHIFTS and r.random() < 0.4 else [0] * dim
        self.out = self.unit if m in LINEAR else self.unit ** 2 if m == "sqeuclidean" else 1
        self.add = r.choice([0, 0, 2.0 ** 30, -1.0 - 2.0 ** 26]) if m == "asym" else 0

    def __call__(self, p):
        return [[v * self.unit + o for v, o in zip(q, self.off)] for q in p]

    def back(self, v):
        try:
            return (float(v) - self.add) / self.out
        except Exception:
            return v


class SubDetection(Detection):
    """A user's own kind of detection."""


class Box(Detection):
    """Another one, with a name of its own."""


def make(pts, lab, sc, dtype, r, cls=Detection):
    a = np.array(pts, dtype=float)
    return cls(a.astype(dtype) if (a.astype(dtype) == a).all() else a, label=lab, scores=None if sc is None else np.array(sc) / 10.0)


def objects(specs, r, motion=None):
    """Tracked objects at the given points (list of (pts, label, sc))."""
    t = Tracker(distance_function=lambda d, o: 0.0, distance_threshold=-1, initialization_delay=0,
                hit_counter_max=2, detection_threshold=-1, filter_factory=NoFilterFactory())
    ds = [make(p, l, s, float, r) for p, l, s in specs]
    t.update(ds, coord_transformations=motion)
    out = []
    for d in ds:
        out.append([o for o in t.tracked_objects if o.last_detection is d][0])
    return out


def box(r, m):
    x, y = r.randrange(m), r.randrange(m)
    return [[x, y], [x + r.randrange(1, m), y + r.randrange(1, m)]]


def points(r, m, n, dim, span):
    return [[r.randrange(-span, span + 1) for _ in range(dim)] for _ in range(n)]


def quiet(f, *a, **k):
    import io, contextlib
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), watchdog(10):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def distance(m, par, r, unit=1, add=0):
    """The Distance object for metric m as a user gets it."""
    if m == "voting":
        return ND.ScalarDistance(ND.create_keypoints_voting_distance(par["kt"] * unit, par["st"] / 10.0))
    if m == "normalized":
        return ND.ScalarDistance(ND.create_normalized_mean_euclidean_distance(height=par["h"] * unit, width=par["w"] * unit))
    if m == "asym":
        if par["vec"]:
            return ND.VectorizedDistance(lambda c, o: add + c[:, :1].astype(float) + 50 * o[:, 0][None] + 7 * o[:, -1][None])
        g = lambda c: (c.points if isinstance(c, Detection) else c.estimate).ravel()
        return ND.ScalarDistance(lambda c, o: add + float(g(c)[0]) + 50 * g(o)[0] + 7 * g(o)[-1])
    if r.random() < 0.3 and m in NUM + BOOL:
        return ND.ScipyDistance(m)
    return ND.get_distance_by_name(m)


def coords(r, m, n, dim):
    if m in BOXES:
        return box(r, r.choice([3, 6, 12]))
    if m in BOOL or (m in ("hamming", "matching") and r.random() < 0.5):
        return [[r.choice([0, 1]) for _ in range(dim)] for _ in range(n)]
    if m == "cosine" or m == "correlation":
        return points(r, m, n, dim, 4)
    if m == "asym":
        return [[r.randrange(-9, 20) for _ in range(dim)] for _ in range(n)]
    return points(r, m, n, dim, r.choice([2, 6, 15]) if n < 5 else 5)


def gen_case(r, metrics):
    m = r.choice(metrics)
    n, dim = r.choice([1, 2, 3]), r.choice([2, 2, 3])
    if r.random() < 0.1:
        n = r.choice([7, 9, 17, 25])
    if m in BOXES:
        n, dim = 2, 2
    if m == "correlation":
        n, dim = r.choice([(1, 3), (2, 2)])
    par = {"kt": r.choice([1, 2, 5, 10]), "st": r.choice([0, 3, 5]), "w": r.choice([5, 10, 16, 1]),
           "h": r.choice([4, 10, 16, 1]), "vec": r.random() < 0.6}
    if m == "normalized":
        dim = 2
    return m, n, dim, par


def matrix_event(seed, metrics, labels=True, big=False):
    r = random.Random(seed)
    m, n, dim, par = gen_case(r, metrics)
    pool = r.choice([LABELVALS, LABELVALS[:4], LABELVALS[:1], LABELVALS[3:6], LABELVALS, LABELVALS[-3:]]) if labels else LABELVALS[:1]
    scored = m == "voting"

    def one():
        c = coords(r, m, n, dim)
        lab = r.choice(pool)
        sc = [r.choice([0, par["st"], par["st"] + 1, 9]) for _ in range(n)] if scored else None
        return c, lab, sc
    nc, no = r.choice([0, 1, 2, 3, 5]), r.choice([0, 1, 2, 3, 5])
    if big:
        nc, no = r.choice([17, 40, 70, 130]), r.choice([1, 2, 20])
        if r.random() < 0.5:
            nc, no = no, nc
        n = min(n, 3) if m not in BOXES else 2
    if m == "voting" or m in SCALAR or m == "normalized":
        ckind = "det"
    else:
        ckind = r.choice(["det", "det", "obj"])
    cs, os_ = [one() for _ in range(nc)], [one() for _ in range(no)]
    if nc and no and r.random() < 0.4:
        i, j = r.randrange(nc), r.randrange(no)
        cs[i] = (os_[j][0], cs[i][1], cs[i][2])
    at = Place(r, m, dim)
    mixed = r.random() < 0.2
    if mixed and nc > 1 and m in SCALAR + BOXES + ["euclidean", "cityblock", "chebyshev"] and r.random() < 0.7:
        # the first of them in whole pixels, the others between
        at.unit, at.off = 0.25, [0] * dim
        at.out = 0.25 if m in LINEAR else 1
        cs[0] = ([[4 * v for v in q] for q in cs[0][0]], cs[0][1], cs[0][2])
    motion = TranslationTransformation(np.array([3.0, -7.0])) if dim == 2 and r.random() < 0.2 else None
    dtype = r.choice([float, float, float, int, np.float32, np.int32])
    ev = {"op": "matrix", "m": m, "par": par, "exc": "", "rows": 0, "cols": 0, "out": [],
          "c": [{"lab": code(l[1], i), "p": p, "sc": s or []} for i, (p, l, s) in enumerate(cs)],
          "o": [{"lab": code(l[1], 100000 + i), "p": p, "sc": s or []} for i, (p, l, s) in enumerate(os_)]}
    try:
        objs = quiet(objects, [(at(p), l[0], s) for p, l, s in os_], r, motion)
        if ckind == "obj":
            cands = quiet(objects, [(at(p), l[0], s) for p, l, s in cs], r, motion)
        else:
            cls = r.choice([Detection, Detection, Detection, SubDetection, Box])
            cands = [make(at(p), l[0], s, (r.choice([int, np.int16]) if i == 0 else r.choice([int, float, np.float32, np.int16])) if mixed else dtype, r, cls) for i, (p, l, s) in enumerate(cs)]
        out = quiet(lambda: distance(m, par, r, at.unit, at.add).get_distances(objs, cands))
        a = np.asarray(out)
        ev["rows"], ev["cols"] = (a.shape[0], a.shape[1]) if a.ndim == 2 else (-1, -1)
        if a.ndim == 2:
            ev["out"] = [[fixu(at.back(v)) for v in row] for row in a]
    except Hang:
        ev["exc"] = "Hang"
    except Exception as e:
        ev["exc"] = type(e).__name__
    ev["cls"] = ckind
    return ev


class Fake:
    pass


def call_event(seed, metrics):
    """A distance function called on its own, outside of any Distance object."""
    r = random.Random(seed)
    m, n, dim, par = gen_case(r, metrics)
    a, b = coords(r, m, n, dim), coords(r, m, n, dim)
    if r.random() < 0.2:
        a = b
    sa = [r.choice([0, par["st"], par["st"] + 1, 9]) for _ in range(n)]
    sb = [r.choice([0, par["st"], par["st"] + 1, 9]) for _ in range(n)]
    dtype = r.choice([float, float, int, np.float32])
    at = Place(r, m, dim)
    ev = {"op": "call", "m": m, "par": par, "exc": "", "a": {"p": a, "sc": sa}, "b": {"p": b, "sc": sb}, "out": 0}
    try:
        if m in BOXES:
            f = ND.iou if m == "iou" else ND.iou_opt
            a, b = np.array([np.ravel(at(a))]), np.array([np.ravel(at(b))])
            if (a.astype(dtype) == a).all() and (b.astype(dtype) == b).all():
                a, b = a.astype(dtype), b.astype(dtype)
            v = quiet(f, a, b)[0, 0]
        else:
            d, = [make(at(a), None, sa, dtype, r)]
            o, = quiet(objects, [(at(b), None, sb)], r)
            if m == "voting":
                f = ND.create_keypoints_voting_distance(keypoint_distance_threshold=par["kt"] * at.unit,
                                                        detection_threshold=par["st"] / 10.0)
            elif m == "normalized":
                f = ND.create_normalized_mean_euclidean_distance(par["h"] * at.unit, par["w"] * at.unit)
            else:
                f = getattr(ND, m)
            v = quiet(f, d, o)
        ev["out"] = fixu(at.back(v))
    except Hang:
        ev["exc"] = "Hang"
    except Exception as e:
        ev["exc"] = type(e).__name__
    return ev


def all_boxes(g):
    bs = [[[x, y], [X, Y]] for x in range(g) for y in range(g) for X in range(x + 1, g + 1) for Y in range(y + 1, g + 1)]
    return bs


def box_matrix(g, chunk):
    """Every pair of boxes on a grid, in one call per chunk of candidates."""
    bs = all_boxes(g)
    evs = []
    O = np.array([np.ravel(b) for b in bs], float)
    for i in range(0, len(bs), chunk):
        cs = bs[i:i + chunk]
        ev = {"op": "matrix", "m": "iou", "par": {"kt": 0, "st": 0, "w": 1, "h": 1, "vec": True}, "exc": "",
              "c": [{"lab": 0, "p": p, "sc": []} for p in cs], "o": [{"lab": 0, "p": p, "sc": []} for p in bs],
              "rows": 0, "cols": 0, "out": []}
        try:
            a = quiet(ND.iou, np.array([np.ravel(b) for b in cs], float), O)
            ev["rows"], ev["cols"] = a.shape
            ev["out"] = [[fixu(v) for v in row] for row in a]
        except Exception as e:
            ev["exc"] = type(e).__name__
        evs.append(ev)
    return evs


def name_events():
    evs = []
    known = SCALAR + BOXES + NUM + BOOL + ["jensenshannon", "mahalanobis", "seuclidean"]
    for nme in known + ["", "IOU", "Frobenius", "iou ", "euclid", "none", "mean", "keypoints_voting_distance", "asym",
                        "mean_euclidean_distance", "frobenius2"]:
        ev = {"op": "name", "m": nme, "exc": "", "want": "yes" if nme in known else "ValueError"}
        try:
            d = quiet(ND.get_distance_by_name, nme)
            ev["got"] = "yes" if isinstance(d, ND.Distance) else type(d).__name__
        except Exception as e:
            ev["got"] = type(e).__name__
        evs.append(ev)
    return evs


def group(evs, k=12):
    return [{"ev": evs[i:i + k], "stim": evs[i:i + k]} for i in range(0, len(evs), k)]
