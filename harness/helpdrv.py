"""Validation (ValidTrace.tla) and debugging helpers (HelpTrace.tla) of the real code."""
from trackdrv import *
import contextlib, io, re
from norfair import print_objects_as_table, get_cutout
from norfair.filter import OptimizedKalmanFilterFactory
from motiondrv import guard

NAMES = ["frobenius", "mean_euclidean", "mean_manhattan", "iou", "iou_opt", "euclidean", "sqeuclidean", "cosine", "cityblock",
         "chebyshev", "braycurtis"]
UNKNOWN = ["nope", "", "Euclidean", "frobenious", "iou ", "IOU", "none", "keypoints_voting"]


def scalar(det, obj):
    return float(np.linalg.norm(det.points - obj.estimate))


class CallObj:
    def __call__(self, det, obj):
        return 0.0


CALLABLES = [scalar, lambda d, o: 0, CallObj(), CallObj().__call__]
OTHER = [None, 5, 1.5, ["frobenius"], {}, ("iou",), np.array([1.0]), b"frobenius"]


def cfg_event(hmax, delay, npast, kind, value, r):
    kw = dict(distance_function=value, distance_threshold=1.0)
    if hmax != 15 or r.random() < 0.5:
        kw["hit_counter_max"] = hmax
    if delay or r.random() < 0.5:
        kw["initialization_delay"] = delay[0] if delay else None
    if npast:
        kw["past_detections_length"] = npast[0]
    if r.random() < 0.1:
        kw["reid_distance_function"], kw["reid_distance_threshold"] = scalar, 1.0
    ev = dict(op="cfg", c=dict(hmax=hmax, delay=delay, npast=npast, dist=kind), first=-1, exc="")
    box = {}

    def make():
        box["t"] = Tracker(kw.pop("distance_function"), kw.pop("distance_threshold"), **kw) if r.random() < 0.5 else Tracker(**kw)
    guard(ev, make)
    if not ev["exc"]:
        stim = dict(op="run", exc="")

        def run():
            for k in range(hmax + 4):
                if box["t"].update([Detection(np.array([[1.0, 2.0], [3.0, 5.0]]))]):
                    ev["first"] = k + 1
                    break
        guard(stim, run)
        if stim["exc"]:
            ev["first"] = -2
    return ev


def configs(n):
    """Every combination of small values, and of kinds of distances."""
    r = random.Random(n)
    out = []
    i = 0
    for hmax in range(1, n + 1):
        for delay in [[]] + [[d] for d in range(-2, n + 2)]:
            for npast in ([], [-1], [0], [1]):
                for kind, vals in (("name", NAMES), ("unknown", UNKNOWN), ("callable", CALLABLES), ("other", OTHER)):
                    i += 1
                    if kind != "name" and i % 3 and hmax > 2:
                        continue
                    out.append(cfg_event(hmax, delay, npast, kind, vals[i % len(vals)], r))
    for kind, vals in (("name", NAMES), ("unknown", UNKNOWN), ("callable", CALLABLES), ("other", OTHER)):
        for v in vals:
            out.append(cfg_event(15, [], [], kind, v, r))
            out.append(cfg_event(30, [29], [0], kind, v, r))
            out.append(cfg_event(30, [30], [], kind, v, r))
            out.append(cfg_event(31, [], [-5], kind, v, r))
    return out


def points():
    out = []
    for shape in ([1], [2], [3], [4], [5], [6], [17], [100], [1, 1], [1, 4], [2, 5], [70, 2], [300, 3], [1, 2], [2, 2], [5, 2], [1, 3], [4, 3], [1, 1, 2], [1, 2, 2], [2, 2, 2], [1, 1, 1, 2], [3, 1, 2], [2, 2, 2, 2, 2]):
        for dt in (float, int, np.float32):
            a = np.arange(int(np.prod(shape))).reshape(shape).astype(dt)
            ev = dict(op="pts", shape=shape, got=[], exc="")

            def run():
                d = Detection(a, scores=np.ones(shape[0] if len(shape) > 1 else 1))
                ok = (np.asarray(d.points).flatten() == a.flatten()).all() and d.absolute_points.shape == d.points.shape
                ev["got"] = list(d.points.shape) if ok else [0]
            out.append(guard(ev, run))
    return out


class Det2(Detection):
    pass


class Fake:
    """Looks like a detection to distance functions but is none."""

    def __init__(self, p):
        self.points = self.absolute_points = np.array(p, float)
        self.scores = self.data = self.label = self.embedding = self.age = None


def update_event(seed):
    r = random.Random(seed)
    ev = dict(op="upd", nan=False, foreign=False, exc="")
    mode = r.choice(["nan", "nan", "reid", "foreign", "fake", "fine", "fine"])
    k = r.randrange(1, 5)
    bad = set()

    def dist(d, o):
        cell = (round(float(d.points[0, 0])) % 1000, round(float(o.estimate[0, 0])) // 1000)
        if ends:
            return ends[sum(cell) % len(ends)]
        return float("nan") if cell in bad else float(abs(d.points - o.estimate).sum())
    ends = r.choice([[], [], [math.inf, -math.inf, 1.0], [-math.inf], [math.inf], [1e308, -1e308, 3.0]]) if mode == "fine" else []
    name = r.choice(["frobenius", "euclidean", dist]) if not ends else dist
    if mode == "nan":
        name = dist
    kw = {}
    if mode == "reid":
        kw = dict(reid_distance_function=lambda a, b: float("nan") if r.random() < 2 and bad else 0.0, reid_distance_threshold=1.0,
                  reid_hit_counter_max=10)
    t = Tracker(name, 5.0, hit_counter_max=r.choice([3, 6]), initialization_delay=r.choice([0, 1]) if mode != "reid" else 1, **kw)
    pts = [[1000.0 * (i + 1), 10.0] for i in range(k)]
    mk = lambda p, **a: (Det2 if r.random() < 0.2 else Detection)(np.array([p]), **a)
    warm = 3 if mode == "reid" else r.choice([0, 1, 3])
    if mode == "nan":
        warm = max(warm, 1)
    for _ in range(warm):
        t.update([mk(p) for p in pts])
    if mode == "nan":
        n = r.randrange(1, 4)
        dets = [mk([1000.0 * r.randrange(1, k + 1) + j + 1, 10.0], label=r.choice([None, None, "x"])) for j in range(n)]
        cell = (r.randrange(1, n + 1), r.randrange(1, k + 1))
        bad.add(cell)
        d = dets[cell[0] - 1]
        ev["nan"] = d.label is None  # labels differ: the distance is not asked for
    elif mode == "reid":
        for _ in range(8):
            t.update()
        dets = [mk([77000.0, 1.0])]
        t.update(dets)
        bad.add(1)
        ev["nan"] = True
        dets = [mk([77000.0, 1.0])]
    elif mode == "foreign" and warm == 0:
        dets = [mk(p) for p in pts[1:]]
        dets.insert(r.randrange(len(dets) + 1), r.choice([None, 5, "x", np.array([[1.0, 2.0]]), [1, 2], {}, object(), Detection]))
        ev["foreign"] = True
    elif mode == "fake":
        dets = [mk(p) for p in pts]
        dets.insert(r.randrange(len(dets) + 1), Fake([[555000.0, 3.0]]))
        ev["foreign"] = True
    else:
        dets = [mk(p) for p in pts]
        r.shuffle(dets)
        dets = dets[:r.randrange(0, k + 1)]

    def run():
        t.update(dets, **(dict(period=r.choice([1, 2])) if r.random() < 0.3 else {}))
    guard(ev, run)
    ev["stim"] = mode
    return ev


# --------------------------------------------------------------------------- helpers
def sixteenths(v):
    if v is None:
        return []
    v = float(v) * 16
    return [int(round(v))] if abs(v - round(v)) < 1e-4 and abs(v) < 10 ** 9 else [WEIRD]


def table_trace(seed):
    r = random.Random(seed)
    D = {}

    def dist(d, o):
        return D[(d.data, o.initializing_id)] if (d.data, o.initializing_id) in D else 10.0 ** 7
    big = r.choice([[], [1000.5, 4096.0625, 123456.75]])
    t = Tracker(dist, 500.0 if not big else 10.0 ** 6, hit_counter_max=r.choice([2, 5, 15]), initialization_delay=r.choice([0, 1]),
                reid_distance_function=(lambda a, b: 1.0) if r.random() < 0.3 else None, reid_distance_threshold=r.choice([0, 2]),
                reid_hit_counter_max=r.choice([None, 4]))
    evs = []
    many = r.random() < 0.05
    for step in range(r.randrange(1, 7) if not many else 25):
        objs = list(t.tracked_objects)
        dets = [Detection(np.array([[1.0 * i, 2.0]]), data=i, label=r.choice([None, None, "q"])) for i in range(r.randrange(0, 4) if not many else 15)]
        D.clear()
        for d in dets:
            for o in objs:
                D[(d.data, o.initializing_id)] = r.choice([0.0, 0.5, 1 / 16, 3.0, 33.4375, 499.9375, 900.0, -0.5, 900.0] + big)
        t.update(dets, period=r.choice([1, 1, 2]))
        objs = list(t.tracked_objects) if r.random() < 0.7 else t.get_active_objects()
        if r.random() < 0.2:
            objs = objs[::-1]
        snap = lambda: [(o.id, o.age, o.hit_counter, o.last_distance, o.initializing_id, o.global_id) for o in objs]
        ev = dict(op="table", objs=[dict(id=[] if o.id is None else [o.id], age=o.age, hit=o.hit_counter, dist=sixteenths(o.last_distance),
                                         init=[] if o.initializing_id is None else [o.initializing_id]) for o in objs],
                  got=[], reprs=[], same=True, exc="")

        def run():
            before = snap()
            ev["reprs"] = [re.sub("\033\\[[0-9;]*m", "", repr(o)) for o in objs]
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                print_objects_as_table(objs if r.random() < 0.8 else tuple(objs))
            ev["same"] = before == snap()
            rows = [[c.strip() for c in re.split("[│|]", l)] for l in out.getvalue().splitlines()]
            ev["got"] = [x[1:-1] for x in rows if len(x) == 7 and x[1] != "Id"]
        guard(ev, run)
        evs.append(ev)
    return dict(ev=evs, stim=dict(seed=seed))


def cut_event(seed):
    r = random.Random(seed)
    h, w = r.randrange(1, 7), r.randrange(1, 8)
    if r.random() < 0.03:
        h, w = r.choice([3, 30, 60]), r.choice([3, 30, 60])
    img = np.array([[100 * y + x for x in range(w)] for y in range(h)], np.int32)
    ch = r.random() < 0.5
    a = np.stack([img, img + 1, img + 2], axis=2) if ch else img.copy()
    n = r.choice([1, 2, 2, 3, 5]) if r.random() < 0.95 else r.choice([9, 20, 33])
    pts, spec = [], []
    for _ in range(n):
        p = [r.randrange(-4, w + 5), r.randrange(-4, h + 5)]
        spec.append(p)
        pts.append([v + r.choice([0, 0, 0.25, 0.5, 0.75, 0.9375, 0.998]) for v in p])
    pts = np.array(pts)
    if r.random() < 0.2:
        pts = np.array(spec)
    c, b = pts.copy(), a.copy()
    ev = dict(op="cut", img=img.tolist(), pts=spec, got=[], same=True, exc="")

    def run():
        o = get_cutout(pts, a) if r.random() < 0.5 else get_cutout(points=pts, image=a)
        ev["got"] = ((o[:, :, 0] if ch else o).tolist() if o.size else [])
        ev["same"] = bool((c == pts).all() and (a == b).all())
    return guard(ev, run)


def cut_grid():
    out = []
    img = np.array([[100 * y + x for x in range(3)] for y in range(2)], np.int32)
    g = [(x, y) for x in range(-2, 6) for y in range(-2, 5)]
    for p in g:
        for q in g:
            ev = dict(op="cut", img=img.tolist(), pts=[list(p), list(q)], got=[], same=True, exc="")

            def run():
                o = get_cutout(np.array([p, q]), img)
                ev["got"] = o.tolist() if o.size else []
            out.append(guard(ev, run))
    return out
