"""Drives the real norfair.Tracker from JSON stimuli and records observations.

stimulus = {"cfgs": [...], "steps": [...]}
 cfg  : hmax, delay(None|int), pmax, npast, rmax(None|int), dthr(int), T, RT (ints, BIG=inf),
        reid(bool), scale(distance unit), n, dim, geo("" or metric), metric(norfair name),
        filt(name), chkpast
 step : t (tracker, 0-based), per, mot(None | [s,[tx,ty..]] ), dets: None | [ {lab, sc, abs} ],
        tab: {"seed":..,"pal":[..]} | {"D":[{key:val}], "RD":[[a,b,val]]}
"""
import logging, math
from common import *
import numpy as np

logging.disable(logging.CRITICAL)
import norfair
from norfair import (Detection, Tracker, OptimizedKalmanFilterFactory,
                     FilterPyKalmanFilterFactory, NoFilterFactory)
from norfair.filter import FilterFactory
from filterpy.kalman import KalmanFilter
from norfair.camera_motion import TranslationTransformation, HomographyTransformation

FILTERS = {"opt": OptimizedKalmanFilterFactory, "kalman": FilterPyKalmanFilterFactory,
           "none": NoFilterFactory}


class DeadBeat(KalmanFilter):
    """A user's own predictive filter, with integer arithmetic: a measured coordinate jumps to its
    measurement and the innovation is added to its velocity."""

    def predict(self, *a, **k):
        h = len(self.x) // 2
        self.x[:h] += self.x[h:]

    def update(self, z, R=None, H=None, **k):
        h = len(self.x) // 2
        m = np.ones(h) if H is None else np.diagonal(np.asarray(H)[:, :h])
        r = (np.asarray(z, dtype=float).reshape(-1) - self.x[:h, 0]) * m
        self.x[:h, 0] += r
        self.x[h:, 0] += r


class DeadBeatFactory(FilterFactory):
    def create_filter(self, initial_detection):
        n = initial_detection.size
        f = DeadBeat(dim_x=2 * n, dim_z=n)
        f.x[:n] = np.asarray(initial_detection, dtype=float).reshape(-1, 1)
        f.x[n:] = 0
        return f


FILTERS["ab"] = DeadBeatFactory
# kinds of score arrays and the score that stands for 1 of the specification
SCORES = {"f8": (float, 10.0, 0.0), "i8": (int, 1, 0), "f4": (np.float32, 8.0, 0.0), "u1": (np.uint8, 1, 0),
          "near": (float, 2.0 ** 20, 0.5), "f4near": (np.float32, 2.0 ** 16, 0.25), "pct": (float, 0.1, 0.0)}
EXACT = ("none", "ab")      # filters the specification computes itself
LABELS = {0: None, 1: "car", 2: "b", 3: 3000, 4: ("t", 1), 5: 0, 6: "", 7: "None"}
UNLAB = {v: k for k, v in LABELS.items()}
NAN = float("nan")     # a missing label of a data frame: not even equal to itself
NANLAB, NANS = 9, 1000000   # its code in stimuli; NANS + key identifies the one of an object
WEIRD = 777777777
# metric name given to norfair -> (spec metric, factor: spec = f(real))
GEO = {"cityblock": "L1", "chebyshev": "Linf", "sqeuclidean": "L2sq", "euclidean": "L2sq",
       "frobenius": "L2sq", "mean_manhattan": "L1"}


def fresh(lab):
    """An equal label that is another Python object, where there can be one."""
    if isinstance(lab, str) and len(lab) > 1:
        return "".join(list(lab))
    if isinstance(lab, tuple):
        return tuple(list(lab))
    if isinstance(lab, int):
        return int(str(lab))
    return lab


def enc(x, scale=1.0):
    """Real number -> integer of the specification (WEIRD if it is none)."""
    try:
        x = float(x)
    except Exception:
        return WEIRD
    if math.isnan(x):
        return WEIRD
    if math.isinf(x):
        return BIG if x > 0 else -BIG
    y = x / scale
    r = round(y)
    if abs(r) >= BIG or abs(y - r) > 1e-4 * max(1.0, abs(y)) * 0.01 + 1e-6:
        return WEIRD
    return int(r)


def as_int(x):
    if x is None or isinstance(x, bool):
        return WEIRD
    try:
        if int(x) == x and abs(int(x)) < BIG:
            return int(x)
    except Exception:
        pass
    return WEIRD


def opt(x, f=as_int):
    return [] if x is None else [f(x)]


def lab_code(x, key=0):
    try:
        if isinstance(x, float) and x != x:
            return NANS + key
        return UNLAB.get(x, WEIRD)
    except TypeError:
        return WEIRD


def pts_code(a):
    try:
        return [[enc(v) for v in row] for row in np.asarray(a)]
    except Exception:
        return [[WEIRD]]


def score_of(v, cfg):
    _, unit, off = SCORES[cfg.get("stype", "f8")]
    return v / unit + off


def make_motion(mot, dim, kind):
    if mot is None:
        return None
    s, t = mot
    if s == 1 and kind == "T":
        return TranslationTransformation(np.array(t, dtype=float))
    h = np.array([[s, 0, t[0]], [0, s, t[1]], [0, 0, 1]], dtype=float)
    return HomographyTransformation(h)


DEFAULTS = {"hit_counter_max": 15, "pointwise_hit_counter_max": 4, "detection_threshold": 0, "past_detections_length": 4,
            "reid_distance_threshold": 0}


class One:
    """One real tracker plus what is needed to observe it."""

    def __init__(self, cfg, run):
        self.cfg, self.run = cfg, run
        self.keys = {}      # id(obj) -> key
        self.refs = []      # keeps every object seen alive
        self.order = []     # keys currently tracked
        self.tab = {}
        self.rtab = {}
        n = cfg["n"]
        thr = self.real(cfg["T"])
        if cfg["geo"]:
            dist = cfg["metric"]
            if dist in ("euclidean", "frobenius"):
                thr = math.sqrt(cfg["T"])
            elif dist == "mean_manhattan":
                thr = cfg["T"] / n
        else:
            dist = self.distance
        kw = {}
        if cfg["delay"] is not None:
            kw["initialization_delay"] = cfg["delay"]
        if cfg["reid"]:
            kw["reid_distance_function"] = self.rdistance
            kw["reid_distance_threshold"] = self.real(cfg["RT"])
        if cfg["rmax"] is not None:
            kw["reid_hit_counter_max"] = cfg["rmax"]
        kw["past_detections_length"] = cfg["npast"]
        kw["hit_counter_max"], kw["pointwise_hit_counter_max"] = cfg["hmax"], cfg["pmax"]
        kw["detection_threshold"] = score_of(cfg["dthr"], cfg)
        if cfg.get("omit"):     # what is the documented default anyway is left out
            kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v != DEFAULTS[k]}
        if not (cfg.get("omit") and cfg["filt"] == "opt"):
            kw["filter_factory"] = run.factory(cfg["filt"])
        self.tracker = Tracker(distance_function=dist, distance_threshold=thr, **kw)

    def distance(self, det, obj):
        u = self.run.uids.get(id(det))
        k = self.keys.get(id(obj))
        return self.real(self.tab.get((u, k), 1))

    def real(self, v):
        """A distance of the specification as the number the tracker gets (order preserving)."""
        return math.inf if v == BIG else -math.inf if v == -BIG else v * self.cfg["scale"] + self.cfg.get("doff", 0.0)

    def rdistance(self, new, obj):
        return self.real(self.rtab.get((self.keys.get(id(new)), self.keys.get(id(obj))), 1))

    def key(self, o):
        k = self.keys.get(id(o))
        if k is None:
            self.refs.append(o)
            k = self.run.uids.get(id(getattr(o, "last_detection", None)), 0)
            while k in self.keys.values():
                k += 100000
            self.keys[id(o)] = k
        return k

    def ld(self, o):
        x = o.last_distance
        if x is None:
            return []
        m = self.cfg["metric"] if self.cfg["geo"] else ""
        try:
            if m in ("euclidean", "frobenius"):
                return [enc(round(float(x) ** 2, 2))]
            if m == "mean_manhattan":
                return [enc(round(float(x) * self.cfg["n"], 4))]
        except Exception:
            return [WEIRD]
        try:
            x = float(x) - self.cfg.get("doff", 0.0)
        except Exception:
            return [WEIRD]
        return [enc(x, self.cfg["scale"])]

    def observe(self, o):
        run = self.run
        r = {"k": self.key(o), "id": opt(o.id), "gid": opt(o.global_id),
             "iid": opt(o.initializing_id), "lab": lab_code(o.label, self.key(o)),
             "ini": bool(o.is_initializing), "hit": as_int(o.hit_counter),
             "reid": opt(o.reid_hit_counter), "age": as_int(o.age),
             "live": [bool(b) for b in np.asarray(o.live_points).ravel()],
             "last": run.uids.get(id(o.last_detection), -1), "ld": self.ld(o),
             "past": [[run.uids.get(id(d), -1), -1 if d.age is None else as_int(d.age)]
                      for d in o.past_detections]}
        if self.cfg["filt"] in EXACT:
            r["vel"] = pts_code(o.estimate_velocity)
            r["est"] = pts_code(o.estimate)
            try:
                r["abs"] = [pts_code(o.get_estimate(absolute=True))]
            except ValueError:
                r["abs"] = []
        return r


class Run:
    def __init__(self, stim):
        self.stim = stim
        self.uids = {}
        self.given = {}
        self.keep = []
        self.factories = {}
        self.one = [None] * len(stim["cfgs"])
        self.step_dets = {}

    def factory(self, name):
        # one shared factory per kind: trackers have to be isolated all the same
        if name not in self.factories:
            self.factories[name] = FILTERS[name]()
        return self.factories[name]

    def make_det(self, spec, u, mot, cfg):
        pts = [[float(v) for v in p] for p in spec["abs"]]
        if mot is not None:
            pts = [[mot[0] * v + mot[1][j] for j, v in enumerate(p)] for p in pts]
        a = np.array(pts, dtype=float)
        kinds = cfg.get("dtypes") or ["f8"]
        kind = kinds[chash("dtype", u) % len(kinds)]
        if (a == a.astype(kind)).all():
            a = a.astype(kind)
        if spec.get("flat"):
            a = a.reshape(-1)
        sc = None
        if spec["sc"] is not None:
            sc = np.array([score_of(v, cfg) for v in spec["sc"]], dtype=SCORES[cfg.get("stype", "f8")][0])
        data = {"u": u, "l": [u]}
        emb = np.array([float(u), 1.0])
        d = Detection(a, scores=sc, data=data, label=NAN if spec["lab"] == NANLAB else fresh(LABELS[spec["lab"]]), embedding=emb)
        self.uids[id(d)] = u
        self.keep.append(d)
        # what the detection was given is what it holds
        same = lambda x, y: x is None and y is None or x is not None and y is not None and np.array_equal(x, y)
        self.given[id(d)] = [n for n, ok in (("points", np.array_equal(d.points, a.reshape(-1, a.shape[-1]))), ("scores", same(d.scores, sc)),
                                             ("data", d.data == data), ("label", spec["lab"] == NANLAB or d.label == LABELS[spec["lab"]]),
                                             ("embedding", same(d.embedding, emb))) if not ok]
        return d

    def usable(self, s, mot):
        dets, _, old = self.step_dets[s["reuse"]]
        if mot != old and ((mot is None and old is not None) or (mot and mot[0] != 1) or (old and old[0] != 1)):
            return False        # stale or fractional absolute coordinates
        if s.get("again") == 2:     # it stays the same detection
            return True
        if s.get("again"):      # it gets another uid: nobody may hold it any more
            held = {id(d) for me in self.one if me is not None and me.tracker is not None for o in me.tracker.tracked_objects
                    for d in [o.last_detection, *o.past_detections]}
            return not any(id(d) in held for d in dets)
        return True

    def snap(self, d):
        return (d.points.tobytes(), d.points.shape, id(d.points),
                None if d.scores is None else (d.scores.tobytes(), id(d.scores)),
                repr(d.data), id(d.data), (d.label,), id(d.embedding), np.asarray(d.embedding).tobytes())

    def snapdiff(self, a, b):
        names = ["points", "points", "points", "scores", "data", "data", "label", "embedding", "embedding"]
        return sorted({"mut:" + n for n, x, y in zip(names, a, b) if x != y})

    def step(self, i, s):
        slot, i = i, s.get("si", i)
        cfg = self.stim["cfgs"][s["t"]]
        if self.one[s["t"]] is None:
            self.one[s["t"]] = One(cfg, self)
        me = self.one[s["t"]]
        me.tracker  # created lazily, in the order of first use
        mot = s.get("mot")
        motion = make_motion(mot, cfg["dim"], s.get("mk", "T"))
        base = i * self.stim.get("stride", 16) + 1
        if s["dets"] is None:
            dets, jd = None, []
        elif s.get("reuse") is not None and s["reuse"] in self.step_dets and self.usable(s, mot):
            # the very same Detection objects again, possibly under another transformation
            dets, jd, old = self.step_dets[s["reuse"]]
            dets = list(dets)
            if mot is not None:
                a = [0] * cfg["dim"] if old is None else old[1]
                jd = [dict(x, abs=[[v + a[j] - mot[1][j] for j, v in enumerate(p)] for p in x["abs"]]) for x in jd] \
                    if mot != old else jd
            if s.get("again") == 1:
                jd = [dict(x, u=base + j, lab=NANS + base + j if x["lab"] >= NANS else x["lab"]) for j, x in enumerate(jd)]
                for d, x in zip(dets, jd):
                    self.uids[id(d)] = x["u"]
        else:
            dets, jd = [], []
            for j, ds in enumerate(s["dets"]):
                dets.append(self.make_det(ds, base + j, mot, cfg))
                jd.append({"u": base + j, "lab": NANS + base + j if ds["lab"] == NANLAB else ds["lab"], "sc": ds["sc"] or [], "abs": ds["abs"]})
        if dets is not None:
            self.step_dets[slot] = (list(dets), jd, mot)
        # distance tables
        keys = list(me.order)
        tab = s.get("tab", {})
        me.tab, me.rtab = {}, {}
        if not cfg["geo"]:
            for x in jd:
                for k in keys:
                    if "D" in tab:
                        v = tab["D"].get(f"{x['u']},{k}", tab.get("default", BIG))
                    else:
                        pal = tab["pal"]
                        v = pal[chash(tab["seed"], x["u"], k) % len(pal)]
                    me.tab[(x["u"], k)] = v
        if cfg["reid"]:
            for a in keys:
                for b in keys:
                    if "RD" in tab:
                        v = tab["RD"].get(f"{a},{b}", tab.get("default", BIG))
                    else:
                        pal = tab["rpal"]
                        v = pal[chash("r", tab["seed"], i, a, b) % len(pal)]
                    me.rtab[(a, b)] = v
        ev = {"t": s["t"] + 1, "per": s["per"], "dets": jd, "keys": keys,
              "mot": [] if mot is None else [mot[0], mot[1]],
              "D": [[me.tab.get((x["u"], k), BIG) for k in keys] for x in jd] if not cfg["geo"] else [],
              "RD": [[me.rtab.get((a, b), BIG) for b in keys] for a in keys] if cfg["reid"] else [],
              "exc": "", "obs": [], "ret": [], "act": [], "count": 0, "total": 0, "mut": []}
        before = [self.snap(d) for d in dets] if dets else []
        lst = list(dets) if dets is not None else None
        kw = {}
        if s["per"] != 1 or s.get("pk"):
            kw["period"] = s["per"]
        if motion is not None:
            kw["coord_transformations"] = motion
        try:
            with watchdog(10):
                if dets is None and not s.get("explicit_none"):
                    ret = me.tracker.update(**kw)
                else:
                    ret = me.tracker.update(dets, **kw)
                act = me.tracker.get_active_objects()
                count = me.tracker.current_object_count
                total = me.tracker.total_object_count
                objs = list(me.tracker.tracked_objects)
                ev["obs"] = [me.observe(o) for o in objs]
                ev["ret"] = [me.key(o) for o in ret]
                ev["act"] = [me.key(o) for o in act]
                ev["count"], ev["total"] = as_int(count), as_int(total)
                # what a caller does with the lists it got or gave is its own business
                for x in (ret, act, objs):
                    if isinstance(x, list) and not self.stim.get("keep"):
                        x.clear()
                for o in me.tracker.tracked_objects if not self.stim.get("keep") and s["t"] % 2 == 0 else []:
                    for a in (o.estimate, o.estimate_velocity, o.live_points):
                        if isinstance(a, np.ndarray) and a.flags.writeable:
                            a += True
        except Hang:
            ev["exc"] = "Hang"
        except Exception as e:  # valid input must not raise
            ev["exc"] = type(e).__name__
        mut = []
        for d, b in zip(dets or [], before):
            mut += self.snapdiff(b, self.snap(d)) + ["mut:" + n for n in self.given.get(id(d), [])]
        if dets is not None and (len(dets) != len(lst) or any(a is not b for a, b in zip(dets, lst))):
            mut.append("mut:list")
        if dets is not None:
            dets.clear()
        ev["mut"] = sorted(set(mut))
        me.order = [o["k"] for o in ev["obs"]]
        if s.get("drop"):      # the tracker and all it created disappear
            me.tracker, me.refs, me.keys = None, [], {}
        return ev


def execute(stim):
    """Run the stimulus on the real code, return the trace for TrackerTrace.tla."""
    run = Run(stim)
    evs = []
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        for i, s in enumerate(stim["steps"]):
            try:
                ev = run.step(i, s)
            except Hang:
                raise
            evs.append(ev)
            if ev["exc"] or any(BIG // 16 < abs(v) for o in ev["obs"] for f in ("est", "vel") for p in o.get(f, []) for v in p if v != WEIRD):
                break       # (or a filter that has gone far beyond any picture)
    cfgs = []
    for c in stim["cfgs"]:
        cfgs.append({"hmax": c["hmax"], "delay": c["hmax"] // 2 if c["delay"] is None else c["delay"],
                     "pmax": c["pmax"], "npast": c["npast"], "rmax": opt(c["rmax"]),
                     "dthr": c["dthr"], "reid": c["reid"], "T": c["T"], "RT": c["RT"],
                     "geo": GEO[c["metric"]] if c["geo"] else "",
                     "nofilt": c["filt"] in EXACT, "gain": int(c["filt"] == "ab"), "chkpast": c.get("chkpast", True)})
    return {"cfgs": cfgs, "ev": evs, "stim": stim}


# ---------------------------------------------------------------- generators
def gen_cfg(r, **force):
    hmax = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
    c = {"hmax": hmax, "delay": r.choice([None] + list(range(hmax))), "pmax": r.choice([1, 2, 3, 4, 6, 9]),
         "npast": r.choice([0, 1, 2, 3, 4, 4, 7]), "rmax": None, "reid": False,
         "dthr": r.choice([0, 0, 3, 5]), "T": r.choice([1, 3, 5, 5, 8, 12, BIG, (1 << 25) + 1]),
         "RT": r.choice([2, 5, 5, BIG]), "scale": r.choice([1.0, 1.0, 0.25, 0.5, 2.0 ** -13, 2.0 ** -20, 1024.0, 0.1, 0.7, 1 / 3, 1e-3]),
         "n": r.choice([1, 1, 2, 3]), "dim": r.choice([2, 2, 2, 3]), "geo": False, "metric": "", "filt": r.choice(["none", "ab", "ab", "opt", "kalman"]),
         "labels": r.choice([[0], [1], [1, 2], [0, 1, 2], [1, 3, 4], [5], [0, 5, 6], [6, 7, 0], [NANLAB, 1]]), "pers": r.choice([[1], [1, 2], [1, 1, 3], [2], [1, 2, 3]]),
         "scores": r.choice([0, 0.3, 0.8]), "pdet": r.choice([0.3, 0.6, 0.9]), "pnone": r.choice([0.05, 0.2, 0.4]),
         "dens": r.choice([0.15, 0.4, 0.8]), "maxd": r.choice([1, 2, 3, 4]), "motion": r.choice([0, 0, 0, 1])}
    c["stype"] = r.choice(["f8", "f8", "f8", "i8", "f4", "near", "f4near", "u1", "pct"])
    if r.random() < 0.4:
        c["omit"] = True
        for k, v in (("hmax", 15), ("pmax", 4), ("npast", 4), ("dthr", 0)):
            if r.random() < 0.4:
                c[k] = v
    c["dtypes"] = r.choice([["f8"], ["f8"], ["f8", "i8"], ["f4"], ["i4", "f4", "f8"], ["i8"]])
    if c["T"] > 1000 and c["T"] != BIG:
        c["scale"] = r.choice([1.0, 1.0, 0.1])
    elif c["T"] != BIG and r.random() < 0.15:      # all distances close to each other
        c["scale"], c["doff"] = r.choice([(2.0 ** -13, 4096.0), (1.0, 2.0 ** 26), (2.0 ** -30, 1.0)])
    if r.random() < 0.6:
        c["reid"] = r.random() < 0.8
        c["rmax"] = r.choice([None, 0, 1, 2, 3, 5])
        if c.get("omit") and r.random() < 0.4:
            c["RT"] = 0
    c.update(force)
    if c["delay"] is not None and c["delay"] >= c["hmax"]:
        c["delay"] = c["hmax"] - 1
    return c


def palette(r, T, dens):
    if T == BIG:
        base = [0, 1, 1, 2, 7, 40, -BIG]
        far = [BIG]
    elif T > 1000:
        base = [0, 1, 1, 2, 7, 4096, 1 << 24]
        base.append(1 << 25)
        far = [BIG, 1 << 26, 1 << 25 | 4, T, T, T + 1]
    else:
        base = [x for x in [0, 1, 1, 2, 3, T - 1, T - 1, T - 2, -1, -BIG] if x < T]
        far = [T, T, T + 1, 2 * T + 3, BIG]
    n = 12
    k = max(1, round(n * dens))
    return [r.choice(base) for _ in range(k)] + [r.choice(far) for _ in range(n - k)]


def gen_points(r, c, near=None, span=9):
    if near is not None:
        return [[v + r.choice([0, 0, 1, -1]) for v in p] for p in near]
    return [[r.randrange(span) for _ in range(c["dim"])] for _ in range(c["n"])]


def gen_stim(seed, ntrk=1, steps=20, slots=4, again=0, serial=False, same=False, **force):
    """Random interleaved histories with table driven or geometric distances."""
    r = random.Random(seed)
    cfgs = [gen_cfg(r, **force) for _ in range(ntrk)]
    for c in cfgs:
        if c["geo"]:
            c["metric"] = c["metric"] or r.choice(sorted(GEO))
            c["filt"] = c["filt"] if c["filt"] in EXACT else r.choice(EXACT)
            c["scale"], c["doff"] = 1.0, 0.0
            c["T"] = r.choice([4, 9, 16, 25])  # squares: exact for the rooted metrics
            if c["metric"] == "mean_manhattan" and c["n"] == 3:
                c["n"] = 2
        if c["motion"] and c["dim"] == 3:
            c["mk"] = "T"
    out = []
    pals = [(palette(r, c["T"], c["dens"]), palette(r, c["RT"], r.choice([0.3, 0.7]))) for c in cfgs]
    nslots = slots
    world = [[gen_points(r, c) for _ in range(nslots)] for c in cfgs]
    motkind = [r.choice(["T", "H"]) if c["dim"] == 2 else "T" for c in cfgs]
    off = [[0] * c["dim"] for c in cfgs]
    quiet = [0] * ntrk
    for i in range(steps):
        t = r.randrange(ntrk) if ntrk > 1 else 0
        c = cfgs[t]
        s = {"t": t, "per": r.choice(c["pers"])}
        if c["motion"]:
            # once given, a transformation is given on every update with detections
            off[t] = [v + r.choice([0, 1, -2, 3]) for v in off[t]]
            sc = r.choice([1, 2]) if motkind[t] == "H" and not c["geo"] else 1
            s["mot"] = [sc, list(off[t])]
            s["mk"] = motkind[t]
            if i > 2 and r.random() < 0.1:
                s["mot"] = None
        if quiet[t] > 0:
            quiet[t] -= 1
            s["dets"] = None if r.random() < 0.5 else []
        elif r.random() < c["pnone"]:
            s["dets"] = None if r.random() < 0.5 else []
            quiet[t] = r.choice([0, 0, 1, 2, 4])
        else:
            ds = []
            slots = r.sample(range(nslots), min(c["maxd"], nslots))
            for w in slots:
                if r.random() > c["pdet"]:
                    continue
                world[t][w] = gen_points(r, c, near=world[t][w]) if r.random() < 0.9 else gen_points(r, c)
                sc = None
                if r.random() < c["scores"]:
                    sc = [r.choice([0, c["dthr"], c["dthr"] + 1, 9]) for _ in range(c["n"])]
                ds.append({"lab": r.choice(c["labels"]), "sc": sc, "abs": [list(p) for p in world[t][w]],
                           **({"flat": 1} if c["n"] == 1 and r.random() < 0.2 else {})})
            s["dets"] = ds
        if s["dets"] is None and r.random() < 0.5:
            s["explicit_none"] = 1
        if again and s["dets"] and r.random() < again:
            j = [j for j, x in enumerate(out) if x["t"] == t and x["dets"]]
            if j:       # a cached Detection object is fed once more
                j = r.choice(j)
                s["reuse"], s["again"] = j, 2 if same else 1
        s["tab"] = {"seed": r.randrange(1 << 30), "pal": pals[t][0], "rpal": pals[t][1]}
        out.append(s)
    if serial:      # one tracker after the other, each dropped before the next one is created
        for n, s in enumerate(out):
            s["si"] = n
        out.sort(key=lambda s: s["t"])
        for a, b in zip(out, out[1:]):
            if a["t"] != b["t"]:
                a["drop"] = 1
    return {"cfgs": cfgs, "steps": out, **({"stride": 128} if nslots > 16 else {})}
