"""Pairs of executions of the real tracker that must be indistinguishable."""
from trackdrv import *


class TwinRun(Run):
    """A Run that also records estimates numerically and exactly."""

    def snapshot(self, me):
        out = []
        for o in sorted(me.tracker.tracked_objects, key=lambda o: as_int(o.initializing_id)):
            est = np.asarray(o.estimate, dtype=float)
            try:
                ab = np.asarray(o.get_estimate(absolute=True), dtype=float)
            except ValueError:
                ab = est
            vel = np.asarray(o.estimate_velocity, dtype=float)
            ld = o.last_distance
            out.append({"iid": as_int(o.initializing_id), "id": opt(o.id), "lab": lab_code(o.label),
                        "ini": bool(o.is_initializing), "hit": as_int(o.hit_counter),
                        "reid": opt(o.reid_hit_counter), "age": as_int(o.age),
                        "live": [bool(b) for b in np.asarray(o.live_points).ravel()],
                        "last": self.uids.get(id(o.last_detection), -1),
                        "past": [[self.uids.get(id(d), -1), as_int(d.age)] for d in o.past_detections],
                        "ld": [] if ld is None else [milli(ld)],
                        "est": [milli(v) for v in est.ravel()], "abs": [milli(v) for v in ab.ravel()],
                        "vel": [milli(v) for v in vel.ravel()],
                        "exact": repr(est.tolist()) + repr(vel.tolist())})
        return out


def milli(x):
    try:
        y = round(float(x) * 1000)
        return int(y) if abs(y) < BIG else WEIRD
    except Exception:
        return WEIRD


def run_side(stim):
    """Per own step of tracker 0: (snapshot, returned ids, exception)."""
    import io, contextlib
    run = TwinRun(stim)
    res = []
    with contextlib.redirect_stdout(io.StringIO()):
        for i, s in enumerate(stim["steps"]):
            ev = run.step(i, s)
            if s["t"] != 0:
                continue
            snap, ret = [], []
            if not ev["exc"]:
                me = run.one[0]
                snap = run.snapshot(me)
                kid = {me.keys[id(o)]: as_int(o.id) for o in me.tracker.tracked_objects}
                ret = sorted(kid.get(k, -1) for k in ev["ret"])
            res.append((snap, ret, ev["exc"]))
            if ev["exc"]:
                break
    return res


def pair(sa, sb, exact=False, tol=2, cmpest=True, apart=False):
    # apart: each in a process in which no tracker was made before
    a, b = (forked(run_side, sa), forked(run_side, sb)) if apart else (run_side(sa), run_side(sb))
    evs = []
    for (x, rx, ex), (y, ry, ey) in zip(a, b):
        evs.append({"a": x, "b": y, "ra": rx, "rb": ry, "exc": ex or ey})
    if len(a) != len(b) and not (evs and evs[-1]["exc"]):
        evs.append({"a": [], "b": [], "ra": [], "rb": [], "exc": "length"})
    return {"exact": exact, "tol": tol, "cmpest": cmpest, "ev": evs, "stim": {"a": sa, "b": sb}}


def with_si(stim):
    for i, s in enumerate(stim["steps"]):
        s["si"] = i
    return stim


def isolation_pair(seed):
    """The same history alone and between the updates of other trackers."""
    r = random.Random(seed)
    solo = with_si(gen_stim(seed, steps=18, geo=r.random() < 0.3,
                            filt=r.choice(["opt", "kalman", "none", "ab"])))
    others = [gen_stim(seed * 7 + j + 1, steps=r.choice([4, 12, 20]),
                       filt=solo["cfgs"][0]["filt"]) for j in range(r.choice([1, 2]))]
    steps, queues = [], [list(o["steps"]) for o in others]
    for j, o in enumerate(others):
        if r.random() < 0.5:      # a tracker that already lived before
            for s in queues[j][:5]:
                steps.append(dict(s, t=j + 1))
            queues[j] = queues[j][5:]
    for s in solo["steps"]:
        for j, q in enumerate(queues):
            while q and r.random() < 0.5:
                steps.append(dict(q.pop(0), t=j + 1))
        steps.append(s)
    for n, s in enumerate(steps):
        if s["t"] != 0:
            s["si"] = 1000 + n
    solo["keep"] = 1      # this caller leaves the lists it gets as they are, the other empties them
    mixed = {"cfgs": solo["cfgs"] + [o["cfgs"][0] for o in others], "steps": steps}
    return pair(solo, mixed, exact=True, tol=0, apart=True)


def camera_pair(seed):
    """The same world seen by a static and by a translating camera."""
    r = random.Random(seed)
    met = r.choice(["cityblock", "chebyshev", "sqeuclidean", "euclidean", "frobenius", "mean_manhattan", "mean_euclidean"])
    st = with_si(gen_stim(seed, steps=20, geo=True, motion=0, metric="euclidean", n=r.choice([1, 2, 3])))
    c = st["cfgs"][0]
    c["metric"], c["filt"], c["T"] = met, r.choice(["opt", "kalman", "none", "ab"]), 25
    mv = json.loads(json.dumps(st))
    off = [0] * c["dim"]
    kind = r.choice(["T", "H"]) if c["dim"] == 2 else "T"
    for s in mv["steps"]:
        if r.random() < 0.8:
            # whole pixels and fractions of a pixel
            off = [v + r.choice([0, 3, -8, 16, 0.3125, -2.8125, 0.0625]) for v in off]
        s["mot"], s["mk"] = [1, list(off)], kind
    # ties between distances may be resolved differently when numbers differ in the
    # last bit; make every world coordinate distinct enough
    for a, b in zip(st["steps"], mv["steps"]):
        for j, (x, y) in enumerate(zip(a["dets"] or [], b["dets"] or [])):
            jit = [[v + chash(seed, a["si"], j, p, q) % 1024 / 4096.0 for q, v in enumerate(pt)]
                   for p, pt in enumerate(x["abs"])]
            x["abs"], y["abs"] = jit, jit
    tr = pair(st, mv, tol=5, cmpest=False)
    for ev, s in zip(tr["ev"], mv["steps"]):      # where the moving camera sees what the static one sees
        ev["cam"] = [milli(v) for v in s["mot"][1]]
    return tr


def garbage_pair(seed):
    """The same history with different coordinates at the untrusted points of detections that
    are matched (the first detection of an object defines where its points start)."""
    r = random.Random(seed)
    a = with_si(gen_stim(seed, steps=18, geo=False, scores=r.choice([0.7, 1.0]), n=r.choice([2, 3]),
                         filt=r.choice(["opt", "kalman", "none", "ab"]), motion=0))
    b = json.loads(json.dumps(a))
    c = a["cfgs"][0]
    births = set()
    run = Run(a)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        known = set()
        for i, s in enumerate(a["steps"]):
            ev = run.step(i, s)
            if ev["exc"]:
                break
            for o in ev["obs"]:
                if o["k"] not in known:
                    known.add(o["k"])
                    births.add(o["k"])
    n = 0
    for s, t in zip(a["steps"], b["steps"]):
        for j, (x, y) in enumerate(zip(s["dets"] or [], t["dets"] or [])):
            if x["sc"] is None or s["si"] * 16 + 1 + j in births:
                continue
            for i, v in enumerate(x["sc"]):
                if v <= c["dthr"]:
                    n += 1
                    y["abs"][i] = [w + r.choice([100, -300, 41]) for w in y["abs"][i]]
    return pair(a, b, tol=3)


def separate_pair(seed):
    """One object of several points, and each of its points tracked alone."""
    r = random.Random(seed)
    n, dim, filt = r.choice([2, 3, 4]), r.choice([2, 3]), r.choice(["opt", "kalman", "none", "ab"])
    hmax, delay, pmax, thr = r.choice([3, 6, 12]), r.choice([0, 1, 2]), r.choice([1, 3, 5]), r.choice([0.0, 0.4])
    steps = []
    vel = [[r.choice([0, 1, -3, 6]) for _ in range(dim)] for _ in range(n)]
    for k in range(r.choice([8, 14])):
        pts = [[10.0 * i + vel[i][j] * k + r.choice([0, 0, 0.5, -1]) for j in range(dim)] for i in range(n)]
        sc = None if r.random() < 0.15 else [r.choice([0.0, thr, 0.9, 0.9]) for _ in range(n)]
        if sc is not None:
            pts = [p if s > thr else [r.choice([0.0, 500.0, v]) for v in p] for p, s in zip(pts, sc)]
        steps.append((r.random() < 0.75 or k == 0, r.choice([1, 1, 2]), pts, sc))

    def track(idx):
        t = Tracker(lambda d, o: 0.0, 1.0, hit_counter_max=hmax, initialization_delay=delay, pointwise_hit_counter_max=pmax,
                    detection_threshold=thr, filter_factory=FILTERS[filt]())
        out = []
        for k, (seen, per, pts, sc) in enumerate(steps):
            d = None
            if seen:
                d = [Detection(np.array([pts[i] for i in idx]), scores=None if sc is None else np.array([sc[i] for i in idx]), data=k)]
            t.update(d, period=per)
            out.append([dict(iid=as_int(o.initializing_id), id=opt(o.id), lab=0, ini=bool(o.is_initializing), hit=as_int(o.hit_counter),
                             reid=[], age=as_int(o.age), live=[bool(b) for b in np.asarray(o.live_points).ravel()],
                             last=o.last_detection.data, past=[], ld=[], est=[milli(v) for v in o.estimate.ravel()], abs=[],
                             vel=[milli(v) for v in np.asarray(o.estimate_velocity).ravel()], exact="") for o in t.tracked_objects])
        return out
    stim = dict(n=n, dim=dim, filt=filt, hmax=hmax, delay=delay, pmax=pmax, thr=thr, steps=steps)
    try:
        with watchdog(20):
            a, alone = track(range(n)), [track([i]) for i in range(n)]
    except Hang:
        return {"exact": False, "tol": 2, "cmpest": True, "ev": [dict(a=[], b=[], ra=[], rb=[], exc="Hang")], "stim": stim}
    except Exception as e:
        return {"exact": False, "tol": 2, "cmpest": True, "ev": [dict(a=[], b=[], ra=[], rb=[], exc=type(e).__name__)], "stim": stim}
    evs = []
    for k, x in enumerate(a):
        b = []
        for j in range(min(len(o[k]) for o in alone)):
            y = dict(alone[0][k][j])
            for f in ("live", "est", "vel"):
                y[f] = sum((o[k][j][f] for o in alone), [])
            b.append(y)
        evs.append(dict(a=x, b=b, ra=[], rb=[], exc=""))
    return {"exact": False, "tol": 2, "cmpest": True, "ev": evs, "stim": stim}
