"""Estimates of real trackers and of filters driven directly, for FilterTrace.tla."""
from trackdrv import *

SC = 4096


def fx(v):
    try:
        v = float(v)
        if math.isnan(v) or abs(v) > 200000:
            return WEIRD
        return int(round(v * SC))
    except Exception:
        return WEIRD


def flat(a):
    return [fx(v) for v in np.asarray(a, dtype=float).ravel()]


def params(r, kind, default=False, small=False, exact=False):
    """Returns factory, parameters for the specification."""
    if kind == "none":
        return NoFilterFactory(), dict(kind="none", r=SC, qp=0, qv=0, p0=0, c0=0, w0=0), {}
    if default:
        R, Q, P0, C0, V0, P = 4.0, 0.1, 10.0, 0.0, 1.0, 10.0
        kw = {}
    else:
        R, Q = r.choice([0.5, 1.0, 4.0, 25.0]), r.choice([0.1, 0.5, 1.0])
        if small:
            R, Q = r.choice([0.5, 1.0, 4.0]), r.choice([0.05, 0.1, 0.5])
        # noise-free measurements, no process noise, a velocity known from the start
        if r.random() < 0.15:
            Q = 0.0 if not small else Q     # (in a long run nothing would forget the rounding)
        elif exact and r.random() < 0.2:
            R = 0
        P0, C0 = r.choice([1.0, 5.0, 20.0]), r.choice([0.0, 0.25])
        V0, P = r.choice([0.5, 1.0, 4.0, 4.0, 0.0 if C0 == 0 else 4.0]), r.choice([1.0, 10.0, 10.0, 0.0])
        kw = dict(R=R, Q=Q, P=P) if kind == "kalman" else dict(
            R=R, Q=Q, pos_variance=P0, pos_vel_covariance=C0, vel_variance=V0)
    if kind == "kalman":
        f = dict(kind=kind, r=fx(R), qp=SC, qv=fx(Q), p0=SC, c0=0, w0=fx(P))
        if Q == 0:
            f["slack"] = 4
        return FilterPyKalmanFilterFactory(**kw), f, kw
    f = dict(kind=kind, r=fx(R), qp=fx(Q), qv=fx(Q), p0=fx(P0), c0=fx(C0), w0=fx(V0))
    if Q == 0:
        f["slack"] = 4      # nothing forgets the rounding of the variances
    return OptimizedKalmanFilterFactory(**kw), f, kw


def tracker_trace(seed, **force):
    """A tracker with table driven matching; every object's motion is recorded."""
    r = random.Random(seed)
    kind = force.get("kind") or r.choice(["opt", "opt", "kalman", "kalman", "none"])
    psc = force.get("scores", r.choice([0, 0.5, 0.9]))
    ff, f, kw = params(r, kind, default=r.random() < 0.4, exact=kind == "opt" or not psc)
    n, dim = force.get("n") or r.choice([1, 1, 2, 3]), r.choice([2, 2, 3])
    motion = dim == 2 and r.random() < force.get("motion", 0.25)
    reid = r.random() < 0.3
    thr = r.choice([0, 0.3])
    n_obj = r.choice([1, 1, 2, 3])
    hmax = r.choice([3, 5, 8])
    which, uid, keep = {}, {}, []
    keyof = {}

    def dist(d, o):
        return 0.0 if d.data["t"] == which.get(id(o)) else 1000.0

    def rdist(a, b):
        return 0.0 if (which.get(id(a)), which.get(id(b))) in links else 1000.0

    links = set()
    extra = dict(reid_distance_function=rdist, reid_distance_threshold=1, reid_hit_counter_max=20) if reid else {}
    tk = dict(distance_function=dist, distance_threshold=1.0, hit_counter_max=hmax,
              initialization_delay=r.choice([0, 1]), pointwise_hit_counter_max=r.choice([1, 4]),
              detection_threshold=thr, past_detections_length=0)
    if not (kind == "opt" and not kw and r.random() < 0.5):
        tk["filter_factory"] = ff      # otherwise the default filter
    tr = Tracker(**tk, **extra)
    pos = {t: np.array([[r.randrange(-60, 60) for _ in range(dim)] for _ in range(n)], float) for t in range(6)}
    vel = {t: np.array([[r.choice([0, 1, -2, 5]) for _ in range(dim)] for _ in range(n)], float) for t in range(6)}
    evs, stim = [], []
    off = np.zeros(dim)
    key, nkey, state = {}, 0, {}
    lost = {}
    for i in range(r.choice([12, 18])):
        if reid and i > 4 and r.random() < 0.15:
            # a target changes its name: the old object is lost, a new one appears
            a = r.randrange(n_obj)
            b = 10 + i
            pos[b], vel[b] = pos[a] + 7, vel[a]
            links.add((b, a))
            names = [b if x == a else x for x in names]
        elif i == 0:
            names = list(range(n_obj))
        mot = None
        if motion:
            off = off + np.array([r.choice([0, 3, -4]) for _ in range(dim)])
            mot = TranslationTransformation(off.copy())
        dets, z = [], {}
        for t in names:
            pos[t] = pos[t] + vel[t] + np.array([[r.choice([0, 0, 1, -1, 0.5]) for _ in range(dim)] for _ in range(n)])
            if r.random() < 0.3:
                continue
            p = pos[t].copy()
            if i > 0 and r.random() < 0.15 and t in state and kind != "none":
                # exactly where the object is expected
                x, v = state[t]
                if x.shape == p.shape:
                    p = x + v
            sc = None
            if r.random() < psc:
                sc = np.array([r.choice([thr, 0.9, 0.9, 0.0 if thr else 0.9]) for _ in range(n)])
                if r.random() < 0.5:
                    p[sc <= thr] = 0.0
            d = Detection(p if mot is None else p + off, scores=sc, data={"t": t})
            keep.append(d)
            dets.append(d)
            z[id(d)] = (p, [True] * n if sc is None else [bool(s > thr) for s in sc])
        stim.append({"dets": [[d.data["t"], z[id(d)][0].tolist(), None if d.scores is None else d.scores.tolist()] for d in dets],
                     "off": off.tolist() if motion else None})
        per = r.choice([1, 1, 1, 2])
        ev = {"exc": "", "pred": True, "obs": []}
        before = {id(o): o for o in tr.tracked_objects}
        try:
            with watchdog(10):
                tr.update(dets, period=per, coord_transformations=mot)
                now = list(tr.tracked_objects)
                gone = [o for k, o in before.items() if all(o is not q for q in now)]
                fresh = [o for o in now if id(o) not in before]
                for o in fresh:
                    keep.append(o)
                    which[id(o)] = o.last_detection.data["t"]
                    nkey += 1
                    key[id(o)] = nkey
                state = {}
                for o in now:
                    d = o.last_detection if id(o.last_detection) in z else None
                    src = key[id(o)]
                    if d is not None and d.data["t"] != which[id(o)]:
                        # it continues the track of an object that is gone
                        s = [g for g in gone if which[id(g)] == d.data["t"]]
                        src = key[id(s[0])] if s else 0
                        which[id(o)] = d.data["t"]
                    a = o.get_estimate(absolute=True) if o.abs_to_rel is not None else o.estimate
                    v = o.estimate_velocity
                    state[which[id(o)]] = (np.array(a), np.array(v))
                    ev["obs"].append({"idle": False, "k": key[id(o)], "born": any(o is q for q in fresh), "src": src,
                                      "z": [flat(z[id(d)][0])] if d is not None else [],
                                      "tr": z[id(d)][1] if d is not None else [],
                                      "x": flat(a), "v": flat(v)})
        except Hang:
            ev["exc"] = "Hang"
        except Exception as e:
            ev["exc"] = type(e).__name__
        evs.append(ev)
        if ev["exc"]:
            break
    return {"f": f, "d": dim, "ev": evs,
            "stim": {"seed": seed, "filter": kind, "args": kw, "reid": reid, "steps": stim}}


def direct_trace(seed, long=False):
    """Several filters of one factory driven directly, predictions and updates in any order."""
    r = random.Random(seed)
    kind = r.choice(["opt", "kalman", "none"])
    ff, f, kw = params(r, kind, default=r.random() < 0.3, small=long)
    n, dim = r.choice([1, 2]), r.choice([1, 2, 3])
    if long:
        f["slack"] = 3
    if long and r.random() < 0.3:
        n = r.choice([6, 12])
    fs, evs, stim = {}, [], []
    for _ in range(r.choice([0, 0, 0, 100])):      # a factory that has served many objects
        ff.create_filter(np.array([[r.randrange(-50, 50) / 2 for _ in range(dim)] for _ in range(n)])).predict()
    for i in range(16 if not long else r.choice([60, 150])):
        ev = {"exc": "", "pred": False, "obs": []}
        try:
            rz = []
            if i == 0 or (r.random() < 0.1 and len(fs) < (5 if not long else 2)):
                k = len(fs) + 1
                z = np.array([[r.randrange(-50, 50) / 2 for _ in range(dim)] for _ in range(n)])
                fs[k] = ff.create_filter(z)
                act = ("born", k, z, [True] * n)
            elif r.random() < 0.4:
                k = r.choice(sorted(fs))
                fs[k].predict()
                act = ("predict", k, None, None)
            else:
                k = r.choice(sorted(fs))
                m = [r.random() < (0.95 if long else 0.7) for _ in range(n)]
                z = np.array([[r.randrange(-50, 50) / 2 for _ in range(dim)] for _ in range(n)])
                R = None
                if kind != "none" and r.random() < 0.3:      # the noise given with the update is the one that counts
                    base = f["r"] / SC      # of similar size: the rounding of the variance must not matter
                    rr = base * r.choice([0.5, 2.0, 3.0]) if base else r.choice([0.5, 2.0, 9.0])
                    R, rz = np.eye(n * dim) * rr, [fx(rr)]
                if all(m) and r.random() < 0.3:
                    fs[k].update(z.reshape(-1, 1), R)
                else:
                    H = np.hstack([np.diag(np.repeat(m, dim)).astype(float), np.zeros((n * dim, n * dim))])
                    fs[k].update(z.reshape(-1, 1), R, H)
                act = ("update", k, z, m)
        except Exception as e:
            ev["exc"] = type(e).__name__
            evs.append(ev)
            break
        stim.append([act[0], act[1], None if act[2] is None else act[2].tolist(), act[3]])
        # one event per acted filter; the others must not have moved
        ev["pred"] = act[0] == "predict"
        for k, q in fs.items():
            x = np.asarray(q.x).ravel()
            ev["obs"].append({"k": k, "born": act[0] == "born" and k == act[1], "src": k,
                              "z": [flat(act[2])] if act[2] is not None and k == act[1] else [],
                              "tr": act[3] if act[3] is not None and k == act[1] else [],
                              "idle": k != act[1], "r": rz if k == act[1] else [],
                              "x": flat(x[:n * dim]), "v": flat(x[n * dim:])})
        evs.append(ev)
    return {"f": f, "d": dim, "ev": evs, "stim": {"seed": seed, "filter": kind, "args": kw, "direct": stim}}


def words(length):
    """Every schedule of frames without match, matches and partial matches of one two-point object."""
    import itertools
    out = []
    alphabet = ["miss", "near", "far", "partial", "other"]
    for kind in ("opt", "kalman", "none"):
        for w in itertools.product(alphabet, repeat=length):
            for born in ([True, True], [True, False]):
                ff, f, kw = params(None, kind, default=True)
                tr = Tracker(distance_function=lambda d, o: 0.0, distance_threshold=1.0, hit_counter_max=20,
                             initialization_delay=0, detection_threshold=0.3, filter_factory=ff)
                evs = []
                for i, a in enumerate(("birth",) + w):
                    z, m = None, None
                    if a != "miss":
                        p = {"birth": [[0, 10], [20, -4]], "near": [[3 * i, 11], [20 + i, -4]], "far": [[40, -30], [1, 1]],
                             "partial": [[2 * i, 9], [0, 0]], "other": [[0, 0], [25, 3]]}[a]
                        m = {"birth": born, "partial": [True, False], "other": [False, True]}.get(a, [True, True])
                        z = Detection(np.array(p, float), scores=np.where(m, 0.9, 0.1))
                    ev = {"exc": "", "pred": True, "obs": []}
                    try:
                        with watchdog(10):
                            tr.update([] if z is None else [z], period=12 if i == 0 else 1)
                        for o in tr.tracked_objects[:1]:
                            ev["obs"].append({"k": 1, "born": i == 0, "src": 1, "idle": False,
                                              "z": [flat(p)] if z is not None else [], "tr": list(m) if m else [],
                                              "x": flat(o.estimate), "v": flat(o.estimate_velocity)})
                    except Hang:
                        ev["exc"] = "Hang"
                    except Exception as e:
                        ev["exc"] = type(e).__name__
                    evs.append(ev)
                    if ev["exc"]:
                        break
                out.append({"f": f, "d": 2, "ev": evs, "stim": {"filter": kind, "schedule": w, "first": born}})
    return out
