"""Two executions of the real tracker that may differ only by renaming (HyperTrace.tla)."""
from trackdrv import *
from twin import TwinRun, milli

SPAN = 1 << 24


class HyperRun(TwinRun):
    """Distances are distinct with certainty for practical purposes; things of different
    groups (mode "far") are never close."""

    def make_det(self, spec, u, mot, cfg):
        u = spec["u"]
        return super().make_det(spec, u, mot, cfg)


class Table(dict):
    """Distances by hash of the two uids, whatever the order they are asked in."""

    def __init__(self, f):
        self.f = f

    def get(self, k, default=None):
        return self.f(*k)


def side(stim, group=None):
    """stim: cfg, steps [per, mot, dets (None | list of specs with u, g)]; one tracker for the
    whole (group None) or for the detections of one group. Per step: (objects, returned, total, exc)."""
    c = stim["cfg"]
    run = HyperRun({"cfgs": [c], "steps": []})
    run.one[0] = One(c, run)
    me = run.one[0]
    grp, seed, far = {}, stim["seed"], stim["far"]
    out = []
    for i, s in enumerate(stim["steps"]):
        dets = s["dets"]
        if dets is not None and group is not None:
            dets = [d for d in dets if d["g"] == group]
        objs = None
        mot = s.get("mot")
        if dets is not None:
            objs = [run.make_det(d, d["u"], mot, c) for d in dets]
            for d in dets:
                grp[d["u"]] = d["g"]
        n = s["n"]

        def dist(u, k, tag="d", t=c["T"]):
            if far and grp.get(u) != grp.get(k):
                return max(t, 1) + chash(seed, tag, n, u, k) % 3 if t != BIG else BIG
            return chash(seed, tag, n, u, k) % (2 * SPAN)
        me.tab = Table(lambda u, k: dist(u, k))
        me.rtab = Table(lambda a, b: dist(a, b, "r", c["RT"]))
        kw = {}
        if s["per"] != 1 or i % 3 == 0:
            kw["period"] = s["per"]
        if mot is not None:
            kw["coord_transformations"] = make_motion(mot, c["dim"], s.get("mk", "T"))
        try:
            with watchdog(10):
                ret = me.tracker.update(objs, **kw) if objs is not None or i % 2 else me.tracker.update(**kw)
                for o in me.tracker.tracked_objects:
                    me.key(o)
                snap = []
                for x, o in zip(run.snapshot(me), sorted(me.tracker.tracked_objects, key=lambda o: as_int(o.initializing_id))):
                    del x["exact"]
                    snap.append(dict(x, k=me.keys[id(o)], g=group or 0, gid=opt(o.global_id), iid=[x["iid"]]))
                out.append((snap, [me.key(o) for o in ret], as_int(me.tracker.total_object_count), ""))
        except Hang:
            out.append(([], [], 0, "Hang"))
            break
        except Exception as e:
            out.append(([], [], 0, type(e).__name__))
            break
    return out


PLAIN = dict(s=1, swap=False, sh=[0, 0, 0], dim=2, ls=1, tol=0, mono=False)


def judge_sides(sides_a, b, stim, **kw):
    evs = []
    for i in range(min(len(x) for x in sides_a + [b])):
        evs.append(dict(a=sum((x[i][0] for x in sides_a), []), ra=sum((x[i][1] for x in sides_a), []),
                        na=sum(x[i][2] for x in sides_a), b=b[i][0], rb=b[i][1], nb=b[i][2],
                        exc=next((x[i][3] for x in sides_a + [b] if x[i][3]), "")))
    return dict(PLAIN, ev=evs, stim=stim, **kw) if not kw else dict(dict(PLAIN, **kw), ev=evs, stim=stim)


def gen(seed, **force):
    r = random.Random(seed)
    crowd = r.random() < 0.1
    base = gen_stim(seed, steps=r.choice([10, 18, 26]) if not crowd else 7, slots=24 if crowd else 8, T=r.choice([SPAN, SPAN, SPAN // 2, SPAN * 3 // 2, BIG]),
                    RT=r.choice([SPAN, SPAN // 2, BIG]), scale=r.choice([1.0, 2.0 ** -24, 2.0 ** -20]), maxd=20 if crowd else r.choice([2, 4, 6]), **force)
    c = base["cfgs"][0]
    steps, u = [], 0
    for i, s in enumerate(base["steps"]):
        ds = None
        if s["dets"] is not None:
            ds = []
            for d in s["dets"]:
                u += 1
                ds.append(dict(d, u=i * 64 + len(ds) + 1, g=0))
        steps.append(dict(per=s["per"], mot=s.get("mot"), mk=s.get("mk", "T"), dets=ds, n=i))
    return r, dict(cfg=c, steps=steps, seed=seed, far=False)


def groups_pair(seed):
    """One tracker for all groups against one tracker per group."""
    r, st = gen(seed)
    mode = r.choice(["far", "far", "label"])
    G = r.choice([2, 2, 3])
    labs = r.sample(sorted(LABELS), G)
    for s in st["steps"]:
        for d in s["dets"] or []:
            if mode == "label":
                d["g"] = r.randrange(1, G + 1)
                d["lab"] = labs[d["g"] - 1]
            else:
                d["g"] = r.randrange(1, G + 1)
    st["far"] = mode == "far"
    return judge_sides([side(st, g) for g in range(1, G + 1)], side(st), st, mono=True)


def order_pair(seed):
    """Detections of each frame in another order, labels renamed, idle updates before."""
    r, st = gen(seed)
    b = dict(st, steps=[dict(s, dets=None if s["dets"] is None else [dict(d) for d in s["dets"]]) for s in st["steps"]])
    kind = r.choice(["order", "order", "labels", "idle", "all"])
    if kind in ("order", "all"):
        for s in b["steps"]:
            if s["dets"]:
                how = r.choice(["reverse", "shuffle"])
                s["dets"].reverse() if how == "reverse" else r.shuffle(s["dets"])
    if kind in ("labels", "all"):
        perm = sorted(LABELS)
        r.shuffle(perm)
        for s in b["steps"]:
            for d in s["dets"] or []:
                d["lab"] = perm[d["lab"]] if d["lab"] in LABELS else d["lab"]
    k = 0
    if kind in ("idle", "all"):
        k = r.choice([1, 2, 5, 9])
        b["steps"] = [dict(per=r.choice([1, 1, 2, 3]), mot=None, dets=r.choice([None, []]), n=-1 - i) for i in range(k)] + b["steps"]
    sb = side(b)
    crash = [x for x in sb[:k] if x[3] or x[0] or x[1] or x[2]]
    t = judge_sides([side(st)], crash[:1] or sb[k:], st, mono=kind in ("labels", "idle"))
    t["stim"] = dict(st, kind=kind, other=b["steps"])
    return t


METRICS = {"euclidean": 1, "cityblock": 1, "chebyshev": 1, "frobenius": 1, "mean_euclidean": 1, "mean_manhattan": 1, "sqeuclidean": 2, "iou": 0}


def place_pair(seed):
    """The same scene in another coordinate system."""
    r = random.Random(seed)
    met = r.choice(sorted(METRICS))
    dim = 2 if met == "iou" else r.choice([2, 2, 3])
    n = 2 if met == "iou" else r.choice([1, 2, 3])
    filt = r.choice(["none", "opt", "kalman", "ab"])
    s, swap = r.choice([1, 2, 4]), r.random() < 0.5
    sh = [r.choice([0, 1, -7, 64, 100]) for _ in range(dim)]
    m = r.choice([2, 3, 5])
    thr = 0.6 if met == "iou" else r.choice([3.1, 8.3, 21.7]) * (10 if met == "sqeuclidean" else 1)
    kw = dict(hit_counter_max=r.choice([2, 4, 8]), initialization_delay=r.choice([0, 1]), past_detections_length=r.choice([0, 3]),
              pointwise_hit_counter_max=r.choice([1, 3]), detection_threshold=0.4)
    pos = [[[r.randrange(40) + r.random() for _ in range(dim)] for _ in range(n)] for _ in range(m)]
    vel = [[r.choice([0, 1, -2, 3]) for _ in range(dim)] for _ in range(m)]
    steps = []
    for k in range(r.choice([6, 12])):
        ds = []
        for i in range(m):
            pos[i] = [[p[j] + vel[i][j] + r.random() - 0.5 for j in range(dim)] for p in pos[i]]
            if r.random() < 0.75:
                pts = [list(p) for p in pos[i]]
                if met == "iou":
                    pts = [pts[0], [pts[0][j] + 8 + i + r.random() for j in range(2)]]
                sc = None if met == "iou" or r.random() < 0.5 else [r.choice([0.2, 0.9, 0.9]) for _ in range(n)]
                ds.append((pts, sc, r.choice([1, 2]) if i == 0 else 1))
        steps.append((ds, r.choice([1, 1, 2])))

    perm, company = r.random() < 0.4, r.random() < 0.4
    guests = [([[v + 10.0 ** 5 + 500 * i + r.random() for v in p] for p in q], r.choice([1, 2, 2])) for i, q in enumerate(pos)]

    def go(s, swap, sh, thr, perm=False, company=False):
        rr = random.Random(seed + 1)
        def conv(p):
            p = [s * v for v in p]
            if swap:
                p[0], p[1] = p[1], p[0]
            return [v + sh[j] for j, v in enumerate(p)]
        t = Tracker(met, thr, filter_factory=FILTERS[filt](), **kw)
        keys, refs, out, uid = {}, [], [], {}
        for k, (ds, per) in enumerate(steps):
            objs = [Detection(np.array([conv(p) for p in pts]), scores=None if sc is None else np.array(sc), label=LABELS[lab])
                    for pts, sc, lab in ds]
            refs.append(objs)
            for j, d in enumerate(objs):
                uid[id(d)] = k * 64 + j + 1
            if company:
                for q, lab in guests:
                    if rr.random() < 0.7:
                        q = [q[0], [v + 9 for v in q[0]]] if met == "iou" else q
                        objs.append(Detection(np.array([conv(p) for p in q]), label=LABELS[lab]))
                        uid[id(objs[-1])] = k * 64 + 32 + len(objs)
            if perm:
                rr.shuffle(objs)
            try:
                with watchdog(10):
                    ret = t.update(objs, period=per)
                    snap = []
                    for o in t.tracked_objects:
                        if id(o) not in keys:
                            keys[id(o)] = uid[id(o.last_detection)]
                            refs.append(o)
                        if keys[id(o)] % 64 > 32:
                            continue
                        e = [milli(v) for v in o.estimate.ravel()]
                        snap.append(dict(k=keys[id(o)], g=0, id=opt(o.id), gid=opt(o.global_id), iid=opt(o.initializing_id), lab=lab_code(o.label),
                                         ini=bool(o.is_initializing), hit=as_int(o.hit_counter), reid=opt(o.reid_hit_counter), age=as_int(o.age),
                                         live=[bool(v) for v in np.asarray(o.live_points).ravel()], last=uid.get(id(o.last_detection), -1),
                                         past=[[uid.get(id(d), -1), as_int(d.age)] for d in o.past_detections],
                                         ld=[] if o.last_distance is None else [milli(o.last_distance)],
                                         est=e, abs=[milli(v) for v in o.get_estimate(absolute=False).ravel()],
                                         vel=[milli(v) for v in np.asarray(o.estimate_velocity).ravel()]))
                    out.append((snap, [keys[id(o)] for o in ret if keys[id(o)] % 64 <= 32], 0 if with_company else as_int(t.total_object_count), ""))
            except Hang:
                out.append(([], [], 0, "Hang"))
                break
            except Exception as e:
                out.append(([], [], 0, type(e).__name__))
                break
        return out
    with_company = company
    ls = s ** METRICS[met]
    a = go(1, False, [0] * dim, thr)
    b = go(s, swap, sh, thr * ls, perm, company)
    return judge_sides([a], b, dict(metric=met, filt=filt, n=n, dim=dim, steps=steps, s=s, swap=swap, shift=sh, thr=thr, perm=perm, company=company, **kw),
                       s=s, swap=swap, sh=[1000 * v for v in sh], dim=dim, ls=ls, tol=2, mono=not perm)
