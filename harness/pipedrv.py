"""The whole MOT pipeline on the real code, for PipeTrace.tla: detection file -> parser -> tracker ->
prediction file and scores."""
from motdrv import *
from trackdrv import FILTERS

S = 2       # coordinates are integers in units of 1/S px
REAL = {"frobenius": lambda T: math.sqrt(T) / S, "euclidean": lambda T: math.sqrt(T) / S, "sqeuclidean": lambda T: T / S ** 2,
        "cityblock": lambda T: T / S, "chebyshev": lambda T: T / S, "iou": lambda T: T / 50000}
SPEC = dict(GEO, iou="iou")


def i2(v):
    v = float(v) * S
    if math.isnan(v) or abs(v) > 10 ** 8 or abs(v - round(v)) > 1e-6:
        return WEIRD
    return int(round(v))


def txt(v):
    return str(v // S) if v % S == 0 else "%.1f" % (v / S)


def world(r, n, still, jumpy):
    """Truths in lanes of their own: (truth rows per frame, detection rows)."""
    lanes = r.sample(range(6), r.randrange(1, 5))
    ids = r.sample(range(1, 60), len(lanes))
    gss, rows = [[] for _ in range(n)], []
    p_seen, p_out, noise = r.choice([1.0, 0.9, 0.6]), r.choice([0.0, 0.1, 0.25]), r.choice([0, 0, 2, 6])
    low, jump = r.choice([0, 0, 0.15]), r.choice([0, 0.03, 0.12]) if jumpy else 0
    for lane, g in zip(lanes, ids):
        w, h = r.randrange(60, 120), r.randrange(60, 120)
        x, y, v = r.randrange(0, 800), 400 * lane + r.randrange(0, 60), r.choice([0, 0, 3, -4, 9])
        there = r.random() < 0.7
        for f in range(n):
            if r.random() < p_out:
                there = not there
                if there and r.random() < 0.5:
                    x += r.randrange(-200, 200)
            x += v
            if r.random() < jump:
                x += r.choice([-1, 1]) * r.randrange(60, 240)
            if not still and r.random() < 0.2:
                w, h = w + r.randrange(-3, 4), h + r.randrange(-3, 4)
            if not there:
                continue
            gss[f].append(dict(id=g, l=x, t=y, w=w, h=h))
            if r.random() < p_seen:
                dx, dy = r.randrange(-noise, noise + 1), r.randrange(-noise, noise + 1)
                rows.append([f + 1, x + dx, y + dy, w, h, r.randrange(1, 2 * S) if r.random() >= low else r.randrange(-S, 1)])
    for f in range(n):      # what is no truth
        if r.random() < r.choice([0, 0.1]):
            k = r.choice([6, 7])
            rows.append([f + 1, r.randrange(0, 900), 400 * k, r.randrange(60, 120), r.randrange(60, 120), S])
    r.shuffle(rows)
    return gss, rows


def run(seed, root):
    r = random.Random(seed)
    hmax = r.choice([1, 2, 3, 3, 5, 15])
    metric = r.choice(sorted(REAL))
    filt = r.choice(["none", "none", "ab"])
    per = r.choice([1, 1, 1, 2, 3])
    T = r.choice([25000, 37500, 50000]) if metric == "iou" else r.choice([60, 150, 350]) if SPEC[metric] != "L2sq" else r.choice([400, 5000, 60000])
    cfg = dict(hmax=hmax, delay=r.choice([None] + list(range(hmax))), pmax=r.choice([1, 4]), npast=r.choice([0, 2]), T=T,
               reid=r.random() < 0.5, RT=r.choice([200, 500, 500]), rmax=None, dthr=r.choice([0, 0, 0, 1]), per=per)
    if cfg["reid"]:
        cfg["rmax"] = r.choice([None, 1, 3, 8])
    spec = dict(cfg, delay=hmax // 2 if cfg["delay"] is None else cfg["delay"], rmax=opt(cfg["rmax"]), gain=int(filt == "ab"),
                metric=SPEC[metric])
    want = ["num_misses", "num_false_positives", "num_switches", "mota", "idf1", "num_objects"]
    evs, done, stim = [], [], dict(cfg=cfg, metric=metric, filt=filt, seqs=[])
    with scratch(root) as d:
        acc = NM.Accumulators()
        for name in r.sample(["MOT-1", "a", "b2"], r.choice([1, 1, 2])):
            n = r.choice([3, 6, 10, 18])
            gss, rows = world(r, n, filt == "ab", cfg["reid"] or r.random() < 0.2)
            if not any(gss):
                gss[0].append(dict(id=3, l=0, t=0, w=60, h=60))
            s = os.path.join(d, "data", name)
            seqinfo(s, n)
            for k in ("gt", "det"):
                os.makedirs(os.path.join(s, k))
            with open(os.path.join(s, "gt/gt.txt"), "w") as fh:
                for f, bs in enumerate(gss):
                    for b in bs:
                        fh.write("%d,%d,%s,%s,%s,%s,1,-1,-1,-1\n" % (f + 1, b["id"], txt(b["l"]), txt(b["t"]), txt(b["w"]), txt(b["h"])))
            with open(os.path.join(s, "det/det.txt"), "w") as fh:
                for x in rows:
                    fh.write("%d,-1,%s,-1,-1,-1\n" % (x[0], ",".join(txt(v) for v in x[1:])))
            stim["seqs"].append(dict(name=name, n=n, rows=rows, gss=gss))
            box = {}

            def start():
                kw = {k: cfg[v] for k, v in (("reid_hit_counter_max", "rmax"), ("initialization_delay", "delay")) if cfg[v] is not None}
                if cfg["reid"]:
                    kw["reid_distance_function"] = lambda new, old: np.abs(new.estimate - old.estimate).sum()
                    kw["reid_distance_threshold"] = cfg["RT"] / S
                box["t"] = Tracker(metric, REAL[metric](T), hit_counter_max=hmax, pointwise_hit_counter_max=cfg["pmax"],
                                   detection_threshold=cfg["dthr"] / S, past_detections_length=cfg["npast"],
                                   filter_factory=FILTERS[filt](), **kw)
                box["d"] = iter(NM.DetectionFileParser(s))
                box["p"] = NM.PredictionsTextFile(s, save_path=os.path.join(d, "out"))
                acc.create_accumulator(s)
            for f in range(n):
                ev = dict(op="frame", n=n, rows=rows, dets=[], rep=[], exc="")

                def one():
                    if f == 0:
                        start()
                    ds = next(box["d"])
                    ev["dets"] = [[i2(v) for v in np.array(y.points).flatten()] + [i2(v) for v in np.array(y.scores)] for y in ds]
                    objs = box["t"].update(ds, period=per) if f % per == 0 else box["t"].update()
                    ev["rep"] = [[as_int(o.id)] + [i2(v) for v in np.array(o.estimate).flatten()] for o in objs]
                    box["p"].update(objs)
                    acc.update(objs)
                evs.append(guard(ev, one))
                if ev["exc"]:
                    return dict(cfg=spec, ev=evs, stim=stim)
            ev = dict(op="end", rows=[], gss=gss, exc="")

            def read():
                for line in open(os.path.join(d, "out", "predictions", name + ".txt")):
                    v = line.split(",")
                    ev["rows"].append([int(v[0]), int(v[1])] + [i2(x) for x in v[2:6]])
            evs.append(guard(ev, read))
            done.append(name)
        ev = dict(op="scores", scores=[], overall={}, exc="")

        def score(row):
            e = lambda v: 0 if math.isnan(v) else max(-10 ** 9, min(10 ** 9, int(round(float(v) * 10 ** 6))))
            return dict(miss=int(row["num_misses"]), false=int(row["num_false_positives"]), switch=int(row["num_switches"]),
                        truths=int(row["num_objects"]), mota=e(row["mota"]), idf1=e(row["idf1"]))

        def evaluate():
            df = acc.compute_metrics(metrics=want)
            ev["scores"] = [score(df.loc[q]) for q in done]
            ev["overall"] = score(df.loc["OVERALL"])
        evs.append(guard(ev, evaluate))
    return dict(cfg=spec, ev=evs, stim=stim)
