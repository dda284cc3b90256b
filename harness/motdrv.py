"""MOT files and evaluation of the real code, for MotTrace.tla."""
from trackdrv import *
import contextlib, io, shutil, types, warnings
from fractions import Fraction
import cv2
from norfair import metrics as NM
from norfair.video import VideoFromFrames
from motiondrv import guard
from videodrv import frame_of, id_of, read_all

_n = [0]


@contextlib.contextmanager
def scratch(root):
    _n[0] += 1
    d = os.path.join(root, "m%d" % _n[0])
    os.makedirs(d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def seqinfo(d, n, w=64, h=48, ext=".png", imdir="img1", fps=30, name="s"):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "seqinfo.ini"), "w") as f:
        f.write("[Sequence]\nname=%s\nimDir=%s\nframeRate=%d\nseqLength=%d\nimWidth=%d\nimHeight=%d\nimExt=%s\n"
                % (name, imdir, fps, n, w, h, ext))


S = 4  # coordinates are integers in units of 1/S px


def scale(r):
    global S
    S = r.choice([4, 4, 1024])


def i4(v):
    v = float(v) * S
    if math.isnan(v) or abs(v) > 10 ** 8 or abs(v - round(v)) > 1e-6:
        return WEIRD
    return int(round(v))


def num(v, r):
    """a number in units of 1/S as text"""
    if v % S == 0 and r.random() < 0.7:
        return str(v // S)
    return ("%.2f" if S == 4 and r.random() < 0.5 else "%.10f") % (v / S)


def dets(seed, root):
    r = random.Random(seed)
    scale(r)
    with scratch(root) as d:
        s = os.path.join(d, r.choice(["seq", "MOT17-02-X", "a b"]))
        n = r.randrange(1, 8) if r.random() < 0.95 else r.choice([15, 120])
        seqinfo(s, n)
        os.makedirs(os.path.join(s, "det"))
        rows, span, tail = [], r.choice([(-S, S + 1), (-S, S + 1), (0, 100 * S), (-900 * S, 900 * S)]), r.choice([3, 3, 3, 2, 0, 5])
        for _ in range(r.choice([0, 1, 2, 5, 12, 40]) if r.random() < 0.97 else r.choice([300, 600])):
            f = r.randrange(1, n + 1) if r.random() < 0.9 else r.choice([0, n + 1, n + 5])
            rows.append([f] + [r.randrange(-100 * S, 2000 * S) for _ in range(2)] + [r.randrange(0, 500 * S) for _ in range(2)] + [r.randrange(*span)])
        if r.random() < 0.3:
            rows.sort()
        if r.random() < 0.2 and rows:
            rows.append(list(rows[0]))
        with open(os.path.join(s, "det/det.txt"), "w") as fh:
            sep = r.choice([",", ",", ", "])
            for x in rows:
                fh.write(sep.join([str(x[0]), r.choice(["-1", "3"])] + [num(v, r) for v in x[1:]] + ["-1"] * tail) + "\n")
        evs, box = [], {}

        def make():
            kw = {}
            if r.random() < 0.3:
                kw["information_file"] = NM.InformationFile(os.path.join(s, "seqinfo.ini"))
            box["p"] = NM.DetectionFileParser(s, **kw)
        mk = dict(op="dets", rows=rows, n=n, got=[], exc="")
        guard(mk, make)
        if mk["exc"]:
            return dict(ev=[mk], stim=dict(rows=rows, n=n))
        other = None
        for k in range(r.choice([1, 2, 3])):
            ev = dict(op="dets", rows=rows, n=n, got=[], exc="")

            def go():
                if r.random() < 0.3:  # an iteration that is given up
                    it = iter(box["p"])
                    for _ in range(r.randrange(0, n)):
                        next(it)
                for x in box["p"]:
                    ev["got"].append([[i4(v) for v in np.array(y.points).flatten()] + [i4(v) for v in np.array(y.scores)] for y in x])
                    if len(ev["got"]) > n + 3:
                        break
            evs.append(guard(ev, go))
        return dict(ev=evs, stim=dict(rows=rows, n=n))


def Obj(id, est):
    """A tracked object with the given id and estimate."""
    t = Tracker("euclidean", 1, hit_counter_max=2, initialization_delay=0, filter_factory=NoFilterFactory())
    o, = t.update([Detection(np.array(est))])
    o.id = id
    return o


def preds(seed, root):
    r = random.Random(seed)
    scale(r)
    with scratch(root) as d:
        name = r.choice(["seq", "MOT17-02-X", "a b"])
        s = os.path.join(d, name)
        n = r.randrange(1, 7) if r.random() < 0.97 else r.choice([30, 110])
        seqinfo(s, n)
        evs, box = [], {}
        save = r.choice([".", os.path.join(d, "out"), "res/deep"])

        def make():
            kw = {}
            if save != "." or r.random() < 0.5:
                kw["save_path"] = save
            if r.random() < 0.3:
                kw["information_file"] = NM.InformationFile(os.path.join(s, "seqinfo.ini"))
            box["p"] = NM.PredictionsTextFile(s, **kw)
        explicit = r.random() < 0.3
        stop = n if r.random() < 0.9 else r.randrange(0, n)
        tracker = Tracker("frobenius", 100.0, initialization_delay=0, hit_counter_max=5)
        for k in range(stop):
            ev = dict(op="update", frame=[], objs=[], n=n, same=True, exc="")
            objs = []
            if r.random() < 0.4:
                p = [r.randrange(0, 200 * S) / S for _ in range(2)]
                objs = tracker.update([Detection(np.array([p, [p[0] + 10.25, p[1] + 5.5]]))] if k == 0 else [])
                if any(i4(v) == WEIRD for o in objs for v in np.array(o.estimate).flatten()):
                    objs = []
            if not objs:
                for _ in range(r.choice([0, 0, 1, 2, 4]) if r.random() < 0.98 else 70):
                    p = [r.randrange(-25 * S, 1000 * S) / S for _ in range(4)]
                    i = r.choice([r.randrange(1, 50), float(r.randrange(1, 50)), np.int64(r.randrange(1, 10 ** 6))])
                    e = [[p[0], p[1]], [p[0] + p[2] / 4, p[1] + p[3] / 4]]
                    e = np.round(np.array(e) * S) / S
                    if r.random() < 0.2:
                        e = e.astype(int)
                    objs.append(Obj(i, e))
            ev["objs"] = [[int(o.id)] + [i4(v) for v in np.array(o.estimate).flatten()] for o in objs]
            fr = None
            if explicit and r.random() < 0.7:
                fr = r.choice([k + 10, 3, max(100 - k, 0), 0, 0, 1234, 99999 + k, 10 ** 6])
                ev["frame"] = [fr]
                fr = float(fr) if r.random() < 0.2 else fr

            def go():
                if k == 0:
                    make()
                before = [np.array(o.estimate).copy() for o in objs]
                a = {} if fr is None and r.random() < 0.7 else dict(frame_number=fr)
                if r.random() < 0.5:
                    box["p"].update(predictions=objs, **a)
                else:
                    box["p"].update(objs, **a)
                ev["same"] = all((x == np.array(o.estimate)).all() for x, o in zip(before, objs))
            evs.append(guard(ev, go))
            if ev["exc"]:
                return dict(ev=evs, stim=dict(n=n))
        ev = dict(op="predfile", rows=[], tails=[], exc="")

        def read():
            for line in open(os.path.join(save, "predictions", name + ".txt")):
                v = line.strip().split(",")
                ok = v[0].isdigit() and v[1].isdigit()
                ev["rows"].append([int(v[0]) if ok else WEIRD, int(v[1]) if ok else WEIRD] + [i4(x) for x in v[2:6]])
                ev["tails"].append([int(float(x)) for x in v[6:]])
        if stop == n:
            evs.append(guard(ev, read))
        # what was written can be read again as detections
        if stop == n and not explicit and not ev["exc"]:
            os.makedirs(os.path.join(s, "det"))
            shutil.copy(os.path.join(save, "predictions", name + ".txt"), os.path.join(s, "det/det.txt"))
            back = dict(op="dets", rows=[[x[0]] + x[2:6] + [-S] for x in ev["rows"]], n=n, got=[], exc="")

            def again():
                for x in NM.DetectionFileParser(s):
                    back["got"].append([[i4(v) for v in np.array(y.points).flatten()] + [i4(v) for v in np.array(y.scores)] for y in x])
            if all(abs(v) < 1500 * S for x in ev["rows"] for v in x):
                evs.append(guard(back, again))
        return dict(ev=evs, stim=dict(n=n, explicit=explicit))


def info(seed, root):
    r = random.Random(seed)
    names = ["name", "imDir", "frameRate", "seqLength", "imWidth", "imHeight", "imExt", "im", "imWidthFull", "seq", "seqLength2", "Length",
             "frame", "x"]
    lines, seen = [], set()
    for nme in r.sample(names, r.randrange(1, 10)):
        v = r.choice([0, 1, 30, 600, 1920, 123456789, "img1", ".jpg", "MOT17-02", "12a", "a=b", "1.5", "", "3 4", "x30", "=7", "-5", "-1", "+3", "1e3", "1_000", "0x1f", "25.0", "--", "True", "None"])
        lines.append(dict(name=nme, value=v))
    with scratch(root) as d:
        p = os.path.join(d, "i.ini")
        nl = r.choice(["\n", "\r\n"])
        with open(p, "w", newline="") as f:
            if r.random() < 0.7:
                f.write("[Sequence]" + nl)
            for l in lines:
                f.write("%s=%s%s" % (l["name"], l["value"], nl if l is not lines[-1] or r.random() < 0.7 else ""))
                if r.random() < 0.1:
                    f.write(nl)
        evs, box = [], {}
        enc = lambda v: dict(int=True, text="", n=v) if isinstance(v, int) and not isinstance(v, bool) else dict(int=False, text=str(v), n=0)
        el = [dict(name=l["name"], value=enc(l["value"])) for l in lines]
        for q in r.sample(names + ["imW", "n", "Name", "nothing", "frameRat", "[Sequence]", "idth"], 8):
            ev = dict(op="info", lines=el, name=q, got=enc(0), exc="")

            def go():
                if "i" not in box:
                    box["i"] = NM.InformationFile(p) if r.random() < 0.5 else NM.InformationFile(file_path=p)
                ev["got"] = enc(box["i"].search(q) if r.random() < 0.5 else box["i"].search(variable_name=q))
            evs.append(guard(ev, go))
        return dict(ev=evs, stim=lines)


def frames(seed, root):
    r = random.Random(seed)
    with scratch(root) as d:
        s = os.path.join(d, "seq%d" % r.randrange(9))
        n = r.choice([1, 2, 5, 9, 12]) if r.random() < 0.95 else r.choice([103, 140])
        ext, imdir = r.choice([".png", ".bmp"]), r.choice(["img1", "images"])
        seqinfo(s, n, ext=ext, imdir=imdir)
        os.makedirs(os.path.join(s, imdir))
        ids = [(r.randrange(200) + 3 * i) % 256 for i in range(n)]
        for i, v in enumerate(ids + [250]):  # one image more than the sequence has
            cv2.imwrite(os.path.join(s, imdir, "%06d%s" % (i + 1, ext)), frame_of(v, 64, 48))
        mkv = r.random() < 0.7
        ev = dict(op="frames", got=[], want=ids, video=[], wantvideo=ids if mkv else [], exc="")

        def go():
            kw = {} if mkv and r.random() < 0.5 else dict(make_video=mkv)
            if r.random() < 0.3:
                kw["information_file"] = NM.InformationFile(os.path.join(s, "seqinfo.ini"))
            out = "."
            if r.random() < 0.5:
                out = kw["save_path"] = os.path.join(d, "out")
            v = VideoFromFrames(s, **kw)
            if r.random() < 0.4:
                it = iter(v)
                for _ in range(r.randrange(0, n)):
                    next(it)
            for f in v:
                ev["got"].append(id_of(f))
                if mkv:
                    v.update(f)
                if len(ev["got"]) > n + 2:
                    break
            if mkv:
                ev["video"] = read_all(os.path.join(out, "videos", os.path.basename(s) + ".mp4"))[0]
        guard(ev, go)
        return dict(ev=[ev], stim=dict(n=n, ids=ids))


def cover(a, b):
    """Intersection over union of two boxes."""
    x = min(a["l"] + a["w"], b["l"] + b["w"]) - max(a["l"], b["l"])
    y = min(a["t"] + a["h"], b["t"] + b["h"]) - max(a["t"], b["t"])
    o = max(x, 0) * max(y, 0)
    return Fraction(o, a["w"] * a["h"] + b["w"] * b["h"] - o)


FATES = ["num_unique_objects", "mostly_tracked", "partially_tracked", "mostly_lost", "num_fragmentations"]
EVERY = FATES + ["idf1", "idp", "idr", "recall", "precision", "num_false_positives", "num_misses", "num_switches", "mota", "motp",
                 "num_transfer", "num_ascend", "num_migrate"]


def evaluation(seed, root):
    """Sequences of truths in places of a grid; predictions on, off and beside them."""
    r = random.Random(seed)
    with scratch(root) as d:
        nseq = r.choice([1, 1, 2, 3])
        names = r.sample(["b", "a", "MOT-10", "MOT-9", "z", "c1"], nseq)
        seqs = []
        mode = r.choice(["perfect", "none", "one", "mixed", "mixed", "mixed", "mixed"])
        unit = r.choice([1, 1, 2, 4])     # boxes are whole numbers in units of 1/unit px
        for name in names:
            n = r.randrange(1, 7) if r.random() < 0.95 else 40
            s = os.path.join(d, "data", name)
            seqinfo(s, n)
            os.makedirs(os.path.join(s, "gt"))
            k = r.randrange(1, 5) if r.random() < 0.95 else 12
            ids = r.sample(range(1, 60), k)
            cells = r.sample(range(16), k)
            gt, pr, ignored = [], [], []
            rival = r.choice([0, 0, 0.2, 0.5]) if mode == "mixed" else 0
            pid = {g: r.choice([g, g + 100, r.randrange(200, 300)]) for g in ids}
            while len(set(pid.values())) < k:
                pid = {g: r.randrange(1, 10 ** 4) for g in ids}
            for f in range(n):
                gs, ps, used = [], [], set()
                for j, g in enumerate(ids):
                    w, h = r.choice([30, 40, 60]), r.choice([30, 40, 60])
                    b = dict(id=g, l=200 * (cells[j] % 4) + r.randrange(0, 30), t=200 * (cells[j] // 4) + r.randrange(0, 30), w=w, h=h)
                    if r.random() < 0.85:
                        gs.append(b)
                    x = r.random()
                    if mode == "perfect":
                        if gs and gs[-1] is b:
                            ps.append(dict(b, id=pid[g]))
                        continue
                    if mode == "none":
                        continue
                    if x < 0.65:
                        dx, dy = r.choice([(0, 0), (0, 0), (4, 0), (0, 5), (25, 0), (0, 30), (90, 0), (-4, -3), (-25, 25),
                                             (w // 3, 0), (0, h // 3), (-(w // 3), 0), (0, -(h // 3)), (w // 3 + 1, 0), (0, -(h // 3) - 1)])
                        if r.random() < 0.15:  # the identities of two truths are exchanged from here on
                            o = r.choice(ids)
                            pid[g], pid[o] = pid[o], pid[g]
                        elif r.random() < 0.1:
                            pid[g] = r.choice([i for i in range(300, 400) if i not in pid.values()])
                        if pid[g] not in used:
                            used.add(pid[g])
                            ps.append(dict(id=pid[g], l=b["l"] + dx, t=b["t"] + dy, w=w, h=h))
                        if r.random() < rival:  # a second track on the same truth, for a while
                            q = dict(id=600 + j + 20 * r.randrange(2), l=b["l"] + r.randrange(-w // 4, w // 4 + 1), t=b["t"] + r.randrange(-9, 10), w=w, h=h)
                            if all(x["id"] != q["id"] and cover(b, x) != cover(b, q) for x in ps):
                                ps.append(q)
                if mode == "mixed" and r.random() < 0.2:
                    i = r.randrange(500, 520)
                    ps.append(dict(id=i, l=1000 + 100 * (i % 7), t=50, w=40, h=40))
                r.shuffle(ps)
                if mode == "one":
                    ps = ps[:1] if not any(pr) else []
                gt.append(gs)
                pr.append(ps)
            rows = [(f + 1, b, 1) for f, x in enumerate(gt) for b in x]
            for f in range(n):
                if r.random() < 0.2:
                    rows.append((f + 1, dict(id=77, l=1500, t=900, w=50, h=50), 0))  # a truth that does not count
            if not any(c for _, _, c in rows):
                gt[0].append(dict(id=ids[0], l=5, t=900, w=40, h=40))
                rows.append((1, gt[0][-1], 1))
                if mode == "perfect":
                    pr[0].append(dict(gt[0][-1], id=pid[ids[0]]))
            r.shuffle(rows)
            with open(os.path.join(s, "gt/gt.txt"), "w") as fh:
                for f, b, c in rows:
                    fh.write("%d,%d,%.12g,%.12g,%.12g,%.12g,%d,-1,-1,-1\n" % (f, b["id"], b["l"] / unit, b["t"] / unit, b["w"] / unit, b["h"] / unit, c))
            seqs.append(dict(name=name, path=s, n=n, gt=gt, pr=pr))
        overall = r.random() < 0.7
        pick_metrics = r.random() < 0.3
        ev = dict(op="eval", seqs=[dict(name=q["name"], gt=q["gt"], pr=q["pr"]) for q in seqs], scores=[], overall=[], saved=True,
                  same=True, names=True, exc="")
        want = ["num_misses", "num_false_positives", "num_switches", "mota", "idf1", "num_objects"]

        def score(row, q):
            mota, idf1 = float(row["mota"]), float(row["idf1"])
            enc = lambda v: 0 if math.isnan(v) else max(-10 ** 9, min(10 ** 9, int(round(v * 10 ** 6))))
            return dict(miss=int(row["num_misses"]), false=int(row["num_false_positives"]), switch=int(row["num_switches"]),
                        truths=q if "num_objects" not in row else int(row["num_objects"]), mota=enc(mota), idf1=enc(idf1),
                        fates=[int(row[c]) for c in FATES] if FATES[0] in row else [], text=text(row))

        def text(row):      # what the printed table says about it
            if FATES[0] not in row:
                return []
            lines = [l.split() for l in ev["summary"].splitlines()]
            mine = [l for l in lines if l[0] == row.name]
            if len(mine) != 1 or len(mine[0]) != len(lines[0]) + 1:
                return [WEIRD]
            return [int(mine[0][1 + lines[0].index(c)]) if c in lines[0] else WEIRD for c in ("FP", "FN", "IDs", "GT", "MT", "PT", "ML", "FM")]

        def go():
            acc = NM.Accumulators()
            for q in seqs:
                kw = {}
                if r.random() < 0.2:
                    kw["information_file"] = NM.InformationFile(os.path.join(q["path"], "seqinfo.ini"))
                acc.create_accumulator(q["path"], **kw)
                for ps in q["pr"]:
                    objs = [Obj(b["id"], np.array([[b["l"], b["t"]], [b["l"] + b["w"], b["t"] + b["h"]]], float) / unit) for b in ps]
                    c = [o.estimate.copy() for o in objs]
                    if not objs and r.random() < 0.3:
                        acc.update()
                    elif r.random() < 0.5:
                        acc.update(predictions=objs)
                    else:
                        acc.update(objs)
                    ev["same"] = ev["same"] and all((a == o.estimate).all() for a, o in zip(c, objs))
            kw = {}
            if pick_metrics:
                kw["metrics"] = list(want)
            if not overall:
                kw["generate_overall"] = False
            for _ in range(2 if r.random() < 0.1 else 1):
                df = acc.compute_metrics(**kw)
            ev["summary"] = acc.summary_text
            ev["names"] = (list(df.columns) == want if pick_metrics else set(EVERY) <= set(df.columns)) and sorted(df.index) == sorted([q["name"] for q in seqs] + (["OVERALL"] if overall else []))
            for q in seqs:
                ev["scores"].append(score(df.loc[q["name"]], sum(len(x) for x in q["gt"])))
            if overall:
                ev["overall"] = [score(df.loc["OVERALL"], sum(len(x) for q in seqs for x in q["gt"]))]
            if r.random() < 0.3:
                acc.save_metrics(save_path=os.path.join(d, "res"), file_name="m.txt")
                t = open(os.path.join(d, "res", "m.txt")).read()
                ev["saved"] = t == acc.summary_text and all(q["name"] in t for q in seqs)
                acc.print_metrics()
        guard(ev, go)
        ev.pop("summary", None)
        return dict(ev=[ev], stim=dict(mode=mode, seqs=ev["seqs"]))
