"""Drawing functions of the real code, for DrawTrace.tla."""
from trackdrv import *
import cv2
from norfair.drawing import draw_points, draw_boxes, draw_tracked_objects, draw_tracked_boxes, Paths, Palette, Drawable, Color
from norfair.drawing import draw_points as _dp
from norfair.drawing.color import parse_color, hex_to_bgr
from norfair.camera_motion import TranslationTransformation
from motiondrv import guard
from canvasdrv import packed

NAMES = ["red", "blue", "green", "white", "cb3", "tab2", "tab19", "rebeccapurple", "darkslategrey", "gold", "hotpink",
         "aliceblue", "cb10", "olive", "orange", "navy"]
LABELS = ["a", "car", "person", "7", "", "x y", "A", 0, 7, ("t", 1), 2.5, frozenset({3}), -1]


def lkey(l):
    return "lab:" + (l if isinstance(l, str) else repr(l) + ".")


def rows(f):
    return packed(f)["px"]


def given(r, dim=False):
    """(what norfair gets, what the specification gets)"""
    k = r.randrange(4)
    if k == 0 and not dim:
        n = r.choice(NAMES)
        return n, dict(how="name", v=n)
    if k == 1 and not dim:
        d = [r.randrange(16) for _ in range(3 if r.random() < 0.1 else 6)]
        s = "#" + "".join(r.choice(["%x", "%X"]) % v for v in d)
        return s, dict(how="hex", v=d)
    v = [r.randrange(0, 200 if dim else 256) for _ in range(3)]
    return r.choice([tuple, list])(v) if not dim else tuple(v), dict(how="bgr", v=v)


def coord(v):
    """integer place and whether truncation or rounding decides it"""
    f = math.floor(v + 1e-6)
    frac = v - f
    return f, (frac > 0.47 or (v < 0 and frac > 1e-6) or abs(frac) > 1e-6 and frac < 0.03)


def place(pts):
    out, amb = [], False
    for p in pts:
        x, a = coord(float(p[0]))
        y, b = coord(float(p[1]))
        out.append([x, y])
        amb = amb or a or b
    return out, amb


class Text:
    """Records the text drawn; the text itself is rendered on a copy."""

    def __init__(self):
        self.calls = []

    def __enter__(self):
        self.real = cv2.putText

        def rec(img, text, org, fontFace=None, fontScale=None, color=None, *a, **k):
            self.real(img.copy(), text, org, fontFace, fontScale, color, *a, **k)
            c = [int(v) for v in color]
            th = a[0] if a else k.get("thickness", 1)
            self.calls.append(dict(s=str(text), x=int(org[0]), y=int(org[1]), c=c[0] + 256 * c[1] + 65536 * c[2],
                                   sz=int(round(float(fontScale) * 1000)), th=int(th)))
            return img
        cv2.putText = rec
        return self

    def __exit__(self, *a):
        cv2.putText = self.real
        return False


def rpoint(r, W, H, neg=True, out=4):
    f = r.choice([0, 0, 0.25, 0.4])
    x = r.randrange(-out if neg else 0, W + out if neg else W)
    y = r.randrange(-out if neg else 0, H + out if neg else H)
    return [x + (f if x >= 0 else 0), y + (f if y >= 0 else 0)]


def tracked(r, n, boxes, W, H, used):
    """Tracked objects with constant estimates and known live points."""
    lab = r.choice([None] + LABELS)
    k = r.randrange(1, 4)
    tr = Tracker("frobenius", 3.0 if k == 1 else 10 ** 6, hit_counter_max=30, initialization_delay=0, detection_threshold=0.5,
                 pointwise_hit_counter_max=r.choice([2, 3]))
    mot = [r.randrange(-3, 4) for _ in range(2)] if r.random() < 0.25 else None
    base = [[rpoint(r, W, H) for _ in range(n)] for _ in range(1)]
    rounds = r.randrange(1, 6)
    sc = [[r.choice([0.25, 0.75]) for _ in range(n)] for _ in range(rounds)] if r.random() < 0.7 else [None] * rounds
    obj = []
    for i in range(rounds):
        dets = [Detection(np.array(p, float), scores=None if sc[i] is None else np.array(sc[i]), label=lab) for p in base]
        obj = tr.update(dets, coord_transformations=TranslationTransformation(np.array(mot, float)) if mot else None)
    if r.random() < 0.2:
        for _ in range(4):
            obj = tr.update()
    out = []
    for o in obj:
        if o.id in used:  # ids of different trackers may coincide; the text must stay unique
            pass
        out.append(o)
    return out


def drawables(r, what, W, H):
    """[(object given to norfair, description for the specification)]"""
    out, keyc = [], set()
    wide = r.choice([4, 4, 4, 60])
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        n = 2 if what == "boxes" else r.randrange(1, 5) if r.random() < 0.85 else r.choice([6, 9, 17])
        kind = r.choice(["det", "det", "obj", "draw"])
        if kind == "det":
            pts = [rpoint(r, W, H, out=wide) for _ in range(n)]
            if r.random() < 0.3:
                pts = np.array([[int(v) for v in p] for p in pts])
            sc = [r.randrange(9) for _ in range(n)] if r.random() < 0.6 else None
            if sc is not None and (sum(sc) * 2) % n:
                sc = [sc[0]] * n
            o = Detection(np.array(pts), scores=None if sc is None else np.array(sc) / 8.0, label=r.choice([None] + LABELS))
            d = dict(id=[], lab=[] if o.label is None else [str(o.label)], sc=[] if sc is None else [sum(sc) * 2 // n],
                     live=[True] * n)
            objs = [(o, d, o.points)]
        elif kind == "draw":
            pts = np.array([rpoint(r, W, H, out=wide) for _ in range(n)], float)
            live = np.array([r.random() < 0.6 for _ in range(n)])
            i = r.choice([None, 0, 1, 2, 5, 11, 12, 37, 1000, 123456])
            lab = r.choice([None] + LABELS)
            s = r.choice([None, 0, 3, 8])
            o = Drawable(points=pts, id=i, label=lab, scores=None if s is None else np.full(n, s / 8.0), live_points=live)
            d = dict(id=[] if i is None else [i], lab=[] if lab is None else [str(lab)], sc=[] if s is None else [s * 2],
                     live=[bool(v) for v in live])
            objs = [(o, d, o.points)]
        else:
            objs = []
            for o in tracked(r, n, what == "boxes", W, H, keyc):
                objs.append((o, dict(id=[] if o.id is None else [o.id], lab=[] if o.label is None else [str(o.label)], sc=[],
                                     live=[bool(v) for v in o.live_points]), np.array(o.estimate)))
        for o, d, pts in objs:
            d["pts"], d["amb"] = place(pts)
            if what == "boxes" and d["amb"]:
                continue
            d["kid"] = ["id:%d" % d["id"][0]] if d["id"] else []
            d["klab"] = [lkey(o.label)] if o.label is not None else []
            d["pylab"] = o.label
            out.append((o, d))
    return out


def snap(o):
    if isinstance(o, Detection):
        return (np.array(o.points).tobytes(), None if o.scores is None else np.array(o.scores).tobytes(), o.label)
    if isinstance(o, Drawable):
        return (np.array(o.points).tobytes(), None if o.scores is None else np.array(o.scores).tobytes(), o.label, o.id,
                np.array(o.live_points).tobytes())
    return (np.array(o.estimate).tobytes(), np.array(o.live_points).tobytes(), o.id, o.label, o.age, o.hit_counter)


def col(c):
    return int(c[0]) + 256 * int(c[1]) + 65536 * int(c[2])


def palette_events(r, dim=False):
    evs = []
    if r.random() < 0.7 and not dim:
        n = r.choice(["tab10", "tab20", "colorblind"])
        ev = dict(op="palette", name=n, cs=[], exc="")
        evs.append(guard(ev, lambda: Palette.set(n)))
    else:
        cs = [given(r, dim) for _ in range(r.choice([1, 2, 5]))]
        ev = dict(op="palette", name="", cs=[c[1] for c in cs], exc="")
        evs.append(guard(ev, lambda: Palette.set([c[0] for c in cs])))
    c, g = given(r, dim) if r.random() < 0.5 else ("black", dict(how="name", v="black"))
    ev = dict(op="default", c=g, exc="")
    evs.append(guard(ev, lambda: Palette.set_default_color(c)))
    return evs


def span_event():
    """The colors of many ids."""
    ev = dict(op="span", cs=[], exc="")

    def run():
        ev["cs"] = [col(Palette.choose_color(i)) for i in range(200)]
    return guard(ev, run)


def choose_events(keys):
    evs = []
    for k, v in keys:
        ev = dict(op="choose", key=k, c=0, exc="")

        def run():
            ev["c"] = col(Palette.choose_color(v))
        evs.append(guard(ev, run))
    return evs


def picture(r, W, H, dim=False):
    f = np.zeros((H, W, 3), np.uint8)
    k = r.randrange(3)
    if k == 1:
        f[:] = [r.randrange(50 if dim else 256) for _ in range(3)]
    elif k == 2:
        f[:] = np.array([[[r.randrange(50 if dim else 256) for _ in range(3)] for _ in range(W)] for _ in range(H)])
    return f


def draw_event(r, ds, W, H, what):
    f = picture(r, W, H)
    kw = {}
    ev = dict(op="draw", what=what, b=rows(f), a=[], ds=[d for _, d in ds], r=[], t=[], hide=True, shapes=True,
              color=dict(how="by_id", v=0), tcol=[], wl=what == "points", wi=True, ws=False, texts=[], ret=False, same=True, exc="", old=False, lsz=[], isz=[], tth=[])
    if r.random() < 0.15:
        return old_event(r, ds, f, what, ev)
    k = r.randrange(5)
    if k == 1:
        ev["color"] = dict(how="by_label", v=0)
        kw["color"] = "by_label"
        if r.random() < 0.1:
            kw = dict(color_by_label=True)
    elif k == 2 and r.random() < 0.3:
        ev["color"] = dict(how="random", v=0)
        kw["color"] = "random"
        if what == "boxes" and r.random() < 0.3:
            kw = dict(random_color=True)
    elif r.random() < 0.1:
        kw[r.choice(["color_by_label"] + ["random_color"] * (what == "boxes"))] = False
        if k >= 3:
            kw["color"], ev["color"] = given(r)
    elif k >= 3:
        c, g = given(r)
        ev["color"] = g
        kw["line_color" if what == "boxes" and r.random() < 0.1 else "color"] = c
    elif r.random() < 0.3:
        kw["color"] = None
    if what == "points":
        if r.random() < 0.6:
            kw["radius"] = r.randrange(0, 5)
            ev["r"] = [kw["radius"]]
        if r.random() < 0.4:
            kw["thickness"] = r.choice([-1, 1, 2, 3])
            ev["t"] = [kw["thickness"]]
        if r.random() < 0.4:
            kw["hide_dead_points"] = ev["hide"] = r.random() < 0.3
        if r.random() < 0.15:
            kw["draw_points"] = ev["shapes"] = False
    else:
        if r.random() < 0.7:
            n = "thickness" if r.random() < 0.9 else "line_width"
            kw[n] = r.choice([-1, 1, 1, 2, 3, 5])
            ev["t"] = [kw[n]]
        if r.random() < 0.15:
            kw["draw_box"] = ev["shapes"] = False
    for n, e in (("draw_labels", "wl"), ("draw_ids", "wi"), ("draw_scores", "ws")):
        if r.random() < 0.5:
            kw[n] = ev[e] = r.random() < 0.6
    if r.random() < 0.4:
        c, g = given(r)
        kw["text_color"] = c
        ev["tcol"] = [g]
    if r.random() < 0.4:
        n = "text_size" if r.random() < 0.85 else "label_size"
        kw[n] = r.choice([0.5, 1, 2, 0.75])
        ev["lsz"] = [int(kw[n] * 1000)]
    if r.random() < 0.4:
        kw["text_thickness"] = r.choice([1, 2, 4])
        ev["tth"] = [kw["text_thickness"]]
    objs = [o for o, _ in ds]
    dead = not ds and r.random() < 0.5
    name = "detections" if r.random() < 0.05 else "drawables"
    if name == "drawables" and r.random() < 0.2:
        objs = tuple(objs)
    kw[name] = None if dead else objs
    before = [snap(o) for o in objs]
    fn = draw_points if what == "points" else draw_boxes

    def run():
        with Text() as t:
            out = fn(f, **kw)
        ev["ret"] = bool(isinstance(out, np.ndarray) and out.shape == f.shape and (out == f).all())
        ev["texts"] = t.calls
        ev["same"] = before == [snap(o) for o in objs]
    guard(ev, run)
    ev["a"] = rows(f)
    return ev, {k: repr(v) for k, v in kw.items()}


def old_event(r, ds, f, what, ev):
    """The deprecated draw_tracked_objects and draw_tracked_boxes."""
    kw = {}
    ev.update(old=True, wl=False, ws=False)
    if r.random() < 0.3:
        kw["color_by_label"] = r.random() < 0.7
    if kw.get("color_by_label"):
        ev["color"] = dict(how="by_label", v=0)
    elif r.random() < 0.6:
        c, g = given(r)
        kw["color" if what == "points" else "border_colors"] = c
        ev["color"] = g
    if r.random() < 0.5:
        kw["draw_labels"] = ev["wl"] = r.random() < 0.7
    if r.random() < 0.6:
        kw["id_size"] = r.choice([0, 0.5, 1, 2])
        ev["isz"] = [int(kw["id_size"] * 1000)]
    if r.random() < 0.4:
        kw["label_size"] = r.choice([0, 1, 2])
        ev["lsz"] = [kw["label_size"] * 1000]
    if r.random() < 0.4:
        kw["id_thickness"] = r.choice([1, 3])
        ev["tth"] = [kw["id_thickness"]]
    if what == "points":
        if r.random() < 0.5:
            kw["radius"] = r.randrange(0, 4)
            ev["r"] = [kw["radius"]]
        if r.random() < 0.2:
            kw["draw_points"] = ev["shapes"] = False
    else:
        if r.random() < 0.6:
            kw["border_width"] = r.choice([-1, 1, 2, 3])
            ev["t"] = [kw["border_width"]]
        if r.random() < 0.2:
            kw["draw_box"] = ev["shapes"] = False
        if ev["tth"] == [] and r.random() < 0.3:
            kw["label_width"] = r.choice([1, 2])
            ev["tth"] = [kw["label_width"]]
    objs = [o for o, _ in ds]
    before = [snap(o) for o in objs]

    def run():
        with Text() as t:
            out = (draw_tracked_objects if what == "points" else draw_tracked_boxes)(f, objs, **kw)
        ev["ret"] = what == "points" or bool(isinstance(out, np.ndarray) and out.shape == f.shape and (out == f).all())
        ev["texts"] = t.calls
        ev["same"] = before == [snap(o) for o in objs]
    guard(ev, run)
    ev["a"] = rows(f)
    return ev, dict({k: repr(v) for k, v in kw.items()}, old=True)


def reject_events(r):
    """Colors, palettes and drawables, valid or not."""
    evs = []
    for _ in range(r.randrange(0, 3)):
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 6, 6, 7, 8])
        v = [r.randrange(16) for _ in range(n)]
        t = [r.choice(["%x", "%X"]) % x for x in v]
        if v and r.random() < 0.4:
            i = r.randrange(n)
            v[i], t[i] = 99, r.choice("gGzx .-#")
        ev = dict(op="hex", v=v, c=0, raised="", exc="")

        def run(t=t, ev=ev):
            try:
                ev["c"] = col(r.choice([parse_color, hex_to_bgr])("#" + "".join(t)))
            except ValueError:
                ev["raised"] = "ValueError"
        evs.append(guard(ev, run))
    if r.random() < 0.15:
        ev = dict(op="reject", what="palette", v=r.choice(["tab", "tab30", "", "Tab10", "colorblind "]), raised="", exc="")

        def run2(ev=ev):
            try:
                Palette.set(ev["v"])
            except ValueError:
                ev["raised"] = "ValueError"
        evs.append(guard(ev, run2))
    if r.random() < 0.15:
        ev = dict(op="reject", what="drawable", v=r.choice(["detection", "object", "nothing", "array", "text", "number"]), raised="", exc="")
        det = Detection(np.array([[1.0, 1.0]]))
        o = dict(detection=det, object=Tracker("frobenius", 1, initialization_delay=0).update([det])[0], nothing=None,
                 array=det.points, text="x", number=0)[ev["v"]]

        def run3(ev=ev):
            try:
                Drawable(o)
            except ValueError:
                ev["raised"] = "ValueError"
        evs.append(guard(ev, run3))
    return evs


def name_traces():
    """Every color name, and every value of a channel written in hexadecimal."""
    names = sorted(n for n in vars(Color) if not n.startswith("_"))
    evs = []
    for i, n in enumerate(names):
        ev = dict(op="name", v=n, c=0, exc="")

        def run():
            ev["c"] = col(parse_color(n) if i % 2 else getattr(Color, n))
        evs.append(guard(ev, run))
        ev = dict(op="name", v=n, c=0, exc="")

        def run2():
            ev["c"] = col(getattr(Color, n) if i % 2 else parse_color(n))
        evs.append(guard(ev, run2))
    for v in range(256):
        for ch in range(3):
            d = [v // 16 if j == 2 * ch else v % 16 if j == 2 * ch + 1 else (3 * v + j) % 16 for j in range(6)]
            ev = dict(op="hex", v=d, c=0, raised="", exc="")

            def run3():
                ev["c"] = col((parse_color if v % 2 else hex_to_bgr)("#" + "".join(("%x" if v % 3 else "%X") % x for x in d)))
            evs.append(guard(ev, run3))
    return [dict(an=1, ad=1, exact=True, ev=evs[k:k + 100], stim="names") for k in range(0, len(evs), 100)]


def draw_trace(seed):
    r = random.Random(seed)
    evs, stim = [], []
    for _ in range(r.randrange(1, 3)):
        evs += palette_events(r)
        evs += reject_events(r)
        stim.append("palette %r" % evs[-2:])
        keys = [([], None)] + [(["id:%d" % i], i) for i in r.sample([0, 1, 2, 3, 5, 11, 12, 37, 1000, 123456], 4)] + \
               [([lkey(s)], s) for s in r.sample(LABELS, 4)]
        evs += choose_events(keys)
        if r.random() < 0.3:
            evs.append(span_event())
        for _ in range(r.randrange(1, 4)):
            W, H = r.randrange(4, 22), r.randrange(4, 18)
            if r.random() < 0.02:
                W, H = r.choice([(4, r.randrange(180, 900)), (r.randrange(400, 900), 4)])
            what = r.choice(["points", "boxes"])
            np.random.seed(r.randrange(1 << 30))
            ds = drawables(r, what, W, H)
            # ids and labels met for the first time are asked for as well
            ks = [(d["kid"], d["id"][0]) for _, d in ds if d["id"]] + [(d["klab"], d.pop("pylab")) for _, d in ds if d["pylab"] is not None]
            for _, d in ds:
                d.pop("pylab", None)
            evs += choose_events(ks)
            ev, kw = draw_event(r, ds, W, H, what)
            evs.append(ev)
            stim.append(dict(what=what, kw=kw, size=[W, H]))
    Palette.set("tab10")
    Palette.set_default_color("black")
    return dict(an=1, ad=1, exact=True, ev=evs, stim=stim)


def path_trace(seed):
    r = random.Random(seed)
    evs = palette_events(r, dim=r.random() < 0.8)
    att, an, ad, exact = r.choice([(0.01, 99, 100, False), (0.5, 1, 2, True), (0.25, 3, 4, True), (0, 1, 1, True),
                                   (0.1, 9, 10, False), (1, 0, 1, True), (0.125, 7, 8, True)])
    kw, color, rr, tt = {}, dict(how="by_id", v=0), [], []
    if att != 0.01 or r.random() < 0.5:
        kw["attenuation"] = att
    if r.random() < 0.4:
        c, g = given(r, True)
        kw["color"], color = c, g
    if r.random() < 0.5:
        kw["radius"] = r.randrange(0, 4)
        rr = [kw["radius"]]
    if r.random() < 0.5:
        kw["thickness"] = r.choice([-1, 1, 2])
        tt = [kw["thickness"]]
    poi = r.choice(["mean", "all", "first", "two"])
    if poi == "all":
        kw["get_points_to_draw"] = lambda p: p
    elif poi == "first":
        kw["get_points_to_draw"] = lambda p: [p[0]]
    elif poi == "two":
        kw["get_points_to_draw"] = lambda p: [p[0] + 2.25, p[-1]]
    W, H = r.randrange(6, 18), r.randrange(6, 16)
    drawer, decoy = Paths(**kw), Paths(attenuation=0)
    n = r.randrange(1, 4)
    tracker = Tracker("frobenius", 8.0, hit_counter_max=r.choice([3, 15]), initialization_delay=0,
                      filter_factory=r.choice([OptimizedKalmanFilterFactory, NoFilterFactory])())
    k = r.randrange(1, 4)
    pos = [np.array([[r.randrange(0, W) + 0.25, r.randrange(0, H) + 0.25] for _ in range(n)]) for _ in range(k)]
    vel = [np.array([r.choice([-1, 0, 1, 2]), r.choice([-1, 0, 0.5, 1])]) for _ in range(k)]
    seen = set()
    stim = dict(kw={a: repr(b) for a, b in kw.items()}, poi=poi, size=[W, H], n=n, k=k)
    steps = r.randrange(2, 7)
    for s in range(steps):
        dets = [Detection(p + s * v) for p, v in zip(pos, vel) if r.random() < 0.85]
        objs = list(tracker.update(dets))
        for o in objs:
            if o.id not in seen:
                seen.add(o.id)
                evs += choose_events([(["id:%d" % o.id], o.id)])
        f = picture(r, W, H, dim=r.random() < 0.85)
        g = f.copy()
        ds = []
        for o in objs:
            e = np.array(o.estimate)
            q = [e.mean(axis=0)] if poi == "mean" else list(e) if poi == "all" else [e[0]] if poi == "first" else [e[0] + 2.25, e[-1]]
            c = [(coord(float(p[0])), coord(float(p[1]))) for p in q]
            # the trail is painted at the truncated place: whichever side rounding takes is allowed
            ds.append(dict(kid=["id:%d" % o.id], klab=[], pts=[[a[0], b[0]] for a, b in c], amb=[a[1] or b[1] for a, b in c]))
        ev = dict(op="path", b=rows(f), a=[], ds=ds, r=rr, t=tt, color=color, same=True, fresh=True, exc="")
        snaps = [snap(o) for o in objs]

        def run():
            out = drawer.draw(g, objs)
            ev["a"] = rows(out)
            ev["fresh"] = out is not g and not np.shares_memory(out, g)
            ev["same"] = bool((g == f).all() and snaps == [snap(o) for o in objs])
        guard(ev, run)
        evs.append(ev)
        if ev["exc"]:
            break
        if r.random() < 0.3:
            decoy.draw(picture(r, W, H), objs)
    Palette.set("tab10")
    Palette.set_default_color("black")
    return dict(an=an, ad=ad, exact=exact, ev=evs, stim=stim)
