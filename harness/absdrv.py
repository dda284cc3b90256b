"""Drawing in absolute coordinates by the real code, for AbsTrace.tla."""
from trackdrv import *
from norfair.drawing import AbsolutePaths, draw_absolute_grid, Palette
from motiondrv import guard
from drawdrv import snap, NAMES, given, Text
from norfair.drawing.drawer import Drawer

POI = {"mean": None, "all": lambda p: p, "ends": lambda p: np.array([p[0], p[-1]])}


def chan(f, k):
    return [[int(v) for v in row] for row in np.asarray(f)[:, :, k]]


def picture(r, W, H):
    f = np.zeros((H, W, 3), np.uint8)
    k = r.randrange(3)
    if k == 1:
        f[:] = [r.randrange(256) for _ in range(3)]
    elif k == 2:
        f[:] = np.array([[[r.randrange(256) for _ in range(3)] for _ in range(W)] for _ in range(H)])
    return f


def camera(r, kind, span):
    s = r.choice([1, 1, 2]) if kind == "H" else 1
    t = [r.choice([0, 0, r.randrange(-3, 4), r.randrange(-span, span + 1)]) for _ in range(2)]
    return dict(s=s, t=t, exact=kind == "T"), make_motion([s, t], 2, kind)


def sixteen(v):
    v = float(v) * 16
    return int(round(v)) if abs(v) < 10 ** 7 and abs(v - round(v)) < 1e-4 else WEIRD


def trail_trace(seed):
    r = random.Random(seed)
    W, H = r.randrange(5, 15), r.randrange(5, 13)
    poi = r.choice(["mean", "mean", "all", "ends"])
    n = r.choice([1, 1, 2, 4])
    kind = r.choice(["T", "T", "H"])
    kw, rr, tt = {}, [], []
    hist = r.choice([1, 2, 3, 5, 20])
    if hist != 20 or r.random() < 0.5:
        kw["max_history"] = hist
    if POI[poi] is not None:
        kw["get_points_to_draw"] = POI[poi]
    if r.random() < 0.6:
        kw["radius"] = r.choice([0, 1, 2])
        rr = [kw["radius"]]
    if r.random() < 0.4:
        kw["thickness"] = r.choice([1, 1, 2, 3])
        tt = [kw["thickness"]]
    col = None
    if r.random() < 0.5:
        col = kw["color"] = tuple(r.randrange(256) for _ in range(3))
    k = r.choice([1, 2, 3, 1, 2, 3, 5]) if r.random() < 0.95 else 8
    leave = r.choice([0, 0, 0.3, 0.6])     # some objects are not handed to the drawer every time
    tracker = Tracker("frobenius", 30.0, hit_counter_max=r.choice([2, 15]), initialization_delay=0, filter_factory=NoFilterFactory(),
                      pointwise_hit_counter_max=r.choice([1, 4]))
    frac = [0, 0, 0.25] if kind == "T" else [0.25, 0.25, 0.5, 0]
    pos = [[[r.randrange(0, W) + r.choice(frac), r.randrange(0, H) + r.choice(frac)] for _ in range(n)] for _ in range(k)]
    far = [[400.0 * i, 0] for i in range(k)]  # kept apart by labels instead
    ch = r.randrange(3)
    drawer, decoy = AbsolutePaths(**kw), AbsolutePaths(max_history=2)
    evs = []
    axis = r.random() < 0.6
    for s in range(r.randrange(2, 8) if r.random() < 0.9 else 27):
        cam, motion = camera(r, kind, r.choice([2, W]))
        dets = []
        for i in range(k):
            if r.random() < 0.8:
                d = [r.choice([-2, -1, 0, 1, 3]), r.choice([-1, 0, 2])]
                if axis:
                    d[r.randrange(2)] = 0
                pos[i] = [[p[0] + d[0], p[1] + d[1]] for p in pos[i]]
                pts = np.array([[cam["s"] * p[j] + cam["t"][j] for j in range(2)] for p in pos[i]], float)
                dets.append(Detection(pts, label=i))
        objs = list(tracker.update(dets, coord_transformations=motion))
        if r.random() < 0.2:
            r.shuffle(objs)
        if r.random() < leave:
            objs = [o for o in objs if r.random() < 0.4]
        f = picture(r, W, H)
        ev = dict(op="trail", cam=cam, b=chan(f, ch), a=[], objs=[], same=True, exc="")
        snaps = [snap(o) for o in objs]
        for o in objs:
            c = col if col is not None else Palette.choose_color(o.id)
            ev["objs"].append(dict(id=o.id, live=bool(o.live_points.any()), c=int(c[ch]),
                                   pts=[[sixteen(v) for v in p] for p in o.get_estimate(absolute=True)]))

        def run():
            out = drawer.draw(f, objs if r.random() < 0.8 else tuple(objs), coord_transform=motion)
            ev["a"] = chan(out, ch)
            ev["same"] = snaps == [snap(o) for o in objs]
        guard(ev, run)
        evs.append(ev)
        if ev["exc"]:
            break
        if r.random() < 0.3:
            decoy.draw(picture(r, W, H), objs, coord_transform=motion)
    return dict(poi=poi, hist=hist, r=rr, t=tt, ev=evs, stim=dict(kw={a: repr(b) for a, b in kw.items()}, n=n, k=k, kind=kind, size=[W, H]))


def grid_trace(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(r.randrange(2, 5)):
        W, H = r.randrange(4, 30), r.randrange(4, 24)
        if evs and r.random() < 0.5:
            W, H = len(evs[-1]["b"][0]), len(evs[-1]["b"])
        ch = r.randrange(3)
        cam, motion = camera(r, r.choice("TTH"), r.choice([3, 40]))
        kw = dict(grid_size=r.choice([1, 2, 3, 4, 4, 5, 6, 6]))
        if r.random() < 0.2:
            cam, motion = dict(s=1, t=[0, 0], exact=True), None
        c = [0, 0, 0]
        if r.random() < 0.8:
            c = [r.randrange(256) for _ in range(3)]
            kw["color"] = tuple(c)
        ev = dict(op="grid", size=kw["grid_size"], polar=False, cam=cam, r=2, t=1, c=int(c[ch]), b=[], a=[], exc="")
        if r.random() < 0.6:
            kw["radius"] = ev["r"] = r.choice([0, 1, 2, 3])
        if r.random() < 0.4:
            kw["thickness"] = ev["t"] = r.choice([1, 2, 3])
        if r.random() < 0.6:
            kw["polar"] = ev["polar"] = r.random() < 0.6
        f = picture(r, W, H)
        ev["b"] = chan(f, ch)
        guard(ev, lambda: draw_absolute_grid(f, motion, **kw))
        ev["a"] = chan(f, ch)
        evs.append(ev)
    return dict(poi="mean", hist=1, r=[], t=[], ev=evs, stim=[{k: v for k, v in e.items() if k not in "ab"} for e in evs])


def prim_trace(seed):
    """The primitives of Drawer, called directly."""
    r = random.Random(seed)
    evs = []
    for _ in range(r.randrange(2, 6)):
        W, H = r.randrange(3, 16), r.randrange(3, 14)
        ch = r.randrange(3)
        f = picture(r, W, H)
        pt = lambda: [r.randrange(-3, W + 3), r.randrange(-3, H + 3)]
        kind = r.choice(["circle", "rect", "cross", "line", "blend", "text"])
        c = tuple(r.randrange(256) for _ in range(3))
        p = dict(k=kind, c=c[ch], x=0, y=0, x2=0, y2=0, r=[], t=[])
        p["x"], p["y"] = a = pt()
        p["x2"], p["y2"] = b = pt()
        kw = {}
        ev = dict(op="prim", p=p, b=chan(f, ch), a=[], same=False, exc="")
        if kind == "blend":
            g = picture(r, W, H)
            ev = dict(op="blend", b=chan(f, ch), b2=chan(g, ch), a=[], alpha=4, beta=[], gamma=0, same=False, exc="")
            if r.random() < 0.8:
                ev["alpha"] = r.randrange(0, 9)
                kw["alpha"] = ev["alpha"] / 8
            if r.random() < 0.5:
                ev["beta"] = [r.randrange(0, 9)]
                kw["beta"] = ev["beta"][0] / 8
            if r.random() < 0.3:
                kw["gamma"] = ev["gamma"] = r.randrange(-20, 21)

            def run():
                f0, g0 = f.copy(), g.copy()
                out = Drawer.alpha_blend(f, g, **kw)
                ev["a"] = chan(out, ch)
                ev["same"] = bool((f == f0).all() and (g == g0).all())
        elif kind == "text":
            ev = dict(op="text", b=chan(f, ch), s=r.choice(["a", "7-0.5", "x y", ""]), x=a[0], y=a[1], c=0, sz=[], th=[], shadow=True,
                      sc=0, off=1, texts=[], exc="")
            kw = dict(color=c)
            ev["c"] = c[0] + 256 * c[1] + 65536 * c[2]
            if r.random() < 0.5:
                kw["size"] = r.choice([0.25, 0.75, 1, 2, 3.25])
                ev["sz"] = [int(kw["size"] * 1000)]
            if r.random() < 0.5:
                kw["thickness"] = r.choice([1, 2, 3, 5])
                ev["th"] = [kw["thickness"]]
            if r.random() < 0.3:
                kw["shadow"] = ev["shadow"] = r.random() < 0.3
            if r.random() < 0.3:
                kw["shadow_offset"] = ev["off"] = r.choice([0, 2, 3])
            if r.random() < 0.3:
                kw["shadow_color"] = c[::-1]
                ev["sc"] = c[2] + 256 * c[1] + 65536 * c[0]

            def run():
                with Text() as t:
                    Drawer.text(f, ev["s"], tuple(a), **kw)
                ev["texts"] = t.calls
        else:
            if r.random() < 0.6 or kind == "cross":
                p["t"] = [r.choice([1, 2, 3] + ([-1] if kind in ("circle", "rect") else []))]
                kw["thickness"] = p["t"][0]
            elif kind == "rect":
                p["t"] = [1]
                kw["thickness"] = 1
            if kind == "cross" or kind == "circle" and r.random() < 0.7:
                p["r"] = [r.randrange(0, 5)]
                kw["radius"] = p["r"][0]
            if kind == "circle" and p["t"] == [] and p["r"] == [0]:
                p["t"] = [-1]
                kw["thickness"] = -1

            def run():
                out = (Drawer.circle(f, tuple(a), color=c, **kw) if kind == "circle" else
                       Drawer.rectangle(f, [a, b], color=c, **kw) if kind == "rect" else
                       Drawer.cross(f, np.array(a), color=c, **kw) if kind == "cross" else
                       Drawer.line(f, tuple(a), tuple(b), color=c, **kw))
                ev["a"] = chan(f, ch)
                ev["same"] = bool((np.asarray(out) == f).all())
        guard(ev, run)
        evs.append(ev)
    return dict(poi="mean", hist=1, r=[], t=[], ev=evs, stim=[{k: v for k, v in e.items() if k not in ("a", "b", "b2")} for e in evs])
