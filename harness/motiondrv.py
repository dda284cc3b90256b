"""Camera motion: transformations, getters (MotionTrace.tla) and the estimator (EstimTrace.tla)."""
from trackdrv import *
from norfair import camera_motion as CM
import cv2, copy

SC = 1024


def fs(v):
    try:
        v = float(v)
    except Exception:
        return WEIRD
    if math.isnan(v) or abs(v) > 1000000:
        return WEIRD
    return int(round(v * SC))


def fpts(a):
    return [[fs(v) for v in p] for p in np.asarray(a)]


def probes(r, dim=2, k=3, span=60):
    return [[r.randrange(-span, span) for _ in range(dim)] for _ in range(k)]


def apply(t, pr):
    k = abs(sum(map(sum, pr))) % 4
    P = np.array(pr, int if k == 0 else float)      # pixels are integers more often than not
    Q = P.copy()
    if k == 1:
        P = list(P)
    rel = t.abs_to_rel(P)
    mut = [] if (np.array(P) == Q).all() else ["mut:points"]
    R = np.array(rel, copy=True)
    back = t.rel_to_abs(rel)
    if not (np.asarray(rel) == R).all():
        mut.append("mut:points")
    return fpts(R), fpts(back), mut


def guard(ev, f):
    try:
        with watchdog(20):
            f()
    except Hang:
        ev["exc"] = "Hang"
    except Exception as e:
        ev["exc"] = type(e).__name__
    return ev


class Held:
    """Transformations handed out earlier must not change afterwards."""

    def __init__(self):
        self.old = []

    def check(self, t, pr):
        mut = []
        for o, p, rel in self.old:
            if apply(o, p)[0] != rel:
                mut.append("mut:transformation")
        if t is not None:
            self.old.append((t, pr, apply(t, pr)[0]))
        return sorted(set(mut))


def trans_trace(seed):
    r = random.Random(seed)
    bn, bd = r.choice([(1, 5), (1, 5), (1, 2), (1, 1), (2, 1), (1, 4)])
    thr = r.choice([90, 90, 50, 75, 100, 30, 0])
    dim = r.choice([2, 2, 2, 3])
    kw = {}
    if (bn, bd) != (1, 5) or r.random() < 0.3:
        kw["bin_size"] = bn / bd
    if thr != 90 or r.random() < 0.3:
        kw["proportion_points_used_threshold"] = thr / 100
    g = CM.TranslationTransformationGetter(**kw)
    held, evs = Held(), []
    for i in range(r.choice([4, 8]) if r.random() < 0.95 else 40):
        n = r.choice([1, 2, 4, 10, 10, 20]) if r.random() < 0.95 else r.choice([60, 150, 300])
        main = [r.randrange(-640, 640) for _ in range(2)]
        agree = r.choice([1.0, 0.95, 0.9, 0.8, 0.5, 0.4])
        flow = []
        for j in range(n):
            # several flows of one bin, or something else
            if j < round(n * agree):
                f = [bn * 64 * round(main[k] * bd / (64 * bn)) // bd + r.choice([0, 0, 1, -1]) for k in (0, 1)]
            else:
                f = [r.randrange(-900, 900) for _ in range(2)]
            flow.append(f)
        r.shuffle(flow)
        # no ties of rounding: the bin of every flow is unambiguous
        for f in flow:
            for k in (0, 1):
                while (2 * f[k] * bd) % (64 * bn) == 0 and (2 * f[k] * bd // (64 * bn)) % 2 == 1:
                    f[k] += 1
        prev = np.array([[r.randrange(0, 300) for _ in range(2)] for _ in range(n)], float)
        curr = prev + np.array(flow, float) / 64
        if r.random() < 0.3:
            prev, curr = prev.astype(np.float32), curr.astype(np.float32)
        pr = probes(r, span=r.choice([60, 60, 900000]))
        ev = {"op": "trans", "exc": "", "flow": flow, "upd": False, "mv": [0, 0], "rel": [], "back": [], "pr": pr,
              "mut": [], "got": False}

        def go():
            p0, c0 = prev.copy(), curr.copy()
            upd, t = g(curr, prev)
            mut = [] if (p0 == prev).all() and (c0 == curr).all() else ["mut:points"]
            ev["upd"] = bool(upd)
            ev["got"] = t is not None
            if t is not None:
                o = t.abs_to_rel(np.zeros((1, 2)))[0] * bd / bn
                ev["mv"] = [enc(round(float(v), 3)) for v in o]
                ev["rel"], ev["back"], m2 = apply(t, pr)
                mut += m2
            ev["mut"] = sorted(set(mut + held.check(t, pr)))
        evs.append(guard(ev, go))
    return {"bn": bn, "bd": bd, "thr": thr, "ev": evs, "stim": {"getter": "translation", "seed": seed, "args": kw, "events": evs}}


MATS = [
    [[1, 0, 5], [0, 1, -3], [0, 0, 1]], [[1, 0, -8], [0, 1, 2], [0, 0, 1]], [[1, 0, 0], [0, 1, 12], [0, 0, 1]],
    [[2, 0, 1], [0, 2, -4], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 2]], [[0, -1, 300], [1, 0, 0], [0, 0, 1]],
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [-1, 0, 300], [0, 0, 1]], [[3, 0, 1], [0, 3, 1], [0, 0, 3]],
    [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, -1, 0], [0, 1, 0], [0, 0, 1]],
]
PERSP = [[[1000, 0, 0], [0, 1000, 0], [1, 0, 1000]], [[1000, 0, 4000], [0, 1000, 0], [0, 1, 1000]]]


def himg(m, p):
    q = np.array(m, float) @ np.array([p[0], p[1], 1.0])
    if q[2] == 0:
        return np.array([1e9, 1e9])
    return q[:2] / q[2]


def homog_trace(seed):
    r = random.Random(seed)
    thr = r.choice([90, 90, 75, 100, 50, 0])
    method = r.choice([None, None, 0, cv2.RANSAC])
    kw = {}
    if thr != 90 or r.random() < 0.3:
        kw["proportion_points_used_threshold"] = thr / 100
    if method is not None:
        kw["method"] = method
    if r.random() < 0.3:
        kw["ransac_reproj_threshold"] = r.choice([1, 2, 3])
    g = CM.HomographyTransformationGetter(**kw)
    held, evs = Held(), []
    acc = [np.eye(3)]
    persp = 0
    for i in range(r.choice([4, 7]) if r.random() < 0.95 else 15):
        few = r.random() < 0.15
        m = r.choice(MATS)
        if persp == 0 and r.random() < 0.15:
            m, persp = r.choice(PERSP), 1
        # keep the accumulated motion within a reasonable scale
        for _ in range(20):
            a = np.array(m, float) @ acc[-1]
            a = a / a[2, 2]
            s = math.sqrt(abs(np.linalg.det(a[:2, :2])))
            if 0.3 < s < 3 and abs(a[:2, 2]).max() < 1200 and abs(a[:2, :2]).max() < 4:
                break
            m = r.choice(MATS)
        else:
            m = MATS[6]
        n = r.choice([0, 1, 3]) if few else (r.choice([20, 30, 40]) if r.random() < 0.9 else r.choice([100, 200]))
        frac = 1.0 if method == 0 else r.choice([1.0, 1.0, 0.95, 0.8, 0.7])
        pts = r.sample([(20 * x, 20 * y) for x in range(16) for y in range(16)], n) if n else []
        out = n - round(n * frac)
        prev = np.array(pts, float).reshape(-1, 2)
        curr = np.array([himg(m, p) for p in pts]).reshape(-1, 2)
        for j in range(out):
            ang = r.random() * 6.28
            curr[j] += np.array([math.cos(ang), math.sin(ang)]) * r.choice([60, 90, 150, 230])
        form = r.choice(["none", "list", "arr"]) if few else "arr"
        P, C = prev.astype(np.float32), curr.astype(np.float32)
        if few and form == "none":
            P = C = None
        elif few and form == "list":
            P, C = P.tolist(), C.tolist()
        pr = [[r.randrange(0, 300), r.randrange(0, 300)] for _ in range(3)]
        ev = {"op": "homog", "exc": "", "m": m, "inl": 1 if method == 0 and n else n - out, "tot": 1 if method == 0 and n else n,
              "few": few, "upd": False, "got": False, "rel": [], "back": [], "pr": pr, "mut": [], "tol": 150}

        def go():
            p0, c0 = copy.deepcopy(P), copy.deepcopy(C)
            upd, t = g(C, P)
            mut = []
            if isinstance(P, np.ndarray) and not ((p0 == P).all() and (c0 == C).all()):
                mut.append("mut:points")
            ev["upd"] = bool(upd)
            ev["got"] = t is not None
            if t is not None:
                ev["rel"], ev["back"], m2 = apply(t, pr)
                mut += m2
            ev["mut"] = sorted(set(mut + held.check(t, pr)))
        evs.append(guard(ev, go))
        if not few and (n - out) / n < thr / 100 and method != 0:
            acc.append(np.array(m, float) @ acc[-1])
            acc[-1] /= acc[-1][2, 2]
    return {"bn": 1, "bd": 1, "thr": thr, "ev": evs, "stim": {"getter": "homography", "seed": seed, "args": str(kw), "events": evs}}


def plain_trace(seed):
    """Transformations made by hand."""
    r = random.Random(seed)
    evs = []
    for i in range(6):
        if r.random() < 0.4:
            dim = r.choice([1, 2, 3])
            vec = [r.randrange(-500, 500) for _ in range(dim)]
            mat, t = [], (lambda v=vec: CM.TranslationTransformation(np.array(v, float) / 4))
            vs, pr = [v * SC // 4 for v in vec], probes(r, dim, span=r.choice([60, 60, 900000]))
        else:
            for _ in range(100):
                m = [[r.choice([-2, -1, 0, 1, 2, 3]) for _ in range(3)] for _ in range(2)] + \
                    [[r.choice([0, 0, 0, 1, -1]), r.choice([0, 0, 1]), r.choice([1, 2, 70, 90])]]
                m[0][2], m[1][2] = r.randrange(-40, 40), r.randrange(-40, 40)
                pr = probes(r, 2)
                M = np.array(m, float)
                if abs(np.linalg.det(M)) < 0.5:
                    continue
                A = np.linalg.inv(M)
                w = [abs(np.dot(m[2], [*p, 1])) for p in pr]
                w2 = [abs(np.dot(A[2], [*p, 1]) * np.linalg.det(M)) for p in pr]
                im = [np.abs(himg(m, p)).max() for p in pr]
                if min(w) < 0.5 or min(w2) < 0.5:
                    continue
                im += [np.abs(himg(A, p)).max() for p in pr]
                # well conditioned in both directions: 1/1024 px is far above float64 noise
                if max(im) < 900:
                    break
            else:
                m = [[1, 0, 3], [0, 1, 2], [0, 0, 1]]
            mat, vs = m, []
            dt = r.choice([float, float, int])
            t = (lambda m=m, dt=dt: CM.HomographyTransformation(np.array(m, dtype=dt)))
        ev = {"op": "plain", "exc": "", "mat": mat, "vec": vs, "pr": pr, "rel": [], "back": [], "abs": [], "forth": [], "mut": []}

        def go():
            T = t()
            ev["rel"], ev["back"], mut = apply(T, pr)
            P = np.array(pr, float)
            a = T.rel_to_abs(P)
            ev["abs"] = fpts(a)
            ev["forth"] = fpts(T.abs_to_rel(a))
            if not (P == np.array(pr, float)).all():
                mut.append("mut:points")
            ev["mut"] = sorted(set(mut))
        evs.append(guard(ev, go))
    return {"bn": 1, "bd": 1, "thr": 0, "ev": evs, "stim": {"seed": seed, "events": evs}}


# ------------------------------------------------------------------ estimator
_scenes = {}


def scene(seed, size=480):
    """A static textured scene with structure on several scales."""
    if seed not in _scenes:
        rs = np.random.RandomState(seed)
        acc = np.zeros((size, size))
        for block, amp in ((5, 1.0), (12, 1.0), (30, 1.2), (80, 1.0)):
            a = rs.rand(size // block + 2, size // block + 2)
            acc += amp * cv2.resize(a, (size, size), interpolation=cv2.INTER_CUBIC)
        acc = (acc - acc.min()) / (acc.max() - acc.min()) * 255
        col = np.stack([acc, acc * 0.8 + 20, 255 - acc * 0.5], axis=2)
        _scenes[seed] = col.astype(np.uint8)
    return _scenes[seed]


WIDTH, HEIGHT = 200, 160
GOTS = {"translation": CM.TranslationTransformationGetter, "homography": CM.HomographyTransformationGetter}


class Tap(CM.TransformationGetter):
    """Records what passes between the estimator and its getter."""

    def __init__(self, inner, log):
        self.inner, self.log, self.age = inner, log, 0

    def __deepcopy__(self, memo):
        t = Tap(copy.deepcopy(self.inner), self.log)
        t.age = self.age
        return t

    def __call__(self, curr, prev):
        self.log["calls"].append((None if curr is None else np.array(curr, copy=True),
                                  None if prev is None else np.array(prev, copy=True)))
        self.log["age"] = self.age
        self.age += 1
        try:
            flag, t = self.inner(curr, prev)
        except Exception:
            self.log["raised"] = True
            raise
        self.log["flag"], self.log["t"] = bool(flag), t
        return flag, t


class Script(CM.TransformationGetter):
    """Asks for a new reference, or fails, on a schedule."""

    def __init__(self, plan):
        self.plan = plan

    def __call__(self, curr, prev):
        a = self.plan.now
        if a == "raise":
            raise ValueError("scripted")
        return a == "renew", CM.TranslationTransformation(np.median(curr - prev, axis=0))


class Plan:
    now = "keep"

    def __deepcopy__(self, memo):
        return self


def estim_trace(seed):
    r = random.Random(seed)
    kind = r.choice(["translation", "translation", "homography", "script"])
    S = scene(r.randrange(6))
    log = {"age": 0, "calls": [], "raised": False, "flag": False, "t": None}
    plan = Plan()
    gkw = {}
    if kind != "script" and r.random() < 0.6:
        gkw["proportion_points_used_threshold"] = r.choice([0.0, 0.6, 0.9, 1.01])
    inner = Script(plan) if kind == "script" else GOTS[kind](**gkw)
    kw = {}
    if r.random() < 0.4:
        kw["max_points"] = r.choice([60, 120, 300])
    if r.random() < 0.3:
        kw["min_distance"] = r.choice([8, 12])
    draw = r.random() < 0.15
    colr = [0, 0, 100]
    if draw:
        kw["draw_flow"] = True
        if r.random() < 0.7:
            colr = [r.randrange(256) for _ in range(3)]
            kw["flow_color"] = tuple(colr)
    pblank = r.choice([0, 0, 0, 0.1, 0.25])
    # (patchy: parts of the static scene are masked out in some frames only)
    patchy = r.random() < 0.25 and kind != "homography"
    window = r.random() < 0.5
    masked = not patchy and r.random() < 0.35 and kind != "homography"  # a homography is loose where it has no points
    est = CM.MotionEstimator(transformations_getter=Tap(inner, log), **kw)
    same = CM.MotionEstimator(**kw) if kind == "homography" and not gkw and r.random() < 0.5 else None  # that getter is the default
    third = CM.MotionEstimator(**kw) if same is not None and r.random() < 0.6 else None     # another camera
    cx, cy = 0, 0
    ox, oy = r.randrange(60, 140), r.randrange(60, 140)
    PR = np.array([[50., 40.], [150., 40.], [100., 120.]])
    H_, W_ = HEIGHT + r.choice([0, 0, 1, 27]), WIDTH + r.choice([0, 0, 1, 30])
    evs, frames, wild, prev_ref_mask = [], [], False, None
    mask_of_ref = None
    first = True
    for i in range(r.choice([8, 14]) if r.random() < 0.95 else 45):
        cx = max(-9, min(9, cx + r.choice([0, 1, -2, 4, -5, 7])))
        cy = max(-9, min(9, cy + r.choice([0, -1, 2, 3, -6])))
        u = r.random() >= pblank
        if u:
            f = S[oy + cy:oy + cy + H_, ox + cx:ox + cx + W_].copy()
        else:
            f = np.full((H_, W_, 3), r.choice([0, 128, 255]), np.uint8)
            wild = True
        mask = None
        if patchy and r.random() < 0.6:
            mask = np.ones((H_, W_), np.uint8)
            x0, y0 = r.randrange(W_ - 60), r.randrange(H_ - 50)
            mask[y0:y0 + 50, x0:x0 + 60] = 0
            if window:      # or all but a window
                mask[:] = 0
                x0, y0 = r.choice([20, 105]), r.choice([15, 82])
                mask[y0:y0 + 64, x0:x0 + 75] = 1
        if masked:
            # something big moves on its own; it is masked out
            mask = np.ones((H_, W_), np.uint8)
            x0, y0 = 20 + (13 * i) % 50, 10 + (7 * i) % 30
            mask[max(0, y0 - 12):y0 + 112, max(0, x0 - 12):x0 + 102] = 0
            if u:
                T = scene(77)
                f[y0:y0 + 100, x0:x0 + 90] = T[(31 * i) % 90:(31 * i) % 90 + 100, 50:140]
        if kind == "script":
            plan.now = r.choice(["keep", "keep", "renew", "raise"]) if i else r.choice(["keep", "renew"])
            if not u:  # a schedule that kept comparing with nothing would be senseless
                plan.now = r.choice(["renew", "raise"])
        g, m0 = f.copy(), None if mask is None else mask.copy()
        log.update(calls=[], raised=False, flag=False, t=None)
        ev = {"exc": "", "u": u, "cam": [cx, cy], "call": "", "flow": [0, 0], "flag": False, "raised": False,
              "empty": 0, "n": 0, "apart": 1 << 30, "undrawn": 0, "stray": 0, "got": False, "inner": False, "disp": [], "age": 0, "out": 0, "mut": []}

        def go():
            nonlocal mask_of_ref, first
            t = est.update(f, mask) if mask is not None else est.update(f)
            if first:
                mask_of_ref, first = m0, False
            ev["flag"], ev["raised"] = log["flag"], log["raised"]
            ev["got"], ev["inner"] = t is not None, t is not None if log["t"] is t else t is None
            ev["age"] = log["age"]
            if len(log["calls"]) > 1:
                ev["call"] = f"{len(log['calls'])} calls"
            elif not log["calls"]:
                # not asked: as good as having failed
                ev["call"], ev["raised"], ev["age"] = "none", True, -1
            else:
                c, p = log["calls"][0]
                ev["call"] = "none" if c is None or p is None or len(p) == 0 else "pts"
                if ev["call"] == "pts":
                    ev["flow"] = [fs(v) for v in np.median(c - p, axis=0)]
                    ev["n"] = len(p)
                    if len(p) > 1:
                        dd = np.hypot(*(p[:, None] - p[None]).transpose(2, 0, 1)) + np.eye(len(p)) * 1e6
                        ev["apart"] = fs(dd.min())
                    for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):     # quarters of the reference that have to show points
                        x, y = a * W_ // 2, b * H_ // 2
                        if (mask_of_ref is None or mask_of_ref[y:y + H_ // 2, x:x + W_ // 2].all()) and \
                                not ((p >= [x, y]) & (p < [x + W_ // 2, y + H_ // 2])).all(axis=1).any():
                            ev["empty"] += 1
                    if mask_of_ref is not None:
                        xy = np.round(p).astype(int)
                        ev["out"] = int((mask_of_ref[xy[:, 1].clip(0, H_ - 1), xy[:, 0].clip(0, W_ - 1)] == 0).sum())
            if t is not None:
                ev["disp"] = fpts(t.abs_to_rel(PR.copy()) - PR)
            if ev["raised"] or ev["flag"]:
                mask_of_ref = m0
            if third is not None:
                third.update(scene(3)[7 * i:7 * i + 120, 9 * i:9 * i + 140].copy())
            if same is not None:
                t2 = same.update(g.copy())
                if (t is None) != (t2 is None) or t is not None and np.abs(t.abs_to_rel(PR.copy()) - t2.abs_to_rel(PR.copy())).max() > 0.01:
                    ev["mut"].append("default")
            if not draw and not (g == f).all():
                ev["mut"].append("mut:frame")
            if draw and g.shape == f.shape:
                # both ends of every movement carry the color, and nothing else is touched
                near = np.zeros(f.shape[:2], np.uint8)
                if ev["call"] == "pts":
                    for a, b in zip(*log["calls"][0]):
                        for q in (a, b):
                            x, y = int(q[0]), int(q[1])
                            if 0 <= x < W_ and 0 <= y < H_ and (f[y, x] != colr).any():
                                ev["undrawn"] += 1
                        cv2.line(near, *[tuple(int(v) for v in q) for q in (a, b)], 255, 17)
                ev["stray"] = int(((f != g).any(axis=2) & (near == 0)).sum())
            if draw and not (g.shape == f.shape and g.dtype == f.dtype):
                ev["mut"].append("mut:frame")
            if mask is not None and not (m0 == mask).all():
                ev["mut"].append("mut:mask")
            for k, (fr, cp) in enumerate(frames):
                if not (fr == cp).all():
                    ev["mut"].append("mut:frame")
            frames.append((f, f.copy()))
        evs.append(guard(ev, go))
        if ev["exc"]:
            break
    return {"kind": kind, "probes": [1, 2, 3], "wild": wild, "ev": evs,
            "maxp": kw.get("max_points", 200), "mind": kw.get("min_distance", 15),
            "tol": {"translation": 400, "homography": 1200, "script": 300}[kind],
            "drift": {"translation": 150, "homography": 700, "script": 0}[kind], "ftol": 400,
            "stim": {"seed": seed, "kind": kind, "getter": gkw, "estimator": kw, "masked": masked or patchy,
                     "frames": [[e["u"], e["cam"]] for e in evs]}}
