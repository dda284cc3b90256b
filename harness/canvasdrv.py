"""FixedCamera of the real code, for CanvasTrace.tla."""
from trackdrv import *
from norfair.drawing import FixedCamera
from norfair.camera_motion import TranslationTransformation
from motiondrv import guard

SCALES = [(2, 1), (2, 1), (1, 1), (3, 2), (5, 4), (5, 2), (3, 1), (1, 2)]
ATT = [(0.05, 95, 100, False), (0.5, 1, 2, True), (0.25, 3, 4, True), (0.0, 1, 1, True), (1.0, 0, 1, True),
       (0.01, 99, 100, False), (0.1, 9, 10, False), (0.3, 7, 10, False), (0.125, 7, 8, True)]
HUGE = [10 ** 5, -10 ** 5, 2 ** 31, -2 ** 31, 2 ** 31 + 2.5, 10 ** 12, -10 ** 12, 10 ** 15]


# channels, bound of their values, type of the pixels
KINDS = [(3, 256, np.uint8)] * 8 + [(1, 256, np.uint8)] * 2 + [
    (4, 128, np.uint8), (2, 256, np.uint8), (1, 65536, np.uint16), (3, 1024, np.uint16), (1, 10 ** 6, np.int32),
    (2, 30000, np.int16), (3, 256, np.int64)]


def packed(a, b=256):
    a = a.astype(np.int64)
    p = sum(a[:, :, k] * b ** k for k in range(a.shape[2]))
    bad = (a < 0).any(axis=2) | (a >= b).any(axis=2) | (p >= 2 ** 31 - 1) | (p < 0)
    return dict(h=int(a.shape[0]), w=int(a.shape[1]), px=np.where(bad, WEIRD, p).tolist())


def q4(m):
    return int(max(min(round(m * 4), 400000000), -400000000))


def trace(seed, moves=None, scale=None, att=None, size=None):
    r = random.Random(seed)
    sn, sd = scale or r.choice(SCALES)
    att, an, ad, exact = att or r.choice(ATT)
    h, w = size or (r.randrange(1, 8), r.randrange(1, 8))
    ch, base, kind = r.choice(KINDS)
    if size is None and r.random() < 0.02:
        h, w = r.randrange(20, 70), r.randrange(20, 70)
        moves = [[r.randrange(-40, 40), r.randrange(-40, 40)] for _ in range(3)]
    step = r.choice([1, 0.5, 0.25])
    span = r.choice([2, 4, 10, 25])
    if moves is None:
        moves = []
        for _ in range(r.randrange(1, 7)):
            m = [r.randrange(-span, span + 1) + step * r.randrange(4) for _ in range(2)]
            if r.random() < 0.08:
                m[r.randrange(2)] = r.choice(HUGE)
            moves.append(m)
    kw = {}
    if not ((sn, sd) == (2, 1) and r.random() < 0.5):
        kw["scale"] = sn // sd if sn % sd == 0 and r.random() < 0.5 else sn / sd
    if not (att == 0.05 and r.random() < 0.5):
        kw["attenuation"] = att
    cam = FixedCamera(**kw)
    evs, stim = [], dict(kw=kw, moves=moves, size=[h, w, ch], kind=np.dtype(kind).name)
    for i, m in enumerate(moves):
        if r.random() < 0.1:
            h, w = r.randrange(1, 8), r.randrange(1, 8)
        f = np.array([[[r.choice([r.randrange(base), base - 1 - r.randrange(min(base, 9))]) for _ in range(ch)] for _ in range(w)] for _ in range(h)], kind)
        if r.random() < 0.2:
            f[:] = base - 1
        g = f.copy()
        if r.random() < 0.3:  # a view of a larger picture
            big = np.zeros((h + 2, w + 2, ch), kind)
            big[1:-1, 1:-1] = f
            g = big[1:-1, 1:-1]
        ev = dict(f=packed(f, base), m=[q4(m[0]), q4(m[1])], c=dict(h=0, w=0, px=[]), same=True, exc="")
        t = TranslationTransformation(np.array(m, float))

        def run():
            out = cam.adjust_frame(g, t)
            ev["c"] = packed(out.copy(), base)
            if out.ndim != 3 or out.shape[2] != ch:
                ev["c"] = dict(h=-1, w=-1, px=[])
            ev["same"] = bool(g.shape == f.shape and (g == f).all() and (t.movement_vector == np.array(m, float)).all())
        guard(ev, run)
        evs.append(ev)
        if ev["exc"]:
            break
    return dict(sn=sn, sd=sd, an=an, ad=ad, exact=exact, n=ch, b=base, ev=evs, stim=stim)


def words(n):
    """Every pair of movements of a grid, one after the other, on a small canvas."""
    grid = [-40, -5, -2, -1, -0.5, 0, 0.75, 1, 3, 40][:n]
    out = []
    for a in grid:
        for b in grid:
            out.append(trace(chash("w", a, b), [[a, b], [b, a]], (2, 1), ATT[0], (2, 3)))
            out.append(trace(chash("v", a, b), [[0, a], [b, 0], [a, b]], (3, 2), ATT[1], (3, 2)))
    return out
