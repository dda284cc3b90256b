"""Video of the real code, for VideoTrace.tla. Frames carry a number in blocks of light and dark."""
from trackdrv import *
import cv2, contextlib, io, time
from norfair import Video
from motiondrv import guard

SIZES = [(64, 48), (96, 64), (80, 80)]


def frame_of(i, w, h):
    f = np.full((h, w, 3), 30, np.uint8)
    for b in range(8):
        if (i >> b) & 1:
            y, x = divmod(b, 4)
            f[y * h // 2:(y + 1) * h // 2, x * w // 4:(x + 1) * w // 4] = 220
    return f


def id_of(f):
    h, w = f.shape[:2]
    v = 0
    for b in range(8):
        y, x = divmod(b, 4)
        c = f[y * h // 2 + 5:(y + 1) * h // 2 - 5, x * w // 4 + 5:(x + 1) * w // 4 - 5]
        v |= int(c.mean() > 128) << b
    return v


def read_all(path):
    c = cv2.VideoCapture(path)
    fps, ids, size = c.get(cv2.CAP_PROP_FPS), [], [0, 0]
    while True:
        ok, f = c.read()
        if not ok:
            break
        ids.append(id_of(f))
        size = [int(f.shape[1]), int(f.shape[0])]
    c.release()
    return ids, size, int(round(fps * 100))


class Camera:
    """Stand-in for a camera device: OpenCV's capture of a number."""

    def __init__(self, frames, fps):
        self.frames, self.fps, self.i = frames, fps, 0

    def read(self):
        self.i += 1
        time.sleep(0.0002)
        if self.i <= len(self.frames):
            return True, self.frames[self.i - 1].copy()
        return False, None

    def grab(self):
        self.held = self.read()
        return self.held[0]

    def retrieve(self, *a):
        return self.held

    def set(self, *a):
        return False

    def open(self, *a):
        return True

    def getBackendName(self):
        return "STAND-IN"

    def get(self, p):
        return {cv2.CAP_PROP_FPS: self.fps, cv2.CAP_PROP_FRAME_HEIGHT: 48.0, cv2.CAP_PROP_FRAME_WIDTH: 64.0}.get(p, -1.0)

    def isOpened(self):
        return True

    def release(self):
        pass


@contextlib.contextmanager
def quiet_cv(camera=None, shown=None):
    real, imshow = cv2.VideoCapture, cv2.imshow
    if camera is not None:
        cv2.VideoCapture = lambda a, *k: camera if isinstance(a, int) else real(a, *k)
    cv2.imshow = lambda name, f: shown.append(f) if shown is not None else None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        cv2.VideoCapture, cv2.imshow = real, imshow


_n = [0]


def source(r, d, stem):
    """Writes a source video; returns path and the ids read back without norfair."""
    ext, cc = r.choice([("avi", "MJPG"), ("mp4", "mp4v"), ("avi", "XVID")])
    fps = r.choice([10.0, 25.0, 30.0, 12.5])
    w, h = r.choice(SIZES) if r.random() < 0.95 else (642, 482)
    p = os.path.join(d, stem + "." + ext)
    o = cv2.VideoWriter(p, cv2.VideoWriter_fourcc(*cc), fps, (w, h))
    start = r.randrange(1, 100)
    for i in range(r.randrange(1, 13) if r.random() < 0.95 else r.choice([40, 70, 130, 270])):
        o.write(frame_of((start + 7 * i) % 256, w, h))
    o.release()
    return p


def life(seed, root):
    r = random.Random(seed)
    _n[0] += 1
    d = os.path.join(root, "v%d" % _n[0])
    os.makedirs(os.path.join(d, "in"))
    od = r.choice(["outdir", "outdir", "out.v1", "o.mp4"])
    os.makedirs(os.path.join(d, od))
    stem = r.choice(["clip", "my video", "a_long_name_" * r.choice([1, 12]), "x-1"])
    cam = r.random() < 0.2
    kw, home = {}, os.environ.get("HOME")
    cwd = os.getcwd()
    os.chdir(d)
    evs = []
    try:
        if cam:
            w, h = 64, 48
            ids = [(3 + 5 * i) % 256 for i in range(r.randrange(1, 10))]
            camera = Camera([frame_of(i, w, h) for i in ids], 15.0)
            kw["camera"] = r.choice([0, 1, 7])
            src, fps = ids, 1500
        else:
            camera = None
            p = source(r, os.path.join(d, "in"), stem)
            src, _, fps = read_all(p)
            k = r.randrange(3)
            kw["input_path"] = p
            if k == 1:
                kw["input_path"] = os.path.relpath(p, d)
            elif k == 2:
                os.environ["HOME"] = d
                kw["input_path"] = "~/in/" + os.path.basename(p)
        given, ext, tail = "", "mp4", "mp4"
        arg = dict(cam=[kw["camera"]] if cam else [], stem=stem, dir=True, out=".", ext="mp4")
        k = r.randrange(4)
        if k == 1:
            kw["output_path"] = od if r.random() < 0.5 else os.path.join(d, od)
            arg["out"] = kw["output_path"]
            if r.random() < 0.3:
                kw["output_path"] += "/"
        elif k == 2:
            tail = r.choice(["mp4", "avi", "AVI", "mov", "mkv"] if r.random() < 0.5 else ["mp4", "avi"])
            kw["output_path"] = r.choice(["res.", od + "/res.", os.path.join(d, "res.")]) + tail
            arg.update(dir=False, out=kw["output_path"])
        if k != 2 and r.random() < 0.5:
            ext = tail = r.choice(["avi", "mp4", "avi", "mkv"])
            kw["output_extension"] = ext
        arg["ext"] = ext
        tail = tail.lower()[-3:]
        if r.random() < 0.3:
            given = r.choice(["XVID", "MJPG"]) if tail == "avi" else "mp4v"
            kw["output_fourcc"] = given
        if r.random() < 0.3:
            v = r.choice([5, 20.0, 24])
            kw["output_fps"] = v
            fps = int(v * 100)
        if r.random() < 0.2:
            kw["label"] = "some label " * r.choice([1, 20])
        tr = dict(src=src, fourcc=given, tail=tail, fps=fps, ev=evs, stim=dict(kw=kw, n=len(src)))
        ev = dict(op="ctor", inp="none" if cam else "video", cam="int" if cam else "none", exc="")
        box, shown = {}, []
        with quiet_cv(camera, shown):
            evs.append(guard(ev, lambda: box.update(v=Video(**kw))))
            if ev["exc"]:
                return tr
            v = box["v"]

            def path():
                ev = dict(op="path", arg=arg, got="", exc="")
                evs.append(guard(ev, lambda: ev.update(got=os.path.normpath(v.get_output_file_path()))))
            path()
            size = r.choice([None, (64, 48), (48, 32)])
            kept, written, stop = [], 0, False
            budget = r.choice([0, 3, 50])
            while not stop:
                it = iter(v)
                while True:
                    ev = dict(op="next", id=-1, exc="")
                    f = [None]

                    def step():
                        try:
                            f[0] = next(it)
                            ev["id"] = id_of(f[0])
                        except StopIteration:
                            pass
                    evs.append(guard(ev, step))
                    if ev["exc"] or f[0] is None:
                        stop = True
                        break
                    kept.append(f[0])
                    if len(kept) > len(src) + 3:
                        stop = True
                        break
                    for _ in range(r.choice([0, 1, 1, 1, 2]) if written < budget else 0):
                        g = f[0]
                        if size or r.random() < 0.2:
                            g = frame_of(r.randrange(256), *(size or (f[0].shape[1], f[0].shape[0])))
                        c = g.copy()
                        ev = dict(op="write", id=id_of(g), size=[int(g.shape[1]), int(g.shape[0])], same=True, exc="")

                        def write():
                            v.write(g)
                            ev["same"] = bool((c == g).all())
                        evs.append(guard(ev, write))
                        if ev["exc"]:
                            return tr
                        written += 1
                    if r.random() < 0.15:
                        ratio, rn, rd = r.choice([(1.0, 1, 1), (2, 2, 1), (2.0, 2, 1), (1.5, 3, 2), (4.0, 4, 1), (0.5, 1, 2),
                                                  (3, 3, 1), (2.5, 5, 2)])
                        c = f[0].copy()
                        ev = dict(op="show", rn=rn, rd=rd, size=[int(c.shape[1]), int(c.shape[0])], shown=[], same=True, exc="")
                        del shown[:]

                        def show():
                            if ratio == 1.0 and r.random() < 0.5:
                                v.show(f[0])
                            else:
                                v.show(f[0], downsample_ratio=ratio)
                            ev["shown"] = [int(shown[-1].shape[1]), int(shown[-1].shape[0])]
                            ev["same"] = bool((c == f[0]).all())
                        evs.append(guard(ev, show))
                        if ev["exc"]:
                            return tr
                    if r.random() < 0.05:  # leave the loop, come back
                        it.close()
                        break
            evs.append(dict(op="kept", ids=[id_of(f) for f in kept], exc=""))
            path()
            out = box["v"].get_output_file_path()
        ev = dict(op="file", exists=os.path.isfile(out), ids=[], size=[0, 0], fps=0, exc="")
        if ev["exists"]:
            ev["ids"], ev["size"], ev["fps"] = read_all(out)
        evs.append(ev)
        return tr
    finally:
        os.chdir(cwd)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def ctors(root):
    """Sources that are and are not accepted."""
    d = os.path.join(root, "ctor")
    os.makedirs(d, exist_ok=True)
    good = source(random.Random(1), d, "clip")
    bad = os.path.join(d, "text.mp4")
    open(bad, "w").write("not a video")
    out = []
    inputs = [("none", None), ("video", good), ("missing", os.path.join(d, "nothing.mp4")), ("missing", d), ("missing", "~/nothing.mp4"),
              ("novideo", bad)]
    cams = [("none", None), ("int", 0), ("int", 3), ("str", "0"), ("float", 0.0), ("str", good), ("list", [0])]
    for inp, iv in inputs:
        for cam, cv in cams:
            for full in (True, False):
                kw = dict(input_path=iv, camera=cv)
                if not full:
                    kw = {k: v for k, v in kw.items() if v is not None}
                ev = dict(op="ctor", inp=inp, cam=cam, exc="")
                with quiet_cv(Camera([], 15.0)):
                    guard(ev, lambda: Video(**kw))
                out.append(dict(src=[], fourcc="", tail="mp4", fps=0, ev=[ev], stim=repr(kw)))
    evs = []
    with quiet_cv(Camera([], 15.0)):
        for given in ("", "avc1", "XVID"):
            v = Video(camera=0, **({"output_fourcc": given} if given else {}))
            for name in ("a.mp4", "a.avi", "b.MP4", "d.x/c.Avi", "a.mov", "a", "mp4.mkv", "avi", "x.mp4v", "x.mpg"):
                ev = dict(op="codec", given=given, tail=name[-3:].lower(), got="", exc="")
                guard(ev, lambda: ev.update(got=v.get_codec_fourcc(name)))
                evs.append(ev)
    out.append(dict(src=[], fourcc="", tail="mp4", fps=0, ev=evs, stim="codecs"))
    return out
