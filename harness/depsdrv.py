"""norfair in installations without some of its optional dependencies, for DepsTrace.tla: the same calls
in a partial installation and, as far as they work there, in the full one."""
from motdrv import *
import hashlib, re

cv2.setLogLevel(0)

MODULES = {"cv2": [["cv2"]], "mm": [["motmetrics"], ["motmetrics", "pandas"]]}
NEEDS = {"cv2": "drawpoints drawboxes drawpaths drawabspaths grid video camera frames motion homographygetter primitives".split(),
         "mm": "sequence scores loadtruth evaluate".split()}
CORE = ("import tracker update distance palette cutout table translation homography translationgetter fixedcamera paths abspaths "
        "info detfile predfile accumulators").split()
NEED = {a: d for d, l in NEEDS.items() for a in l}


def dig(v):
    """What a call came to, as a string."""
    if isinstance(v, np.ndarray):
        return "%s%s:%s" % (v.dtype, v.shape, hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, (list, tuple)):
        return "[%s]" % ",".join(dig(x) for x in v)
    if isinstance(v, float):
        return v.hex()
    return re.sub(r" at 0x\w+", "", str(v))


class Calls:
    """The calls on one installation; every call is a function of r (fresh for each call) and of what earlier
    calls left behind."""

    def __init__(self, nf, d, seed):
        import importlib
        self.m = {k: importlib.import_module("norfair" + k) for k in nf}
        self.nf = importlib.import_module("norfair")
        self.d, self.r0 = d, random.Random(seed)
        self.cm = importlib.import_module("norfair.camera_motion")
        self.me = importlib.import_module("norfair.metrics")
        self.vi = importlib.import_module("norfair.video")
        self.dr = importlib.import_module("norfair.drawing")
        self.seq = os.path.join(d, "MOT-1")
        self.frame = np.random.RandomState(seed % 1000).randint(0, 255, (48, 64, 3)).astype(np.uint8)
        self.t, self.objs, self.acc, self.ps = None, [], None, None
        self.tracker(self.r0)

    def tracker(self, r):
        nf = self.nf
        f = r.choice([nf.OptimizedKalmanFilterFactory, nf.FilterPyKalmanFilterFactory, nf.NoFilterFactory])()
        kw = dict(reid_distance_function=lambda a, b: float(np.abs(a.estimate - b.estimate).sum()), reid_distance_threshold=60,
                  reid_hit_counter_max=3) if r.random() < 0.3 else {}
        self.t = nf.Tracker(r.choice(["euclidean", "cityblock", "frobenius", nf.mean_euclidean]), r.choice([30, 80]), initialization_delay=r.choice([0, 0, 1]),
                            hit_counter_max=r.choice([2, 5]), filter_factory=f, **kw)
        self.objs = []
        return ["tracker"]

    def update(self, r):
        dets = []
        for k in range(r.randrange(1, 4)):
            x, y = r.randrange(0, 40), r.randrange(0, 28)
            dets.append(self.nf.Detection(np.array([[x, y], [x + r.randrange(3, 20), y + r.randrange(3, 16)]], float),
                                          scores=np.array([0.5, 0.75]), label=r.choice(["a", "a", "b"])))
        self.objs = self.t.update(dets)
        return [[int(o.id), np.asarray(o.estimate, float), int(o.age)] for o in self.objs]

    def distance(self, r):
        nf = self.nf
        a, b = [nf.Detection(np.array([[r.randrange(20), r.randrange(20)], [r.randrange(30, 60), r.randrange(30, 60)]], float),
                             scores=np.array([1.0, 0.5])) for _ in "ab"]
        k = r.randrange(4)
        if k == 0:
            f = nf.get_distance_by_name(r.choice(["iou", "sqeuclidean", "chebyshev", "canberra", "braycurtis"]))
            return f.get_distances([types.SimpleNamespace(estimate=a.points, label=None)], [b])
        if k == 1:
            return float(nf.create_normalized_mean_euclidean_distance(48, 64)(a, types.SimpleNamespace(estimate=b.points)))
        if k == 2:
            o = types.SimpleNamespace(estimate=b.points, last_detection=b)
            return float(nf.create_keypoints_voting_distance(30.0, 0.2)(a, o))
        return float(nf.mean_manhattan(a, types.SimpleNamespace(estimate=b.points)))

    def palette(self, r):
        self.nf.Palette.set(r.choice(["tab10", "tab20", "colorblind", ["red", "#102030"]]))
        return [self.nf.Palette.choose_color(h) for h in (3, None, "x%d" % 0)][:2]

    def cutout(self, r):
        return self.nf.get_cutout(np.array([[r.randrange(30), r.randrange(20)], [r.randrange(64), r.randrange(48)]]), self.frame)

    def table(self, r):
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            self.nf.print_objects_as_table(self.objs)
        return s.getvalue()

    def translation(self, r):
        t = self.cm.TranslationTransformation(np.array([r.randrange(9), r.randrange(9)]))
        p = np.array([[1.0, 2], [5, r.randrange(9)]])
        return [t.abs_to_rel(p), t.rel_to_abs(p)]

    def homography(self, r):
        h = np.eye(3)
        h[0, 2], h[1, 0] = r.randrange(9), 0.125
        t = self.cm.HomographyTransformation(h)
        p = np.array([[1.0, 2], [5, r.randrange(9)]])
        return [t.abs_to_rel(p), t.rel_to_abs(p)]

    def flow(self, r, n=9):
        a = np.array([[r.randrange(100), r.randrange(100)] for _ in range(n)], float)
        return a + [r.randrange(5), r.randrange(5)], a

    def translationgetter(self, r):
        ok, t = self.cm.TranslationTransformationGetter()(*self.flow(r))
        return [bool(ok), t.movement_vector]

    def fixedcamera(self, r):
        t = self.cm.TranslationTransformation(np.array([r.randrange(9), r.randrange(9)]))
        fc = __import__("norfair.drawing.fixed_camera", fromlist=["FixedCamera"]).FixedCamera(scale=2)
        return fc.adjust_frame(self.frame.copy(), t)

    def info(self, r):
        i = self.me.InformationFile(os.path.join(self.seq, "seqinfo.ini"))
        return [i.search("seqLength"), i.search("imExt")]

    def detfile(self, r):
        return [[np.asarray(x.points, float) for x in ds] for ds in self.me.DetectionFileParser(self.seq)]

    def predfile(self, r):
        if self.ps is None:
            self.ps = self.me.PredictionsTextFile(self.seq, save_path=os.path.join(self.d, "out"))
            self.left = 3
        if self.left:
            self.ps.update(self.objs)
            self.left -= 1
        return self.left if self.left else open(os.path.join(self.d, "out", "predictions", "MOT-1.txt")).read()

    def accumulators(self, r):
        self.acc = self.me.Accumulators()
        return [len(self.acc.paths)]

    def sequence(self, r):
        self.acc = self.acc or self.me.Accumulators()
        self.acc.create_accumulator(os.path.join(self.d, r.choice(["MOT-1", "MOT-2"])))
        for _ in range(3):
            self.acc.update(self.objs)
        return [len(self.acc.matrixes_predictions)]

    def one(self):
        return [types.SimpleNamespace(id=4, estimate=np.array([[1, 1], [9, 9.0]])), types.SimpleNamespace(id=7, estimate=np.array([[30, 1], [39, 9.0]]))]

    def scores(self, r):
        a = self.me.Accumulators()
        a.create_accumulator(self.seq)
        for _ in range(3):
            a.update(self.one())
        df = a.compute_metrics(metrics=["num_misses", "mota"])
        return [float(v) for v in df.to_numpy().flatten()]

    def rows(self):
        return np.array([[f, 4, 1, 1, 8, 8, -1, -1, -1, -1] for f in (1, 2, 3)], float)

    def loadtruth(self, r):
        return self.me.load_motchallenge(self.rows()).to_numpy()

    def evaluate(self, r):
        text, df = self.me.eval_motChallenge([self.rows()], [self.seq], metrics=["num_misses", "mota"])
        return [float(v) for v in df.to_numpy().flatten()]

    def boxes(self, r):
        return [self.nf.Detection(np.array([[3, 3], [r.randrange(10, 60), r.randrange(10, 40)]]), label="q")]

    def drawpoints(self, r):
        return self.nf.draw_points(self.frame.copy(), self.objs or self.boxes(r), color=r.choice(["red", "by_id", "by_label"]) if self.objs else "red")

    def drawboxes(self, r):
        return self.nf.draw_boxes(self.frame.copy(), self.boxes(r), color="blue", draw_labels=r.random() < 0.5)

    def paths_(self):
        return self.nf.Paths(color=(1, 200, 3), radius=2)

    def apaths_(self):
        return self.nf.AbsolutePaths(color=(1, 200, 3), radius=2, max_history=5)

    def drawn(self):
        e = np.array([[5.0, 5.0], [20, 30.0]])
        return [types.SimpleNamespace(estimate=e, id=1, abs_to_rel=None, live_points=np.array([True, True]),
                                      get_estimate=lambda absolute=False: e, label=None)]

    def drawpaths(self, r):
        return self.paths_().draw(self.frame.copy(), self.drawn())

    def drawabspaths(self, r):
        t = self.cm.TranslationTransformation(np.array([1.0, 2.0]))
        p = self.apaths_()
        tr = self.nf.Tracker("euclidean", 50, initialization_delay=0)
        for _ in range(3):
            objs = tr.update([self.nf.Detection(np.array([[9.0, 9.0]]))], coord_transformations=t)
            f = p.draw(self.frame.copy(), objs, coord_transform=t)
        return f

    def grid(self, r):
        return self.dr.draw_absolute_grid(self.frame.copy(), self.cm.TranslationTransformation(np.array([1.0, 2.0])))

    def primitives(self, r):
        D = __import__("norfair.drawing.drawer", fromlist=["Drawer"]).Drawer
        return getattr(self, "_p%d" % r.randrange(4))(D)

    def _p0(self, D):
        return D.circle(self.frame.copy(), (9, 9), radius=3, thickness=1, color=(1, 2, 3))

    def _p1(self, D):
        return D.line(self.frame.copy(), (9, 9), (20, 30), color=(1, 2, 3), thickness=1)

    def _p2(self, D):
        return D.rectangle(self.frame.copy(), [np.array([3, 3]), np.array([20, 20])], color=(1, 2, 3), thickness=1)

    def _p3(self, D):
        return D.alpha_blend(self.frame.copy(), self.frame.copy(), alpha=0.5)

    def video(self, r):
        v = self.nf.Video(input_path=os.path.join(self.d, "in.avi"), output_path=self.d)
        return [v.input_height, v.input_width]

    def camera(self, r):
        self.nf.Video(camera=63)

    def frames(self, r):
        v = self.vi.VideoFromFrames(self.seq, save_path=self.d, make_video=False)
        return [f.shape for f in v]

    def motion(self, r):
        e = self.cm.MotionEstimator(transformations_getter=self.cm.TranslationTransformationGetter())
        t = [e.update(f) for f in (self.frame, np.roll(self.frame, 2, axis=1))][-1]
        return [np.round(t.movement_vector)] if t is not None else []

    def homographygetter(self, r):
        ok, t = self.cm.HomographyTransformationGetter()(*self.flow(r, 12))
        return [np.round(t.homography_matrix, 6) + 0.0]

    def call(self, op, seed):
        r = random.Random(seed)
        if op == "import":
            import importlib
            return [importlib.import_module("norfair." + r.choice(["metrics", "video", "camera_motion", "drawing", "tracker", "utils"])).__name__]
        if op == "paths":
            return [type(self.paths_()).__name__]
        if op == "abspaths":
            return [type(self.apaths_()).__name__]
        return getattr(self, op)(r)


def world(lack, steps, seed, d, order):
    """The steps in an installation that lacks the modules (in a process of its own)."""
    for k in list(sys.modules):
        if k.split(".")[0] in ["norfair"] + lack:
            del sys.modules[k]
    for k in lack:
        sys.modules[k] = None
    os.chdir(d)
    evs, c = [], None
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            c = Calls(order, d, seed)
        except Exception as e:
            return [dict(op="import", out=type(e).__name__, extras=[], got="")]
        for op, s in steps:
            ev = dict(op=op, out="works", extras=[], got="")
            try:
                with watchdog(20):
                    ev["got"] = dig(c.call(op, s))
            except Hang:
                ev["out"] = "Hang"
            except Exception as e:
                ev["out"] = type(e).__name__
                named = re.findall(r"norfair\\?\[([a-z,]*)\\?\]", str(e))
                ev["extras"] = sorted({x for n in named for x in n.split(",")})
                if op == "camera" and "camera" in str(e).lower() and ev["out"] == "RuntimeError":
                    ev["out"] = "works"     # it asked for the camera, which is not there
            evs.append(ev)
    return evs


def prepare(d):
    for s in ("MOT-1", "MOT-2"):
        q = os.path.join(d, s)
        seqinfo(q, 3)
        for k in ("gt", "det", "img1"):
            os.makedirs(os.path.join(q, k))
        with open(os.path.join(q, "gt/gt.txt"), "w") as f:
            for k in (1, 2, 3):
                f.write("%d,4,1,1,8,8,1,-1,-1,-1\n" % k)
        with open(os.path.join(q, "det/det.txt"), "w") as f:
            for k in (1, 2, 3):
                f.write("%d,-1,2,3,8,8,0.5,-1,-1,-1\n" % k)
        for k in (1, 2, 3):
            cv2.imwrite(os.path.join(q, "img1", "%06d.png" % k), np.zeros((48, 64, 3), np.uint8))
    w = cv2.VideoWriter(os.path.join(d, "in.avi"), cv2.VideoWriter_fourcc(*"MJPG"), 10, (64, 48))
    for k in range(3):
        w.write(np.full((48, 64, 3), 40 * k, np.uint8))
    w.release()


def run(seed, root):
    r = random.Random(seed)
    lack = {"cv2": ["cv2"], "mm": ["mm"], "both": ["cv2", "mm"], "none": []}[r.choice(["cv2", "cv2", "mm", "mm", "both", "both", "none"])]
    mods = [m for d in lack for m in r.choice(MODULES[d])]
    order = r.sample([".metrics", ".video", ".camera_motion", ".drawing", ".tracker"], r.randrange(0, 4))
    every = CORE + NEEDS["cv2"] + NEEDS["mm"]
    ops = [r.choice(["update", "update", r.choice(CORE), r.choice(every)]) for _ in range(14)]
    steps = [["import", seed]] + [[o, r.randrange(1 << 30)] for o in ops]
    with scratch(root) as d:
        for k in ("a", "b"):
            os.makedirs(os.path.join(d, k))
        prepare(os.path.join(d, "a"))
        prepare(os.path.join(d, "b"))
        evs = forked(world, mods, steps, seed, os.path.join(d, "a"), order)
        ref = forked(world, [], [s for s in steps if NEED.get(s[0]) not in lack], seed, os.path.join(d, "b"), order)
    it = iter(ref)
    for e in evs:
        e["ref"] = next(it)["got"] if NEED.get(e["op"]) not in lack else ""
    return dict(inst=[k for k in ("cv2", "mm") if k not in lack], ev=evs, stim=dict(mods=mods, steps=steps, order=order))
