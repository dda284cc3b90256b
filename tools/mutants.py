"""tools/mutants.py VERIF_COPY OUT.jsonl [--files a.py,b.py] [--sample N] [--jobs J]

Systematic mutation of /repo/norfair: every mutant that still imports and passes the 25 tests is
judged by the checks of the properties its file belongs to, in turn, until one reports a violation.
Survivors (all checks quiet) are printed; they are either equivalent or a hole in the framework.
Everything happens in scratch copies under /tmp/mutwork<pid>."""
import argparse, ast, concurrent.futures, json, os, random, shutil, subprocess
PY = "/opt/venv/bin/python"
TRACK = "C04 C02 C03 C06 C09 C07 C08 C10 C05 C01 C11 C22 C23 C24".split()
MAP = {"tracker.py": TRACK, "distances.py": "C12 C13 C22".split(), "filter.py": "C14 C08 C24".split(),
       "camera_motion.py": "C15 C16 C10".split(), "metrics.py": "C20 C21 C26 C27".split(), "video.py": "C19 C20 C27".split(),
       "utils.py": "C23 C22 C18 C19 C27".split(), "drawing/absolute_grid.py": ["C25"], "drawing/fixed_camera.py": ["C17"],
       "drawing/path.py": "C18 C25".split(), "drawing/color.py": ["C18"], "drawing/draw_boxes.py": ["C18"],
       "drawing/draw_points.py": ["C18"], "drawing/drawer.py": "C18 C25 C17".split(), "drawing/utils.py": ["C18"]}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*"}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "any": "all", "all": "any", "round": "int",
         "zeros": "ones", "ones": "zeros", "append": "count", "vstack": "hstack", "floor": "ceil", "ceil": "floor",
         "logical_and": "logical_or", "logical_or": "logical_and", "mean": "sum", "sum": "mean", "abs": "float"}


# Rare mutants: the change happens only under a condition that is met by few inputs (by class, or by argument).
G = "getattr(self, %r, %s)"
RARE = {"Tracker": ["len(" + G % ("tracked_objects", "()") + ") > 4", G % ("reid_hit_counter_max", 7) + " == 0", G % ("initialization_delay", 9) + " == 0",
                    G % ("past_detections_length", 9) + " == 1", G % ("hit_counter_max", 0) + " > 6"],
        "TrackedObject": [G % ("age", 0) + " > 12", G % ("num_points", 0) + " == 3", G % ("dim_points", 0) + " == 3", G % ("id", 0) + " == 4",
                          G % ("abs_to_rel", None) + " is not None", G % ("hit_counter", 0) + " == 1", G % ("label", None) + " == 2",
                          G % ("past_detections_length", 9) + " == 1", G % ("reid_hit_counter", None) + " == 1"],
        "Detection": [G % ("label", None) + " == 2"],
        "period": ["period == 3", "period > 1"], "coord_transformations": ["coord_transformations is not None"], "candidates": ["len(candidates) == 3"],
        "objects": ["len(objects) == 3"], "num_points": ["num_points == 3"], "dim_points": ["dim_points == 3"], "curr_pts": ["len(curr_pts) > 12"],
        "detection": ["detection.points.shape[0] == 3", "detection.points.shape[-1] == 3"], "points": ["len(points) == 3"],
        "PredictionsTextFile": ["self.frame_number == 4"], "DetectionFileParser": [G % ("frame_number", 0) + " == 4"],
        "Accumulators": [G % ("frame_number", 0) + " == 4", "len(" + G % ("paths", "()") + ") > 1"], "VideoFromFrames": [G % ("frame_number", 0) + " == 3"],
        "Video": [G % ("frame_counter", 0) + " == 4", G % ("output_fps", 0) + " == 10", "not " + G % ("output_path", "''") + ""],
        "MotionEstimator": [G % ("prev_mask", None) + " is not None", G % ("draw_flow", False)], "FixedCamera": [G % ("_scale", 2) + " != 2"],
        "OptimizedKalmanFilter": [G % ("dim_x", 0) + " == 12"], "AbsolutePaths": [G % ("max_history", 20) + " < 3"],
        "frame": ["frame.shape[0] < frame.shape[1]", "frame.shape[0] % 2 == 1"], "thickness": ["thickness == 2"], "radius": ["radius == 2"]}


def mutants(path, rel, rare=None):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def txt(n):
        a, b = span(n)
        return raw[a:b].decode()

    def rep(n, new, what):
        a, b = span(n)
        if rare is not None:
            where = parents.get(id(n))
            if where is None or not isinstance(n, ast.expr) or not isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
                return
            conds = [c for k in where for c in RARE.get(k, [])]
            if not conds:
                return
            new = "((%s) if (%s) else (%s))" % (new, rare.choice(conds), txt(n))
            what = "rare " + what
        out.append((rel, n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    parents = {}    # of every node in a function: the class and the arguments of the function

    def visit(n, cls, args):
        for c in ast.iter_child_nodes(n):
            if args is not None:
                parents[id(c)] = ([cls] if cls and "self" in args else []) + args
            if isinstance(c, ast.ClassDef):
                visit(c, c.name, None)
            elif isinstance(c, ast.FunctionDef):
                for b in c.body:
                    parents[id(b)] = ([cls] if cls else []) + [x.arg for x in c.args.args]
                    visit(b, cls, [x.arg for x in c.args.args])
            else:
                visit(c, cls, args)
    visit(tree, None, None)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value)); skip.add(id(n.body[0]))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("warn_once", "warn", "print")):
            for m in ast.walk(n):
                skip.add(id(m))
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                for m in ast.walk(getattr(n, f)):
                    skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"{txt(n.left)} {CMP[type(n.ops[0])]} {txt(n.comparators[0])}", "cmp")
            if type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
                rep(n, f"{txt(n.left)} {'>' if isinstance(n.ops[0], (ast.Lt, ast.LtE)) else '<'} {txt(n.comparators[0])}", "cmp-flip")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, f"({txt(n.left)} {BIN[type(n.op)]} {txt(n.right)})", "bin")
            rep(n, f"({txt(n.left)})", "bin-left")
        if isinstance(n, ast.AugAssign):
            rep(n, f"{txt(n.target)} = {txt(n.value)}", "aug-set")
            rep(n, "pass", "aug-del")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, f"({txt(n.operand)})", "unary")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, op.join("(" + txt(v) + ")" for v in n.values), "bool")
            for v in n.values:
                rep(n, f"({txt(v)})", "bool-one")
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const+1")
                if n.value > 0:
                    rep(n, str(n.value - 1), "const-1")
            elif isinstance(n.value, float):
                rep(n, repr(n.value * 1.5 + (0.5 if n.value == 0 else 0)), "const*1.5")
        if isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "if-true")
            rep(n.test, "False", "if-false")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, "pass", "call-del")
        if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            rep(n.value, "None", "assign-none")
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if nm in NAMES:
                t = txt(f)
                rep(f, t[:len(t) - len(nm)] + NAMES[nm], "name")
            if nm in ("copy", "astype", "flatten", "lower", "expanduser") and isinstance(f, ast.Attribute):
                rep(n, txt(f.value), "method-del")
            if nm in ("int", "tuple", "list", "abs", "round") and len(n.args) == 1:
                rep(n, "(" + txt(n.args[0]) + ")", "fun-del")
            for k in n.keywords:
                if k.arg:
                    new = ast.Call(func=n.func, args=n.args, keywords=[x for x in n.keywords if x is not k])
                    rep(n, ast.unparse(new), "kw-del:" + k.arg)
            for i in range(len(n.args) - 1):
                if not any(isinstance(a, ast.Starred) for a in n.args):
                    a = list(n.args)
                    a[i], a[i + 1] = a[i + 1], a[i]
                    rep(n, ast.unparse(ast.Call(func=n.func, args=a, keywords=n.keywords)), "arg-swap")
        if isinstance(n, ast.Tuple) and isinstance(getattr(n, "ctx", None), ast.Load) and len(n.elts) == 2:
            rep(n, f"({txt(n.elts[1])}, {txt(n.elts[0])})", "tuple-swap")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            rep(n.value, "None", "ret-none")
        if isinstance(n, (ast.Break, ast.Continue)):
            rep(n, "pass", "jump-del")
    seen, res = set(), []
    for m in out:
        if m[3] in seen or m[3] == src:
            continue
        seen.add(m[3])
        try:
            compile(m[3], rel, "exec")
        except (SyntaxError, ValueError):
            continue
        res.append(m)
    return res


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("verif"); ap.add_argument("out"); ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=int, default=0); ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--rare", action="store_true")
    a = ap.parse_args()
    todo = []
    for rel in MAP:
        if not a.files or rel in a.files.split(","):
            todo += mutants(f"/repo/norfair/{rel}", rel, random.Random(a.seed) if a.rare else None)
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    W = f"/tmp/mutwork{os.getpid()}"
    os.makedirs(W)
    out = open(a.out, "a")
    import difflib, queue
    pool = queue.Queue()
    for i in range(a.jobs):
        run(f"cp -a /repo {W}/{i}; cp -a {a.verif} {W}/v{i}", 60)
        pool.put(i)

    def one(m):
        rel, line, what, text = m
        i = pool.get()
        try:
            p = f"{W}/{i}/norfair/{rel}"
            orig = open(f"/repo/norfair/{rel}").read()
            open(p, "w").write(text)
            env = dict(os.environ, PYTHONPATH=f"{W}/{i}", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
            rc, t = run(f"cd {W}/{i} && {PY} -m pytest -q -x -p no:cacheprovider --timeout=60 tests", 200, env=env)
            if rc != 0:
                r = "tests"
            else:
                r, alle = "SURVIVED", []
                for c in MAP[rel]:
                    rc, t = run(f"{PY} tools/firstfail.py {c}", 900, cwd=f"{W}/v{i}", env=dict(os.environ, VERIF_REPO=f"{W}/{i}"))
                    if rc == 1 and "VIOLATION property=" in t:
                        r = c
                        break
                    if rc != 0:
                        alle.append(f"{c}:{rc}:{t[-200:]}")
                if r == "SURVIVED" and alle:
                    r = "ERROR " + "; ".join(alle)
            open(p, "w").write(orig)
            d = "".join(l for l in difflib.unified_diff(orig.splitlines(True), text.splitlines(True), n=0) if l[0] in "+-" and l[:3] not in ("+++", "---"))
            out.write(json.dumps(dict(file=rel, line=line, op=what, res=r, diff=d)) + "\n"); out.flush()
        finally:
            pool.put(i)
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
