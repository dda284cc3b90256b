"""tools/specmutants.py [ID ...]: are the invariants of the design models independent of the transitions?
Every entry breaks one operator of the specification in a scratch copy; the design models of the given
check (no code involved) have to report a violated invariant or property.  Prints one line per entry."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = """
import os, sys
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo")); sys.path.insert(0, "harness")
sys.dont_write_bytecode = True
import common, registry
class Done(Exception): pass
def conform(self, *a, **k):
    raise Done()
common.Check.conform = conform
chk = common.Check(sys.argv[1])
try:
    registry.CHECKS[chk.pid](chk)
except common.MachineryError as e:
    t = str(e)
    import re
    print("FOUND", t.splitlines()[0].split("failed: ")[-1])
    chk.work.close(); os._exit(0)
except Done:
    pass
print("MISSED"); chk.work.close(); os._exit(0)
"""
M = [
 # id, property, file, old, new
 ("hit-no-cap", "C02", "Tracker.tla", "h == MinI(o.hit + 2 * per, cfg.hmax)", "h == o.hit + 2 * per"),
 ("hit-gains-one", "C02", "Tracker.tla", "!.ini = @ /\\ h <= cfg.delay", "!.ini = @ /\\ h < cfg.delay"),
 ("unconfirm", "C02", "Tracker.tla", "!.ini = @ /\\ h <= cfg.delay", "!.ini = h <= cfg.delay"),
 ("report-dead", "C02", "Tracker.tla", "Reported(o) == ~o.ini /\\ o.hit >= 0", "Reported(o) == ~o.ini"),
 ("step-two", "C02", "Tracker.tla", "!.hit = @ - 1,", "!.hit = @ - 2,"),
 ("id-twice", "C01", "MCTracker.tla", "me.cnt + num(k)>>", "me.cnt + 1>>"),
 ("gid-per-tracker", "C01", "MCTracker.tla", "!.gid = <<gcnt + num(k)>>", "!.gid = <<me.cnt + num(k)>>"),
 ("merge-new-id", "C01", "Tracker.tla", "[o EXCEPT !.reid = NONE, !.hit = 2 * o.per0,", "[o EXCEPT !.reid = NONE, !.id = n.id, !.hit = 2 * o.per0,"),
 ("greedy-any", "C03", "Tracker.tla", "B == {p \\in E : D[p] = m}", "B == E"),
 ("two-places", "C04", "Tracker.tla", "Touching(p, q) == p[1] = q[1] \\/ p[2] = q[2]", "Touching(p, q) == p[2] = q[2]"),
 ("keeps-countdown", "C05", "Tracker.tla", "!.hit = h, !.reid = NONE,", "!.hit = h,"),
 ("keep-late", "C05", "Tracker.tla", "THEN Alive(o)", "THEN o.hit >= -1"),
 ("countdown-early", "C05", "Tracker.tla", "THEN (IF o.hit <= 0 THEN cfg.rmax ELSE NONE)", "THEN (IF o.hit <= 1 THEN cfg.rmax ELSE NONE)"),
 ("merge-unconfirmed", "C06", "Tracker.tla", "~Alive(S[k]) /\\ ~S[k].ini}", "~Alive(S[k])}"),
 ("merge-hit", "C06", "Tracker.tla", "!.hit = 2 * o.per0,\n", "!.hit = n.hit,\n"),
 ("point-uncapped", "C07", "Tracker.tla", "LET c == MaxI(@[i], 0)\n                         IN MinI(IF tr[i] THEN c + 2 * per ELSE c, Cap(cfg, o))]", "LET c == MaxI(@[i], 0)\n                         IN IF tr[i] THEN c + 2 * per ELSE c]"),
 ("point-from-debt", "C07", "Tracker.tla", "LET c == MaxI(@[i], 0)", "LET c == @[i]"),
 ("born-live", "C08", "Tracker.tla", "pc |-> [i \\in 1..n |-> IF tr[i] THEN 1 ELSE 0]", "pc |-> [i \\in 1..n |-> 1]"),
 ("past-overfull", "C09", "Tracker.tla", "ELSE IF Len(past) < cfg.npast THEN", "ELSE IF Len(past) <= cfg.npast THEN"),
 ("past-front", "C09", "Tracker.tla", "Append(Dated(Tail(past), age, u), << u, age >>)", "<< << u, age >> >> \\o Tail(past)"),
 ("own-camera", "C10", "Tracker.tla", "!.mot = IF mot = NONE THEN @ ELSE mot]", "!.mot = IF mot = NONE THEN @ ELSE << 2, mot[2] >>]"),
 ("crowd", "C24", "Tracker.tla", "Step(cfg, S[k], cam)])\n      h", "[Step(cfg, S[k], cam) EXCEPT !.hit = @ - (IF Cardinality(kept) > 2 THEN 1 ELSE 0)]])\n      h"),
 ("gain-offset", "C14", "Filter.tla", "GainP(f, g) == Ratio(g.p, g.p + f.r)", "GainP(f, g) == Ratio(g.p + f.r, g.p)"),
 ("gain-velocity", "C14", "Filter.tla", "[s EXCEPT !.x = @ + s.v]", "[s EXCEPT !.x = @ + 2 * s.v]"),
 ("unmeasured-moves", "C14", "Filter.tla", "IN IF ~measured THEN g", "IN IF FALSE THEN g"),
 ("cov-grows", "C14", "Filter.tla", "w |-> g.w - Mul(kv, g.c)]", "w |-> g.w - 3 * Mul(kv, g.c) - SC]"),
 ("video-skips", "C19", "Video.tla", "THEN [v EXCEPT !.pos = v.pos + 1]", "THEN [v EXCEPT !.pos = v.pos + (IF v.pos = 1 THEN 2 ELSE 1)]"),
 ("video-prepends", "C19", "Video.tla", "!.out = Append(v.out, id)", "!.out = <<id>> \\o v.out"),
 ("video-size-follows", "C19", "Video.tla", "!.size = IF v.out = <<>> THEN size ELSE v.size]", "!.size = size]"),
 ("video-left-open", "C19", "Video.tla", "!.done = TRUE, !.open = FALSE]", "!.done = TRUE]"),
 ("delay-closed", "C22", "Validate.tla", "c.delay[1] < c.hmax", "c.delay[1] <= c.hmax"),
 ("delay-up", "C22", "Validate.tla", "THEN c.hmax \\div 2 ELSE", "THEN (c.hmax + 1) \\div 2 ELSE"),
 ("clamp-late", "C23", "Helpers.tla", "IF v < 0 THEN 0 ELSE IF v > n THEN n ELSE v", "IF v < 0 THEN 0 - v ELSE IF v > n THEN n ELSE v"),
 ("cut-swapped", "C23", "Helpers.tla", "img[y0 + y][x0 + x]", "img[y0 + y][x1 - x + 1]"),
 ("hit-all", "C21", "Mot.tla", "IN 3 * o >= a.w * a.h + b.w * b.h", "IN o >= 0"),
 ("switch-names", "C21", "Mot.tla", "e.last[gs[i].id] # ps[m[i]].id}", "gs[i].id # ps[m[i]].id}"),
 ("false-twice", "C21", "Mot.tla", "Cardinality({m[i] : i \\in hit}), switch", "Cardinality(hit) - 1, switch"),
 ("row-corner", "C20", "Mot.tla", "o[4] - o[2], o[5] - o[3]>>", "o[4], o[5]>>"),
 ("close-early", "C20", "Mot.tla", "closed |-> p.frame + 1 > n]", "closed |-> p.frame + 1 >= n]"),
 ("canvas-off", "C17", "Canvas.tla", "Covers(o, n, p) == o <= p /\\ p < o + n", "Covers(o, n, p) == o < p /\\ p < o + n"),
 ("canvas-cut", "C17", "Canvas.tla", "CutFrom(o) == Max2(0 - o, 0)", "CutFrom(o) == Max2(0 - o - 1, 0)"),
 ("canvas-center", "C17", "Canvas.tla", "4 * ((side \\div 2) - (n \\div 2)) - m", "4 * ((side \\div 2) - (n \\div 2)) + m"),
 ("disc-due", "C18", "Draw.tla", "(dx = 0 /\\ dy <= s.r) \\/ (dy = 0 /\\ dx <= s.r)\n", "(dx = 0 /\\ dy <= s.r + 3) \\/ (dy = 0 /\\ dx <= s.r)\n"),
 ("rect-due", "C18", "Draw.tla", "in == x >= l /\\ x <= r", "in == x >= l - 1 /\\ x <= r"),
 ("trail-brightens", "C18", "Draw.tla", "{p \\div ad} \\cup", "{(p \\div ad) + 1} \\cup"),
 ("memory-long", "C25", "Absolute.tla", "IF Len(n) > H THEN", "IF Len(n) > H + 1 THEN"),
 ("chain-skips", "C25", "Absolute.tla", "IF i = 1 THEN pts[j] ELSE past[i - 1][j], past[i][j])", "pts[j], past[i][j])"),
 ("follow-not", "C25", "Absolute.tla", "LET r == cam.s * v + 16 * cam.t[j]", "LET r == v + 16 * cam.t[j]"),
 ("data-not-kept", "C16", "MCMotion.tla", "THEN ref' = <<TRUE, c>> /\\ data' = res'", "THEN ref' = <<TRUE, c>> /\\ data' = data"),
 ("blank-kept", "C16", "MCMotion.tla", "THEN /\\ ref' = <<usable, c>>\n", "THEN /\\ ref' = r\n"),
 ("iou-union", "C13", "Distances.tla", "Union2(a, b) == Area(a) + Area(b) - Inter(a, b)", "Union2(a, b) == Area(a) + Area(b)"),
 ("diff-signed", "C13", "Distances.tla", "AbsI(a[i][j] - b[i][j])]]", "a[i][j] - b[i][j]]]"),
 ("vote-le", "C13", "Distances.tla", "PtSq(a, b)[i] < q.kt * q.kt", "PtSq(a, b)[i] > q.kt * q.kt"),
 ("pipe-hides-last", "C26", "Pipe.tla", "Shown(S) == {k \\in DOMAIN S : Reported(S[k])}", "Shown(S) == {k \\in DOMAIN S : Reported(S[k]) /\\ S[k].hit > 0}"),
 ("pipe-scores-forget", "C26", "Mot.tla", "[last |-> now @@ e.last,", "[last |-> now,"),
 ("pipe-no-reid", "C26", "Pipe.tla", "Apply(cfg, S, dets, per, NONE, D, M1, M2, M3) : M3 \\in", "Apply(cfg, S, dets, per, NONE, D, M1, M2, {}) : M3 \\in"),
 ("pipe-gap", "C26", "Tracker.tla", "!.hit = @ - 1,", "!.hit = @ - (IF o.age > 3 THEN 2 ELSE 1),"),
 ("pipe-file-late", "C26", "Pipe.tla", "PUpdate(st.file, <<>>, rep, n)", "PUpdate(st.file, <<>>, IF st.pss = <<>> THEN <<>> ELSE rep, n)"),
 ("deps-leftover", "C27", "Deps.tla", "THEN [w EXCEPT !.done = Append(@, a)] ELSE w", "THEN [w EXCEPT !.done = Append(@, a)] ELSE [w EXCEPT !.done = Append(@, \"x\")]"),
 ("deps-cross", "C27", "Deps.tla", "Lacks(w, a) = {}", "Lacks(w, a) = {} /\\ (Needs[a] = {\"mm\"} => w.inst = {\"mm\"})"),
 ]
def main():
    want = sys.argv[1:]
    for mid, pid, f, old, new in M:
        if want and pid not in want and mid not in want:
            continue
        d = tempfile.mkdtemp(prefix="specmut-")
        try:
            for x in ("spec", "harness"):
                shutil.copytree(os.path.join(HERE, x), os.path.join(d, x))
            p = os.path.join(d, "spec", f)
            s = open(p).read()
            if s.count(old) != 1:
                print("%-20s %s BAD ENTRY (%d occurrences)" % (mid, pid, s.count(old)))
                continue
            open(p, "w").write(s.replace(old, new))
            r = subprocess.run(["/opt/venv/bin/python", "-c", RUN, pid], cwd=d, capture_output=True, text=True, timeout=1500,
                               env=dict(os.environ, MPLBACKEND="Agg"))
            out = [l for l in r.stdout.splitlines() if l.startswith(("FOUND", "MISSED"))]
            print("%-20s %s %s" % (mid, pid, out[0] if out else "ERROR " + r.stderr[-300:]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
main()
