#!/opt/venv/bin/python
"""linecov.py ID... : lines of norfair that the checks' drivers never execute (a help to find gaps)."""
import dis, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
os.chdir(HERE)
mon = sys.monitoring
mon.use_tool_id(mon.COVERAGE_ID, "linecov")
hit, out = set(), os.environ.get("LINECOV_OUT")


def line(code, n):
    if code.co_filename.startswith(REPO + "/norfair/"):
        hit.add((code.co_filename, n))
    return mon.DISABLE


def main(pid):
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    sys.argv = ["check.py", pid]
    sys.path.insert(0, HERE)
    import check
    check.main()
    mon.set_events(mon.COVERAGE_ID, 0)
    with open(out, "w") as f:
        for p, n in sorted(hit):
            f.write("%s %d\n" % (p, n))


def lines(code):
    for _, _, n in code.co_lines():
        if n:
            yield n
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from lines(c)


if out:
    main(sys.argv[1])
else:
    import glob, subprocess, tempfile
    seen = set()
    with tempfile.TemporaryDirectory() as d:
        for pid in sys.argv[1:]:
            o = os.path.join(d, pid)
            subprocess.run([sys.executable, __file__, pid], env=dict(os.environ, LINECOV_OUT=o), stdout=subprocess.DEVNULL)
            if os.path.exists(o):
                seen |= {tuple(l.rsplit(" ", 1)) for l in open(o).read().splitlines()}
    for p in sorted(glob.glob(REPO + "/norfair/**/*.py", recursive=True)):
        src = open(p).read()
        miss = sorted(n for n in set(lines(compile(src, p, "exec"))) if (p, str(n)) not in seen)
        if miss:
            print(p)
            for n in miss:
                print("  %4d %s" % (n, src.splitlines()[n - 1]))
