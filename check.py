#!/opt/venv/bin/python
"""check.py <ID>: decides one property (see DESIGN.md)."""
import contextlib, os, sys, traceback
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
os.environ.setdefault("MPLCONFIGDIR", "/tmp/mpl-verif")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, os.path.join(HERE, "harness"))
import warnings
warnings.filterwarnings("ignore")
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def blames(tb):
    """Whether an exception nobody caught comes from the code under test (and not from this machinery)."""
    for frame in reversed(traceback.extract_tb(tb)):
        name = os.path.realpath(frame.filename)
        if name.startswith(os.path.join(REPO, "norfair") + os.sep):
            return True
        if name.startswith(HERE + os.sep):
            return False
    return False


def main():
    pid = sys.argv[1]
    import common
    import registry
    chk = common.Check(pid)
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):  # norfair prints warnings
            registry.CHECKS[pid](chk)
        return chk.finish()
    except common.TooManyHangs:
        chk.crashed("%d calls of the code under test did not return" % common.watchdog.hangs)
        return chk.finish()
    except Exception as e:
        traceback.print_exc()
        if blames(e.__traceback__):
            chk.crashed("".join(traceback.format_exception(e)))
            return chk.finish()
        chk.work.close()
        return 2


if __name__ == "__main__":
    sys.exit(main())
