"""tools/firstfail.py <ID>: the conformance part of a check only, stopping at the first violation
(for mutants.py: many changed trees, only the verdict wanted)."""
import os, runpy, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
import common


def design(self, module, cfg=None, **kw):
    self.cover.setdefault("design_models", []).append({})
    return []


def violation(self, trace, l, mine, clauses, module):
    sys.stderr.write("VIOLATION property=%s %s\n" % (self.pid, mine))
    self.work.close()
    os._exit(1)


common.Check.design, common.Check.violation = design, violation
runpy.run_path(os.path.join(HERE, "check.py"), run_name="__main__")
