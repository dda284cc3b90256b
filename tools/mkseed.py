"""tools/mkseed.py FILE: (re)creates seeded/<id>/ from a Python description and verifies it.

FILE defines SEEDS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo="...")].
For each: the edit applies, the stable tests pass with it, demo exits 0 without and nonzero with it;
then the property's check is run against the changed copy (VERIF_REPO)."""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys
V = os.environ.get("SEED_VERIF", "/verif")
W = "/tmp/seedwork%d" % os.getpid()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    os.makedirs(W, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SEED_JOBS", "3"))) as ex:
        list(ex.map(plant, [s for s in seeds if not only or s["id"] in only]))
    shutil.rmtree(W, ignore_errors=True)


def plant(s):
    if True:
        d = f"{V}/seeded/{s['id']}"
        repo = f"{W}/{s['id']}/repo"
        shutil.rmtree(repo, ignore_errors=True)
        os.makedirs(os.path.dirname(repo), exist_ok=True)
        sh(f"cp -a /repo {repo}")
        ok = True
        for f, old, new in s["edits"]:
            p = f"{repo}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT does not apply uniquely:", f, t.count(old))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            return shutil.rmtree(repo)
        os.makedirs(d, exist_ok=True)
        diff = sh(f"git -C {repo} diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        c = sh(f"bash {d}/demo.sh", cwd="/repo")
        b = sh(f"bash {d}/demo.sh", cwd=repo, env=env)
        t = sh(f"cd {repo} && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 tests 2>&1 | tail -3", env=env)
        res = "?"
        if c.returncode != 0:
            res = "BAD demo fails on clean: " + c.stdout[-400:]
        elif b.returncode == 0:
            res = "BAD demo passes with patch"
        elif "25 passed" not in t.stdout:
            res = "BAD tests: " + t.stdout[-300:]
        else:
            env2 = dict(os.environ, VERIF_REPO=repo)
            k = sh(f"./check.py {s['property']}", cwd=V, env=env2)
            res = {0: "MISSED", 1: "CAUGHT"}.get(k.returncode, "ERROR") + " " + " | ".join(k.stdout.strip().splitlines()[-3:])[-400:]
        print(s["id"], s["property"], res, flush=True)
        if res.startswith("BAD"):
            shutil.rmtree(d)
        shutil.rmtree(repo, ignore_errors=True)


main()
