"""Development aid: make and verify planted bugs.   plant.py make SPEC.py | verify [ID ...] | status
SPEC.py defines PLANTS = [dict(id, property, edits=[(file, old, new)], demo=python text, needs, breaks)]."""
import json, os, pathlib, shutil, subprocess, sys, concurrent.futures as cf
R = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

def sh(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def base():
    c = pathlib.Path("/tmp/plant.base")
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree("/repo", c, symlinks=True)
    return c

def tests(c):
    rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300", "--ignore=tests/unit/commons/test_rest_client.py", "tests"], c, PYTHONPATH=f"{c}:/opt/vp-support", HOME="/root")
    return rc == 0, o[-600:]

def one(i, check=True, tier="quick"):
    d = R / "seeded" / i
    meta = json.loads((d / "meta.json").read_text())
    c = pathlib.Path(f"/tmp/plant.{i}")
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree("/repo", c, symlinks=True, ignore=shutil.ignore_patterns("docs", "notebooks"))
    subprocess.run(["git", "-C", c, "checkout", "-q", "--", "."], check=False)
    r = dict(id=i, property=meta["property"])
    rc0, o0 = sh(["bash", d / "demo.sh"], c, 300)
    r["clean"] = rc0 == 0
    rc, o = sh(["git", "apply", d / "patch.diff"], c)
    r["apply"] = rc == 0
    if rc:
        print(o)
    ok, o = tests(c)
    r["tests"] = ok or o
    rc1, o1 = sh(["bash", d / "demo.sh"], c, 300)
    r["demo"] = rc1 not in (0, 124)
    if not r["clean"]:
        r["clean"] = o0[-400:]
    # changed lines are lines of the original repository
    first = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    if check:
        w = pathlib.Path(f"/tmp/plantv.{i}")
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(R, w, ignore=shutil.ignore_patterns("seeded", ".git", "__pycache__"))
        rc, o = sh(["bash", "check.sh", meta["property"], tier], w, 1800, MC_REPO=str(c), MC_WORKERS=os.environ.get("MC_WORKERS", "4"))
        r["caught"] = rc == 1 and f"VIOLATION property={meta['property']}" in o
        r["rc"] = rc
        r["msg"] = " ".join(o.split())[:300]
        shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(c, ignore_errors=True)
    return r

def make(spec):
    ns = {}
    exec(pathlib.Path(spec).read_text(), ns)
    ids = []
    for p in ns["PLANTS"]:
        d = R / "seeded" / p["id"]
        d.mkdir(parents=True, exist_ok=True)
        c = base()
        subprocess.run(["git", "-C", c, "checkout", "-q", "--", "."])
        for f, old, new in p["edits"]:
            q = c / "diamondback" / f
            s = q.read_text()
            assert s.count(old) == 1, (p["id"], f, s.count(old), old)
            q.write_text(s.replace(old, new))
        diff = subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True).stdout
        assert diff
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(p["demo"].strip() + "\n")
        (d / "demo.sh").write_text('#!/bin/bash\n# run with the working directory at the root of the repository\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / "meta.json").write_text(json.dumps(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), indent=1) + "\n")
        ids.append(p["id"])
        shutil.rmtree(c)
    return ids

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1])
        sys.exit()
    ids = (a[1:] or sorted(p.name for p in (R / "seeded").iterdir()))
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for r in ex.map(one, ids):
            good = r["clean"] is True and r["apply"] and r["tests"] is True and r["demo"]
            print(("OK  " if good else "BAD ") + ("CAUGHT" if r.get("caught") else f"MISSED rc={r.get('rc')}"), r["id"], r["property"], "" if good else r, "" if r.get("caught") and good else r.get("msg"), flush=True)
