"""Planted bugs: python tools/plant.py make SPECS.py [ids] | eval [ids]

make writes /verif/seeded/<id> from a list of specifications, eval applies each patch to a copy of the repository and
reports whether the tests pass, whether the demonstration tells the copies apart and whether the check of the property
raises the alarm. Nothing here is used by the checks.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, capture_output=True, text=True, errors="replace")
    return p.returncode, p.stdout + p.stderr


def copy_repo(dest):
    shutil.copytree(REPO, dest, ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)


def make(spec):
    with tempfile.TemporaryDirectory(dir="/tmp") as t:
        r = os.path.join(t, "repo")
        sh(["git", "clone", "-q", REPO, r])
        for path, old, new in spec["edits"]:
            p = os.path.join(r, "src/svdsuite", path)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return f"{spec['id']}: text occurs {s.count(old)} times in {path}: {old[:60]!r}"
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    d = os.path.join(SEEDED, spec["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(
        '"""' + spec["breaks"] + '"""\nfrom svd import *  # noqa\n\n' + textwrap.dedent(spec["demo"]).strip() + "\n")
    shutil.copy(os.path.join(VERIF, "tools/svd.py"), d)
    return None


def evaluate(i, check=True, others=()):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = {"id": i, "property": meta["property"]}
    with tempfile.TemporaryDirectory(dir="/tmp") as t:
        clean, bad = os.path.join(t, "clean"), os.path.join(t, "bad")
        copy_repo(clean)
        copy_repo(bad)
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=bad)
        out["applies"] = rc == 0
        if rc:
            out["log"] = o
            return out
        demo = os.path.join(t, "demo")
        shutil.copytree(d, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, f))
        out["demo_clean"], o1 = sh(["sh", os.path.join(demo, "demo.sh")], cwd=clean)
        out["demo_bad"], o2 = sh(["sh", os.path.join(demo, "demo.sh")], cwd=bad)
        out["demo_log"] = (o1 + o2)[-300:]
        rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], cwd=bad,
                   env={"PYTHONPATH": os.path.join(bad, "src"), "PYTHONHASHSEED": "0"})
        out["tests"] = o.strip().splitlines()[-1]
        out["tests_ok"] = rc == 0
        if check and rc == 0 and out["demo_bad"] and not out["demo_clean"]:
            for c in (meta["property"],) + tuple(others):
                rc, o = sh([os.path.join(VERIF, "check"), c, "quick"], env={"SVD_REPO": bad, "VERIF_EVIDENCE": t})
                out[f"check_{c}"] = rc
                out[f"log_{c}"] = o[-700:]
    return out


def main(argv):
    if argv[0] == "make":
        ns = {}
        exec(open(argv[1], encoding="utf-8").read(), ns)
        for s in ns["SPECS"]:
            if len(argv) < 3 or s["id"] in argv[2:]:
                e = make(s)
                if e:
                    print(e)
    elif argv[0] in ("eval", "pre"):
        ids = argv[1:] or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(8 if argv[0] == "pre" else 1) as ex:
            for out in ex.map(lambda i: evaluate(i, argv[0] == "eval"), ids):
                c = out.get(f"check_{out['property']}", "-")
                good = out.get("tests_ok") and out.get("demo_bad") and not out.get("demo_clean")
                print(f"{out['id']:12} {out['property']} {'counts' if good else 'INVALID'} "
                      f"check={c} {'CAUGHT' if c == 1 else ''}", flush=True)
                if good and c in (0, 1):
                    f = os.path.join(VERIF, "tools/planted.json")
                    d = json.load(open(f)) if os.path.exists(f) else {}
                    w = "caught" if c == 1 else "missed"
                    d[out["id"]] = {"first": d.get(out["id"], {}).get("first", w), "now": w}
                    json.dump(d, open(f, "w"), indent=0, sort_keys=True)
                if not good or c not in (1, "-"):
                    print("   ", {k: v for k, v in out.items() if k not in ("id", "property")}, flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
