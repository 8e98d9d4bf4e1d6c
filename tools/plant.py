"""Build and confirm a planted bug: `python3 tools/plant.py SPEC.py [--no-tests]`.

SPEC.py defines ID, PROP, EDITS = [(file under src/corrct, old, new)], NEEDS, BREAKS, DEMO (python source of the demonstration).
Everything runs in a scratch copy of /repo; /verif/seeded/<ID> is written only when the bug is confirmed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

spec = {}
exec(Path(sys.argv[1]).read_text(), spec)
HERE = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def env(root):
    e = dict(os.environ, PYTHONPATH=str(root / "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    e.pop("GITHUB_ACTIONS", None)
    return e


base = run(["git", "-C", "/repo", "log", "--format=%H", "--author=verif", "--reverse"]).stdout.split()
mine = set(base)
with tempfile.TemporaryDirectory(prefix="plant_") as tmp:
    wt = Path(tmp) / "repo"
    shutil.copytree("/repo", wt, symlinks=True)
    out = Path(tmp) / "out"
    out.mkdir()
    (out / "demo.py").write_text(spec["DEMO"].lstrip())
    (out / "demo.sh").write_text('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r = run(["bash", str(out / "demo.sh")], cwd=wt, env=env(wt))
    if r.returncode:
        sys.exit(f"{spec['ID']}: demo fails on the clean tree\n{r.stdout[-500:]}{r.stderr[-1500:]}")
    for f, old, new in spec["EDITS"]:
        p = wt / "src/corrct" / f
        s = p.read_text()
        if s.count(old) != 1:
            sys.exit(f"{spec['ID']}: {s.count(old)} occurrences in {f} of:\n{old}")
        p.write_text(s.replace(old, new))
    diff = run(["git", "diff", "--", "src"], cwd=wt).stdout
    # removed lines have to be original ones
    hunk = run(["git", "diff", "-U0", "--", "src"], cwd=wt).stdout
    fn, n = None, 0
    for l in hunk.splitlines():
        if l.startswith("--- "):
            fn = l[6:]
        elif l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n:
                b = run(["git", "blame", "-l", "-L", f"{st},+{n}", "HEAD", "--", fn], cwd=wt).stdout
                own = [x for x in b.splitlines() if x.split()[0].lstrip("^") in mine]
                if own:
                    print(f"{spec['ID']}: WARNING changes lines of my own commits:", *own, sep="\n")
    r = run(["bash", str(out / "demo.sh")], cwd=wt, env=env(wt))
    print(spec["ID"], "demo with the patch:", r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:] or "")
    if r.returncode == 0:
        sys.exit(f"{spec['ID']}: the demo passes with the patch")
    if "--no-tests" not in sys.argv:
        j = Path(tmp) / "junit.xml"
        r = run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "4", "--dist", "worksteal", "--timeout=600", "--randomly-seed=1234", "--randomly-dont-reorganize",
                 "--continue-on-collection-errors", "--ignore=tests/test_alignment.py"], cwd=wt, env=env(wt))
        last = r.stdout.strip().splitlines()[-1]
        print(spec["ID"], "tests:", last)
        if "failed" in last or "error" in last:
            print("\n".join(l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))))
            sys.exit(1)
    dst = HERE / "seeded" / spec["ID"]
    shutil.rmtree(dst, ignore_errors=True)
    dst.mkdir(parents=True)
    (dst / "patch.diff").write_text(diff)
    for f in out.iterdir():
        shutil.copy(f, dst / f.name)
    (dst / "meta.json").write_text(json.dumps(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), indent=1) + "\n")
    print(spec["ID"], "kept")
