"""Plant a bug: python3 tools/plant.py SPEC.py
SPEC defines ID, PROP, FILE, EDITS=[(old,new)], DEMO (python source), NEEDS, BREAKS.
Confirms in a scratch copy of /repo: builds, stable tests pass, demo fails with
the change and passes without; then writes seeded/<ID>/."""
import json, os, re, shutil, subprocess, sys, tempfile
from pathlib import Path
ns = {}
exec(Path(sys.argv[1]).read_text(), ns)
ID, PROP, EDITS, DEMO = ns["ID"], ns["PROP"], ns["EDITS"], ns["DEMO"]
out = Path("/verif/seeded") / ID
wt = Path(tempfile.mkdtemp(prefix="plant", dir="/tmp"))
try:
    shutil.copytree("/repo", wt / "r", symlinks=True)
    r = wt / "r"
    for file, old, new in EDITS:
        p = r / "src/georinex" / file
        s = p.read_text()
        assert s.count(old) == 1, (file, s.count(old), old)
        p.write_text(s.replace(old, new))
        orig = subprocess.run(["git", "show", f"05b6478:src/georinex/{file}"], cwd="/repo", capture_output=True, text=True).stdout
    diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    # at least one removed line is an original one
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    okorig = [l for l in removed if l in orig.splitlines()]
    print("removed lines from the original:", len(okorig), "of", len(removed))
    env = dict(os.environ, PYTHONPATH=str(r / "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    (out / "demo.py").write_text(DEMO)
    (out / "demo.sh").write_text('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$D/demo.py"\n')
    (out / "meta.json").write_text(json.dumps({"property": PROP, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
    a = subprocess.run(["bash", str(out / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", str(out / "demo.sh")], cwd=r, capture_output=True, text=True)
    print("demo clean", a.returncode, a.stderr[-800:], "| patched", b.returncode, b.stderr.strip()[-300:])
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--disable-warnings", "src/georinex/tests"],
                       cwd=r, env=env, capture_output=True, text=True)
    print(t.stdout[-600:])
    if a.returncode or not b.returncode or not okorig or " failed" in t.stdout:
        print("NOT KEPT", ID)
        shutil.rmtree(out)
    else:
        print("KEPT", ID)
finally:
    shutil.rmtree(wt)
