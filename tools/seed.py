"""Make and confirm planted bugs: reads tools/seeds/*.py style definitions.

usage: seed.py DEF.py   (DEF defines ID, PROPERTY, FILE, EDITS=[(old,new)..], DEMO, NEEDS, BREAKS)
The change is tried in a scratch copy of /repo: it must apply, pass the
stable tests, make the demonstration fail, and the demonstration must pass
without it.
"""
import json, pathlib, shutil, subprocess, sys, tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=300, **kw)


def make(d):
    ID = d["ID"]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="seed_"))
    try:
        repo = scratch / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(repo)], check=True)
        edits = d["EDITS"]
        for e in edits:
            file, old, new = e if len(e) == 3 else (d["FILE"], *e)
            p = repo / "src/gaspra" / file
            t = p.read_text()
            assert t.count(old) == 1, (ID, file, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = sh("git diff", repo).stdout
        out = VERIF / "seeded" / ID
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(d["DEMO"].lstrip())
        (out / "demo.sh").write_text('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"\n')
        (out / "meta.json").write_text(json.dumps({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, indent=1) + "\n")
        bad = sh(["bash", str(out / "demo.sh")], repo)
        base = json.load(open("/opt/vp/BASELINE.json"))
        t = sh(f"PYTHONPATH={repo}/src {PY} -m pytest -q -x -p no:cacheprovider --ignore=tests/medium tests 2>&1 | tail -3", repo)
        sh("git checkout -q -- .", repo)
        good = sh(["bash", str(out / "demo.sh")], repo)
        ok = bad.returncode != 0 and good.returncode == 0 and "failed" not in t.stdout
        print(ID, "OK" if ok else "REJECTED", "demo with:", bad.returncode, "without:", good.returncode, "tests:", t.stdout.strip().splitlines()[-1:])
        if not ok:
            print(bad.stdout[-300:], bad.stderr[-500:], good.stderr[-500:], t.stdout)
            shutil.rmtree(out)
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        ns = {}
        exec(pathlib.Path(f).read_text(), ns)
        for d in ns["SEEDS"]:
            if "ONLY" in ns and d["ID"] not in ns["ONLY"]:
                continue
            make(d)
