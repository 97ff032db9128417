"""Run the quick check of every planted bug's property against it, in a
scratch clone of /repo.  usage: try_seeds.py [id-prefix ...]"""
import json, os, pathlib, subprocess, sys, tempfile, time
V = pathlib.Path(__file__).resolve().parent.parent
for d in sorted((V / "seeded").iterdir()):
    if sys.argv[1:] and not any(d.name.startswith(a) for a in sys.argv[1:]):
        continue
    prop = json.load(open(d / "meta.json"))["property"]
    t = time.time()
    with tempfile.TemporaryDirectory(prefix="seed_") as tmp:
        subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
        subprocess.run(["git", "-C", tmp, "apply", str(d / "patch.diff")], check=True)
        r = subprocess.run(["python3", "-m", "vfw.check", prop], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": tmp})
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    how = "missed" if r.returncode != 1 or not v else "proof only" if v[0].endswith("no-failing-input-found") else "failing input"
    print(f"{d.name}: {how} ({time.time()-t:.0f} s)", flush=True)
    for l in r.stdout.splitlines()[:6]:
        print("    ", l[:200])
