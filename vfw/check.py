"""One check: prove every obligation of the functions a property depends on,
and search the real code for a failing input."""
from __future__ import annotations

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from vfw import prove, props
from vfw.ptypes import Unsupported
from vfw.spec import FNS

ROOT = prove.ROOT
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


class Unit:
    def __init__(self, name, kind):
        self.name = name
        self.kind = kind  # "function" / "theory"
        self.error = None
        self.goals = []
        self.inlined = []
        self.callees = []


def sidecar_error(e):
    return "".join(traceback.format_exception_only(type(e), e)).strip()


def build_function(name, work):
    from vfw import translate

    u = Unit(name, "function")
    f = FNS[name]
    u.note = f.note
    try:
        text, tr = translate.unit_text(f)
        u.inlined = sorted(set(tr.inlined))
        u.callees = sorted(tr.vals)
        u.missing_hints = sorted(tr.body_missing_hints)
        path = os.path.join(work, name.replace(".", "_").replace("<", "_").replace(">", "_") + ".mlw")
        with open(path, "w") as fh:
            fh.write(text)
        out = os.path.join(work, "o_" + os.path.basename(path)[:-4])
        os.makedirs(out)
        u.path = path
        u.out = out
        u.transform = f.transform
    except Unsupported as e:
        u.error = f"extraction: {e}"
    except Exception as e:  # noqa: BLE001  a source form the extraction does not expect
        u.error = f"extraction: {sidecar_error(e)}"
    return u


def run_generate(u):
    if u.error:
        return u
    try:
        u.goals = prove.generate(u.path, u.out, u.name, transform=getattr(u, "transform", "split_vc"))
        if not u.goals and (u.kind == "theory" or FNS[u.name].ensures or FNS[u.name].raises):
            u.error = "no obligation generated"
    except prove.Why3Error as e:
        u.error = f"why3: {str(e)[-1500:]}"
    except Exception as e:  # noqa: BLE001
        u.error = f"why3: {sidecar_error(e)}"
    return u


def build_theory(name, work):
    u = Unit(f"theory {name}", "theory")
    u.path = os.path.join(ROOT, "theory", name + ".mlw")
    u.out = os.path.join(work, "t_" + name)
    os.makedirs(u.out)
    return u


def probe_text(u):
    """the unit with its body replaced by a proof of false from the preconditions"""
    import re

    t = open(u.path).read()
    i = t.rindex("\nlet ")
    head = t[i:]
    j = head.index("\n=\n")
    sig = head[:j]
    lines = [l for l in sig.split("\n") if not re.match(r"\s*(ensures|raises|variant|diverges)", l)]
    return t[:i] + "\n".join(lines) + "\n=\n  (assert { [@expl:vacuity probe] false }; absurd)\nend\n"


def run_probe(u, work):
    """True if the preconditions (and the theories) are not contradictory as far as z3 can tell"""
    try:
        p = os.path.join(work, "probe_" + os.path.basename(u.path))
        with open(p, "w") as fh:
            fh.write(probe_text(u))
        out = os.path.join(work, "p_" + os.path.basename(u.path)[:-4])
        os.makedirs(out)
        gs = prove.generate(p, out, "probe")
        for g in gs[:1]:
            for solver in ("z3",):
                ans, dt = prove._solve(solver, g.path, 2)
                if ans == "unsat":
                    return False
        return bool(gs)
    except Exception as e:  # noqa: BLE001
        u.probe_error = sidecar_error(e)
        return None


def closure(roots):
    """all functions whose contracts are used, found by extracting them"""
    return roots


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    code = 1
    try:
        code = run(prop, P, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(prop, P, tier, seed, t0, work):
    prove.conf()
    for m in P.specs:
        importlib.import_module("specs." + m)
    # the search on the real code runs beside the proofs
    budget = P.budget if tier == "quick" else P.thorough_budget
    srch = start_search(prop, seed, budget, tier, work, "a")
    # extraction, following contract calls
    units = {}
    todo = list(P.roots)
    trusted = set()
    while todo:
        n = todo.pop(0)
        if n in units or n in trusted:
            continue
        if FNS[n].extern:
            trusted.add(n)
            continue
        units[n] = build_function(n, work)
        todo += units[n].callees
    theories = [build_theory(t, work) for t in P.theories]
    allunits = list(units.values()) + theories
    with ThreadPoolExecutor(prove.JOBS) as ex:
        list(ex.map(run_generate, allunits))
    goals = [g for u in allunits for g in u.goals]
    hard = 300 if tier == "quick" else 1800
    deadline = time.time() + hard
    rounds = prove.ROUNDS if tier == "quick" else prove.ROUNDS + [[("z3", 180), ("cvc5", 180), ("z3-new", 180)]]
    ts = time.time()
    prove.prove_all(goals, rounds, deadline, enough=lambda: already_failed(srch))
    t_prove = time.time() - ts
    failed = [g for g in goals if g.status != "proved"]
    errors = [u for u in allunits if u.error]
    for u in allunits:
        if any(g.status != "proved" for g in u.goals):
            prove.relabel(u.goals, transform=getattr(u, "transform", "split_vc"), mlw=u.path)
    # vacuity probes
    funits = [u for u in units.values() if not u.error]
    with ThreadPoolExecutor(prove.JOBS) as ex:
        probes = list(ex.map(lambda u: run_probe(u, work), funits))
    vacuous = [u.name for u, r in zip(funits, probes) if r is False]
    found = finish_search(srch)
    if (failed or errors) and not found.get("failures"):
        # look harder for a concrete input
        left = 560 - (time.time() - t0) if tier == "quick" else 600
        b = max(20, min(P.fail_budget, left))
        srch = start_search(prop, seed + 7919, b, "hard", work, "b")
        second = finish_search(srch)
        merge_search(found, second)
    violations = report(prop, P, tier, seed, found, failed, errors, vacuous, units, allunits)
    bysolver = {}
    for g in goals:
        if g.status == "proved":
            bysolver[g.solver] = bysolver.get(g.solver, 0) + 1
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": len(goals),
            "discharged": len([g for g in goals if g.status == "proved"]),
            "checker_cmd": f"python3 -m vfw.check {prop}  (Why3 1.6.0 VC generation; z3 / cvc5 / z3-new on every obligation, no cache)",
            "trusted_base": P.trusted + sorted(f"assumed contract: {t} ({FNS[t].note})" for t in trusted),
            "functions_under_contract": {
                u.name: {
                    "obligations": len(u.goals),
                    "discharged": len([g for g in u.goals if g.status == "proved"]),
                    **({"error": u.error} if u.error else {}),
                    **({"inlined_helpers": u.inlined} if u.inlined else {}),
                    **({"note": u.note} if getattr(u, "note", "") else {}),
                }
                for u in units.values()
            },
            "theory_obligations": {u.name: len(u.goals) for u in theories},
            "discharged_by": bysolver,
            "solver_time_s": round(sum(g.time for g in goals), 2),
            "proof_wall_s": round(t_prove, 2),
            "slowest": [{"obligation": g.name, "s": round(g.time, 2), "solver": g.solver} for g in sorted(goals, key=lambda g: -g.time)[:5]],
            "vacuity_probes": {"run": len(probes), "contradictory": vacuous, "not_run": len([p for p in probes if p is None])},
            "bounded_search_on_real_code": {
                "note": "concrete executions looking for failing inputs and testing the assumptions; never counted as proved",
                "evaluations": found.get("evaluations", 0),
                "distinct_nontrivial": found.get("distinct", 0),
                "rule": found.get("rule", ""),
                "samples": found.get("samples", []),
            },
        },
        "assumptions": P.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if len(goals) == 0:
        print(f"VIOLATION property={prop} replay={write_replay(prop, {'kind': 'no obligations'})} no-failing-input-found")
        violations += 1
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    print(f"{prop}: {len(goals)} obligations, {len(goals)-len(failed)} discharged, {len(errors)} extraction errors, "
          f"{found.get('evaluations', 0)} executions, {time.time()-t0:.1f}s")
    return 1 if violations else 0


def known_findings():
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def report(prop, P, tier, seed, found, failed, errors, vacuous, units, allunits):
    n = 0
    known = {k["key"]: k for k in known_findings() if k["property"] == prop and k.get("status") == "known"}
    for k in found.get("known", []):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    for f in found.get("failures", []):
        if f.get("key") in known:
            print(f"KNOWN-FINDING: property={prop} {known[f['key']]['what']}")
            continue
        n += 1
        if n > 3:
            break
        path = write_replay(prop, {"kind": "failing input", **f,
                                   "failed_obligations": [g.name for g in failed][:20] + [f"{u.name}: {u.error}" for u in errors][:20]})
        print(f"  {f.get('what', '')}: input {json.dumps(f.get('input'))[:300]}")
        print(f"VIOLATION property={prop} replay={path}")
    if n == 0 and (failed or errors or vacuous):
        for g in failed[:10]:
            print(f"  obligation not discharged: {g.name} (line {g.line} of the extracted unit)")
        for u in errors[:10]:
            print(f"  {u.name}: {u.error}")
        path = write_replay(prop, {
            "kind": "failed obligation",
            "obligations": [{"name": g.name, "unit": g.unit, "solver_output": g.outputs} for g in failed],
            "units_not_extracted": [{"unit": u.name, "error": u.error} for u in errors],
            "contradictory_preconditions": vacuous,
            "search": {k: found.get(k) for k in ("evaluations", "distinct", "rule", "error")},
            "extracted": {u.name: open(u.path).read() for u in allunits if u.kind == "function" and not u.error and (any(g in failed for g in u.goals))},
        })
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        n += 1
    if found.get("error") and n == 0:
        print(f"search error: {found['error']}")
        path = write_replay(prop, {"kind": "search failed to run", "error": found["error"]})
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        n += 1
    return n


_seq = [0]


def write_replay(prop, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    _seq[0] += 1
    p = os.path.join(d, f"{prop}-{_seq[0]}.json")
    data = {"property": prop, "replay_cmd": f"cd /verif && PYTHONPATH={REPO}/src {PY} oracle/run.py {prop} --replay {p}", **data}
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def start_search(prop, seed, budget, tier, work, tag):
    out = os.path.join(work, f"search_{tag}.json")
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=str(seed), PYTHONHASHSEED="0")
    p = subprocess.Popen(
        [PY, os.path.join(ROOT, "oracle", "run.py"), prop, "--seed", str(seed), "--budget", str(budget), "--tier", tier, "--out", out, "--scratch", work],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work,
    )
    return p, out, budget


def already_failed(s):
    """Has the search finished with a failing input?"""
    try:
        return bool(json.load(open(s[1])).get("failures"))
    except (OSError, ValueError):
        return False


def finish_search(s):
    p, out, budget = s
    try:
        so, _ = p.communicate(timeout=budget + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        so, _ = p.communicate()
        return {"error": "search did not finish", "failures": []}
    if not os.path.exists(out):
        return {"error": "search crashed: " + so.decode("utf8", "replace")[-1500:], "failures": []}
    return json.load(open(out))


def merge_search(a, b):
    a["failures"] = a.get("failures", []) + b.get("failures", [])
    a["evaluations"] = a.get("evaluations", 0) + b.get("evaluations", 0)
    a["distinct"] = a.get("distinct", 0) + b.get("distinct", 0)
    if b.get("error") and not a.get("error"):
        a["error"] = b["error"]


if __name__ == "__main__":
    main()
