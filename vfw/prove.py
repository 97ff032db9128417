"""Turn WhyML files into SMT tasks with Why3 and discharge them with a pool of
SMT solver processes.  Nothing is cached: every run proves every obligation."""
from __future__ import annotations

import os
import re
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from dataclasses import dataclass, field

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
CONF = os.path.join(BUILD, "why3.conf")
THEORY = os.path.join(ROOT, "theory")
WHY3 = "/usr/bin/why3"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)

SOLVERS = {
    "z3": ["/usr/bin/z3", "-smt2", "-memory:3000"],
    "z3-new": ["z3-new", "-smt2", "-memory:3000"],
    "cvc5": ["/usr/bin/cvc5", "--lang=smt2"],
    "cvc5-enum": ["/usr/bin/cvc5", "--lang=smt2", "--enum-inst"],
}

# (solver, seconds) tried in rounds: within a round all are started in order.
ROUNDS = [
    [("z3", 2)],
    [("cvc5", 3), ("z3-new", 3)],
    [("z3", 15), ("cvc5", 15), ("z3-new", 15), ("cvc5-enum", 10)],
    [("z3", 60), ("cvc5", 60), ("z3-new", 60)],
]


@dataclass
class Goal:
    unit: str
    index: int
    name: str
    label: str
    line: int
    path: str = ""
    goal: str = ""
    status: str = "unknown"  # proved / failed
    solver: str = ""
    time: float = 0.0
    outputs: list = field(default_factory=list)


class Why3Error(Exception):
    pass


def _run(cmd, timeout, cwd=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else "", "timeout"


def conf():
    """The Why3 configuration (absolute driver path filled in)."""
    if not os.path.exists(CONF):
        os.makedirs(BUILD, exist_ok=True)
        src = open(os.path.join(ROOT, "vfw", "why3.conf.in")).read()
        tmp = CONF + f".{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(src.replace("DRIVERDIR", os.path.join(ROOT, "vfw", "drivers")))
        os.replace(tmp, CONF)
    return CONF


def toplevel(txt):
    """Split an SMT-LIB text printed by Why3 into top-level commands and comment
    lines: only these start at the beginning of a line."""
    return [c + "\n" for c in re.split(r"\n(?=[(;])", txt)]


POLY = re.compile(r"(?<![\w.])(uni|ty|t2tb\d*|tb2t\d*|sort|witness)(?![\w.])")


def simplify(txt):
    """Drop the hypotheses left over from the encoding of polymorphism (their
    monomorphic instances are present).  Removing hypotheses is sound."""
    cmds = toplevel(txt)
    last = max(i for i, c in enumerate(cmds) if c.startswith("(assert"))
    keep = []
    for i, c in enumerate(cmds):
        if c.startswith(";") and "Goal" not in c and "File" not in c:
            continue
        if c.startswith("(assert") and i != last and POLY.search(c):
            continue
        keep.append(c)
    return "".join(keep)


def generate(mlw: str, outdir: str, unit: str, theory_labels=None, transform="split_vc") -> list[Goal]:
    """Print one SMT task per obligation with both drivers."""
    goals: dict[tuple, Goal] = {}
    lines = open(mlw).read().split("\n")
    extra = []
    for t in transform.split(","):
        extra += ["-a", t]

    rc, out, err = _run(
        [WHY3, "-C", conf(), "prove", "-L", THEORY, "-L", os.path.dirname(mlw), "-P", "Fake", *extra, "-o", outdir, mlw],
        240,
    )
    if rc != 0 or "ailure in" in err or "rror" in err:
        raise Why3Error((out + err).strip()[-3000:] or f"why3 exit {rc}")
    base = os.path.basename(mlw)
    # group by goal prefix then natural number
    def key(n):
        m = re.match(r"(.*?)(\d*)\.smt2$", n)
        return (m.group(1), int(m.group(2) or 0))
    order = sorted((n for n in os.listdir(outdir) if n.endswith(".smt2")), key=key)
    res = []
    seen: dict[str, int] = {}
    for i, n in enumerate(order):
        p = os.path.join(outdir, n)
        txt = open(p).read()
        if "unsimplified" not in lines[0]:
            txt = simplify(txt)
            open(p, 'w').write(txt)
        # the goal comes last: its name and its place in the source
        i0 = txt.rindex(';; Goal "')
        m = re.match(r';; Goal "([^"]*)"\n(?:;; File "([^"]*)", line (\d+))?', txt[i0:])
        gname = m.group(1)
        gfile, line = m.group(2) or "", int(m.group(3) or 0)
        label = ""
        if line and os.path.basename(gfile) == base and line <= len(lines):
            src = lines[line - 1]
            mm = re.search(r"@expl:([^\]]*)\]", src)
            label = mm.group(1).strip() if mm else src.strip()[:100]
        elif line and gfile.endswith(".mlw") and os.path.exists(gfile):
            # a precondition stated in a theory
            src = open(gfile).read().split("\n")[line - 1]
            mm = re.search(r"@expl:([^\]]*)\]", src)
            label = mm.group(1).strip() if mm else src.strip()[:100]
        nm = f"{unit}:{label or gname}"
        seen[nm] = seen.get(nm, 0) + 1
        g = Goal(unit, i, f"{nm}#{seen[nm]}", label or gname, line)
        g.goal = gname
        g.path = p
        res.append(g)
    return res


def relabel(goals, transform="split_vc", mlw=None):
    """Give the goals of one unit (all of them, in order) their place in the contract."""
    extra = []
    for t in transform.split(","):
        extra += ["-a", t]
    lines = open(mlw).read().split("\n")
    base = os.path.basename(mlw)
    rc, out, err = _run([WHY3, "-C", conf(), "prove", "-L", THEORY, "-L", os.path.dirname(mlw), "-P", "Fake", *extra, mlw], 240)
    where, counts, gcount = {}, {}, {}
    for m in re.finditer(r'File "([^"]*)", line (\d+), characters[^\n]*\n(.*?)\.\nProver result', out, re.S):
        head = " ".join(m.group(3).split())
        mm = re.match(r"(?:Sub-goal (.*) of goal|Goal) (\S+)$", head)
        if mm:
            g = mm.group(2)
            k = counts.get(g, 0)
            counts[g] = k + 1
            where[(g, k)] = (m.group(1), int(m.group(2)), mm.group(1) or "")
    seen = {}
    for g in goals:
        k = gcount.get(g.goal, 0)
        gcount[g.goal] = k + 1
        gfile, line, expl = where.get((g.goal, k), ("", 0, ""))
        label = ""
        src = ""
        if line and os.path.basename(gfile) == base and line <= len(lines):
            src = lines[line - 1]
        elif line and os.path.exists(gfile):
            src = open(gfile).read().split("\n")[line - 1]
        if src:
            mm = re.search(r"@expl:([^\]]*)\]", src)
            label = mm.group(1).strip() if mm else src.strip()[:100]
            if expl and expl.lower() not in label.lower():
                label = f"{label} ({expl})"
            g.line, g.label = line, label
        nm = f"{g.unit}:{g.label}"
        seen[nm] = seen.get(nm, 0) + 1
        g.name = f"{nm}#{seen[nm]}"


def _solve(solver, path, secs):
    cmd = list(SOLVERS[solver])
    if solver.startswith("z3"):
        cmd += [f"-T:{int(secs)}", path]
    else:
        cmd += [f"--tlimit={int(secs*1000)}", path]
    t = time.time()
    rc, out, err = _run(cmd, secs + 5)
    dt = time.time() - t
    first = out.strip().split("\n")[0].strip() if out.strip() else ""
    if any(l.startswith("(error") for l in out.split("\n")) and first != "unsat":
        first = out.strip()[:200]
    return first, dt


def prove_all(goals: list[Goal], rounds=None, deadline=None, log=None, enough=None):
    """Try every goal with increasing effort.  A goal is proved as soon as one
    solver answers unsat.  The long rounds are left out when enough() holds."""
    rounds = rounds or ROUNDS
    pending = list(goals)
    lock = threading.Lock()
    with ThreadPoolExecutor(JOBS) as ex:
        for rnd in rounds:
            if not pending:
                break
            if enough and rnd[0][1] > 3 and enough():
                for g in pending:
                    g.outputs.append("no further attempt: the search on the real code found a failing input")
                break

            def attempt(g, solver, secs):
                if g.status == "proved":
                    return
                if deadline and time.time() > deadline:
                    with lock:
                        g.outputs.append(f"{solver}: not run (time budget used up)")
                    return
                ans, dt = _solve(solver, g.path, secs)
                with lock:
                    g.time += dt
                    if ans == "unsat":
                        if g.status != "proved":
                            g.status = "proved"
                            g.solver = solver
                    else:
                        g.outputs.append(f"{solver} ({secs}s): {ans or 'no answer'} in {dt:.1f}s")

            futs = []
            # all first solvers first so that cheap wins come early
            for solver, secs in rnd:
                for g in pending:
                    futs.append(ex.submit(attempt, g, solver, secs))
            for f in futs:
                f.result()
            pending = [g for g in pending if g.status != "proved"]
            if log and pending:
                log(f"{len(pending)} obligations left after a round")
    for g in goals:
        if g.status != "proved":
            g.status = "failed"
    return goals


if __name__ == "__main__":
    import sys, shutil, tempfile

    for f in sys.argv[1:]:
        if f.startswith("-"):
            continue
        d = tempfile.mkdtemp(prefix="why3o")
        rounds = ROUNDS[:3] if "-q" not in sys.argv else ROUNDS[:2]
        try:
            gs = generate(os.path.abspath(f), d, os.path.basename(f))
            prove_all(gs, rounds)
            relabel(gs, mlw=os.path.abspath(f))
            bad = [g for g in gs if g.status != "proved"]
            slow = sorted(gs, key=lambda g: -g.time)[:5]
            print(f"{f}: {len(gs)} goals, {len(bad)} failed; slowest " + ", ".join(f"{g.label}@{g.line} {g.time:.1f}s {g.solver}" for g in slow))
            for g in bad:
                print("  FAILED", g.name, "line", g.line, g.path if "-k" in sys.argv else "", g.outputs[-1:])
        except Why3Error as e:
            print(f, "ERROR", e)
        finally:
            if "-k" not in sys.argv:
                shutil.rmtree(d)
