"""Concrete search on the real code: runs the property's oracle over an
enumeration of small inputs and then seeded random ones.

An oracle module offers RULE, cases(rng, hard) -> iterator of literal inputs,
check(input) -> None or a message, nontrivial(input) -> bool, and optionally
known() -> list of keys of listed findings that still fail, key(input, msg)."""
import argparse
import ast
import importlib
import itertools
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang()


def attempt(mod, case, limit=15.0):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.check(case)
    except Hang:
        return f"did not finish within {limit:.0f} s"
    except RecursionError:
        return "RecursionError"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "gaspra" in f.filename), "")
        return f"raised {type(e).__name__}: {e} {where}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def smaller(x):
    """simpler variants of a literal input"""
    if isinstance(x, (str, bytes)):
        for i in range(len(x)):
            yield x[:i] + x[i + 1 :]
    elif isinstance(x, (tuple, list)):
        t = type(x)
        for i in range(len(x)):
            if t is list or len(x) > 3 or all(isinstance(y, (int, str)) for y in x):
                yield x[:i] + x[i + 1 :]
        for i in range(len(x)):
            for y in smaller(x[i]):
                yield x[:i] + t([y]) + x[i + 1 :]


def shrink(mod, case, msg, secs=8):
    end = time.time() + secs
    if not getattr(mod, "SHRINK", True):
        return case, msg
    again = True
    while again and time.time() < end:
        again = False
        for c in smaller(case):
            if time.time() > end:
                break
            try:
                if hasattr(mod, "valid") and not mod.valid(c):
                    continue
                m = attempt(mod, c, 3.0)
            except Exception:  # noqa: BLE001
                continue
            if m and m.split(":")[0] == msg.split(":")[0]:
                case, msg, again = c, m, True
                break
    return case, msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--scratch", default="/tmp")
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.environ["VERIF_SCRATCH"] = a.scratch
    mod = importlib.import_module(a.prop.lower())
    if a.replay:
        d = json.load(open(a.replay))
        if d.get("kind") != "failing input":
            print("no failing input in this replay file; failed obligations:", d.get("obligations"))
            sys.exit(1)
        case = ast.literal_eval(d["input"])
        msg = attempt(mod, case, 60.0)
        print("input:", repr(case)[:2000])
        print("result:", msg or "the property holds on this input")
        sys.exit(1 if msg else 0)
    rng = random.Random(a.seed)
    res = {"failures": [], "evaluations": 0, "distinct": 0, "rule": mod.RULE, "samples": [], "known": []}
    end = time.time() + a.budget
    seen = set()
    hard = a.tier in ("hard", "thorough")
    try:
        for case in mod.cases(rng, hard):
            if time.time() > end:
                break
            r = repr(case)
            h = hash(r)
            msg = attempt(mod, case)
            res["evaluations"] += 1
            if h not in seen:
                seen.add(h)
                if mod.nontrivial(case):
                    res["distinct"] += 1
                    if len(res["samples"]) < 3 and rng.random() < 0.02 and len(r) < 400:
                        res["samples"].append(r)
            if msg:
                case, msg = shrink(mod, case, msg)
                key = mod.key(case, msg) if hasattr(mod, "key") else repr(case)
                res["failures"].append({"input": repr(case), "what": msg, "key": key})
                if len(res["failures"]) >= 2:
                    break
        if hasattr(mod, "known"):
            res["known"] = mod.known()
    except Exception:  # noqa: BLE001
        res["error"] = traceback.format_exc()[-1500:]
    if a.out:
        with open(a.out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(a.out + ".tmp", a.out)
    else:
        print(json.dumps(res, indent=1))


if __name__ == "__main__":
    main()
