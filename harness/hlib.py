"""Executable contracts: run the real code on enumerated and random cases (counterexample search / bounded stand-in)."""
from __future__ import annotations

import argparse
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
import logging
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter("ignore")


class Violation(AssertionError):
    pass


class Unavailable(Exception):
    """The entry point this harness drives no longer exists in this form."""


def require(cond, msg):
    if not cond:
        raise Violation(msg)


class _Timeout(BaseException):
    pass


def main(gen, check, prop, case_timeout=60):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()

    def on_alarm(*_):
        raise _Timeout()
    signal.signal(signal.SIGALRM, on_alarm)

    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("input", case)
        try:
            check(case)
        except Exception as e:
            traceback.print_exc()
            print("REPRODUCED:", e)
            sys.exit(1)
        print("case passes")
        sys.exit(0)
    rng = random.Random(a.seed)
    t0 = time.time()
    n = 0
    failures = []
    unavailable = None
    digest = hashlib.sha256()
    samples = []
    exhausted = False
    try:
        it = gen(rng, a.tier)
        while True:
            if time.time() - t0 > a.budget:
                break
            try:
                case = next(it)
            except StopIteration:
                exhausted = True
                break
            n += 1
            s = json.dumps(case, sort_keys=True, default=str)
            digest.update(s.encode())
            if n <= 3:
                samples.append(s[:300])
            try:
                signal.alarm(case_timeout)
                try:
                    check(json.loads(s))
                finally:
                    signal.alarm(0)
            except Unavailable:
                raise
            except _Timeout:
                failures.append(dict(input=case, message=f"no result within {case_timeout} s", trace=""))
                break
            except Exception as e:
                failures.append(dict(input=case, message=f"{type(e).__name__}: {e}", trace=traceback.format_exc(limit=-8)))
                if len(failures) >= 3:
                    break
    except Unavailable as e:
        unavailable = str(e)
    except (ImportError, AttributeError) as e:
        unavailable = f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4)
    res = dict(property=prop, cases=n, exhausted=exhausted, failures=failures, unavailable=unavailable, wall_s=round(time.time() - t0, 2),
               digest=digest.hexdigest()[:16], samples=samples)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f, default=str)
    else:
        for f in failures:
            print("FAIL", json.dumps(f["input"], default=str)[:1200], "\n  ->", f["message"][:600], "\n", f["trace"][-900:])
        print(prop, "cases", n, "exhausted", exhausted, "failures", len(failures), "unavailable", unavailable, "wall", res["wall_s"])
    sys.stdout.flush()
    os._exit(0)
