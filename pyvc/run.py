"""Run the deductive part of one property; writes a JSON report."""
import argparse
import importlib
import json
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from pyvc import spec, smt, loops
    t0 = time.time()
    vc = spec.VC(a.prop, a.tier)
    try:
        m = importlib.import_module("specs." + a.prop)
        m.verify(vc)
    except spec.Unsupported as e:
        vc.undecided.append(("specification", f"outside the verifier's subset: {e}"))
    except Exception as e:
        vc.undecided.append(("specification", f"translator error: {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6)))
    vc.finish()
    res = dict(property=a.prop, obligations=[dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), info=o.info[:3000]) for o in vc.obls],
               undecided=vc.undecided, functions=vc.functions, assumptions=vc.assumptions, paths=vc.paths, bounded=getattr(vc, "bounded", []),
               queries=smt.STATS.queries, solver_s=round(smt.STATS.time, 2), by=smt.STATS.by, loops=loops.STAT, wall_s=round(time.time() - t0, 2))
    if a.out:
        json.dump(res, open(a.out, "w"))
    for o in vc.obls:
        if a.v or (o.status != "valid"):
            print(o.status, o.backend, round(o.secs, 2), o.name)
    for u in vc.undecided:
        print("UNDECIDED", *u)
    print(f"{len(vc.obls)} obligations, {sum(o.status == 'valid' for o in vc.obls)} discharged, {res['wall_s']} s, solver {res['solver_s']} s, {smt.STATS.by}, {loops.STAT}")


if __name__ == "__main__":
    main()
