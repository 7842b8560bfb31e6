"""Minimisation of failures that kill or hang the process: every candidate runs in its own process."""
import time


def out_of_process(ctl, prop, sc, kind, env, r, budget):
    import importlib, sys, os
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
    t0, tried, best = time.monotonic(), 0, sc
    if kind == "no-progress":
        return [best], r, 0
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for c in candidates(best):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            r2 = ctl.exec_one(prop, [c], env)
            if r2["verdict"] == "violation" and r2["kind"] == kind:
                best, r, progress = c, r2, True
                break
    return [best], r, tried


def candidates(sc):
    import copy
    for key in ("faults", "ops", "steps"):
        ops = sc.get(key)
        if isinstance(ops, list):
            n = len(ops)
            step = max(1, n // 2)
            while step >= 1 and n:
                for a in range(0, n, step):
                    c = copy.deepcopy(sc)
                    del c[key][a:a + step]
                    if c[key] or key == "faults":
                        yield c
                step //= 2
