"""find_interior_point: the region point finder of the certification package."""
import numpy as np
from scipy.sparse import dok_matrix, csr_matrix
import programs
from common import *

TOL = 2e-6


def num(rng):
    return float(rng.choice((-2, -1, -1, 0, 0, 1, 1, 2, 3, 0.5, -0.25, 0.1, 7)))


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        n, k = rng.randint(1, 7), rng.randint(1, 5)
        A = [[num(rng) if rng.random() < 0.7 else 0.0 for _ in range(k)] for _ in range(n)]
        if rng.random() < 0.5:          # a box, so that the depth of the region is limited
            for j in range(k):
                A.append([1.0 if x == j else 0.0 for x in range(k)])
                A.append([-1.0 if x == j else 0.0 for x in range(k)])
        b = [float(rng.choice((0, 0, 1, 2, 3, -1, -2, 0.5, 10))) for _ in range(n)] + [float(rng.randint(0, 6)) for _ in range(len(A) - n)]
        if rng.random() < 0.3:          # rows and their opposites: regions without an inside, and empty ones
            r = rng.randrange(len(A))
            A.append([-x for x in A[r]])
            b.append(-b[r] + rng.choice((0.0, 0.0, 1.0, -1.0)))
        ops.append({"A": A, "b": b, "xgeq0": rng.choice((None, False, True, True)), "zero": rng.choice((None, None, [], [rng.randrange(k)], [rng.randrange(k), 0])),
                    "form": rng.choice(("dok", "csr")), "solver": rng.choice((None, "cbc", "cbc", "glpk", "gurobi"))})
    return {"ops": ops, "faults": faults(rng, len(ops), p_none=0.4), "styles": rng.choice((["plain"], ["plain", "alt", "mid"], ["alt"]))}


def depth(A, b, xg, zero):
    """The largest t such that some x meets every row (and, if wanted, x >= 0) with t to spare; None: unlimited, -inf: never."""
    n, k = A.shape
    up = [(0.0 if j in zero else None) for j in range(k)]
    rows = [np.append(A[r], 1.0) for r in range(n)]
    rhs = list(b)
    for j in range(k):
        if xg:
            rows.append(np.append(-np.eye(k)[j], 1.0))
            rhs.append(0.0)
    bounds = [(0, 0) if u == 0.0 else (None, None) for u in up] + [(None, None)]
    c = np.zeros(k + 1)
    c[-1] = -1.0
    r = programs.linprog(c, np.array(rows), np.array(rhs), np.zeros((0, k + 1)), np.zeros(0), bounds)
    if r.status == 0:
        return float(-r.fun)
    if r.status in (3, 4):
        return None
    raise programs.Skip("no answer about the region")


def run(ctx, sc):
    from switss.certification import find_interior_point
    with ctx.world() as w:
        stats = []

        def request(o, healthy):
            A, b = np.array(o["A"], dtype=float), np.array(o["b"], dtype=float)
            zero, xg = o["zero"] or [], bool(o["xgeq0"])
            kw = {}
            if o["xgeq0"] is not None:
                kw["xgeq0"] = o["xgeq0"]
            if o["zero"] is not None:
                kw["zero_vars"] = list(o["zero"])
            if o["solver"] is not None:
                kw["solver"] = o["solver"]
            M, rhs = (dok_matrix(A) if o["form"] == "dok" else csr_matrix(A)), b.copy()
            what = "point inside %s x <= %s%s%s" % (o["A"], o["b"], ", x >= 0" if xg else "", ", x%s = 0" % zero if zero else "")
            f0, n0 = fired(w), len(w.spawns)
            r = ctx.call(find_interior_point, M, rhs, **kw)
            named_solver(ctx, w, n0, o["solver"] or "cbc", what)
            faulty = not healthy and (fired(w) > f0 or w.enospc_on)
            if M.shape != A.shape or np.abs(M.toarray() - A).max() > 0 or np.abs(rhs - b).max() > 0:
                ctx.violate("mutated", "%s: the caller's matrix or vector was changed" % what)
            if not r.ok:
                stats.append("raised")
                if o["solver"] == "gurobi" and w.solves and w.solves[-1].get("left") is False:
                    return      # PuLP expects gurobi_cl to leave a solution, there is none for an unlimited region
                if not faulty:
                    must(ctx, r, what)
                return
            x, opt, strict = r.value
            x = vector(ctx, x, A.shape[1], what)
            opt, strict = bool(opt), bool(strict)
            stats.append("%d%d" % (opt, strict))
            ctx.note(what, opt, strict)
            scale = 1.0 + float(np.abs(x).max())
            gap = float((b - A.dot(x)).min())
            tol = TOL * scale * max(1.0, float(np.abs(A).max()) * A.shape[1])
            ok = gap >= -tol and (not xg or x.min() >= -tol) and all(abs(x[j]) <= tol for j in zero)
            if strict and not ok:
                ctx.violate("not-inside", "%s: %s is called strictly inside, but misses the region by %.3g" % (what, x, -gap))
            if opt and not ok:
                ctx.violate("not-inside", "%s: %s is called inside, but misses the region by %.3g (or a sign condition)" % (what, x, -gap))
            d = depth(A, b, xg, zero)
            if d is None:
                if not faulty and opt:
                    ctx.violate("unbounded", "%s: called optimal, although points lie inside arbitrarily deep" % what)
                return
            lim = 1e-5 * (1 + float(np.abs(b).max()))
            if strict and d < -lim or opt and d < -lim:
                ctx.violate("empty", "%s: called (strictly) inside, but the region is empty (%.3g missing)" % (what, -d))
            if faulty:
                return
            if not opt and d > lim:
                ctx.violate("missed", "%s: there are points inside (%.3g to spare), but none is reported" % (what, d))
            if not strict and d > lim:
                ctx.violate("missed-strict", "%s: there are points strictly inside (%.3g to spare), reported as not strict" % (what, d))
        for o in sc["ops"]:
            request(o, False)
        heal(w)
        request(sc["ops"][0], True)
        request(sc["ops"][-1], True)
        ctx.sig = ["c22", [(np.array(o["A"]).shape, o["xgeq0"]) for o in sc["ops"]], stats, sorted(w.fired)]
        ctx.nontrivial = True
