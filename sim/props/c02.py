import numpy as np
import models, oracle
from common import *

QUERIES = ("rew_min", "rew_max", "rew_min", "rew_max", "max_z_state", "max_z_state_action", "max_y_state_action", "max_y_state")


def gen(rng, i, tier):
    bad = rng.random() < 0.15
    big = rng.random() < 0.04
    m = models.gen(rng, n=rng.randint(12, 30) if big else None, rewards=True, proper_target=not bad, extra_labels=rng.choice((0, 1)))
    if bad and rng.random() < 0.2:
        m["rewards"] = None
    ops = [[rng.choice(QUERIES), rng.choice(("cbc", "cbc", "cbc", "glpk", "glpk", "gurobi"))] for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.15:
        ops.insert(rng.randrange(len(ops) + 1), ["again", ""])
    return {"model": m, "ops": ops, "faults": faults(rng, len(ops)), "styles": rng.choice((["plain"], ["plain", "alt", "mid"], ["alt"]))}


def run(ctx, sc):
    from switss.model import RewardReachabilityForm
    m = sc["model"]
    ref = oracle.of_model(m)
    with ctx.world() as w:
        system = models.build(m)
        r = ctx.call(RewardReachabilityForm.reduce, system, "init", "target")
        good = m["rewards"] is not None and ref.proper()
        if not good:
            if r.ok:
                ctx.violate("accepted-improper", "a model without rewards or where the target may be missed was accepted")
            ctx.note("rejected")
            ctx.nontrivial = m["rewards"] is not None
            ctx.sig = ["c02", "rejected"]
            return
        rf, cols, rows = must(ctx, r, "reduce")
        cmap = check_reduction(ctx, m, ref, rf, cols, rows)
        check_unchanged(ctx, m, system)
        C = rf.system.C - 2
        n = len(cmap)
        rw = vector(ctx, rf.reward_vector, C, "reward_vector")
        same(ctx, rw, rf.system.reward_vector[:C], 1e-12, "wrong-rewards", "reward_vector")
        vals = {k: np.zeros(n) for k in ("min", "max")}
        for k in vals:
            v = ref.rew(k)
            for s, j in cmap.items():
                vals[k][j] = v[s]
        T, V = ref.max_steps(), float(vals["max"].max()) if n else 0.0
        tol = 3e-5 * (1 + V) + 1e-7 * T
        P = rf.system.P.tocsr()[:C, :n].toarray()
        okc = 0

        def judge(rf, name, solver, healthy):
            before, n0 = fired(w), len(w.spawns)
            what = "%s(%s)" % (name, solver)
            r = ctx.call(getattr(rf, name), solver=solver)
            named_solver(ctx, w, n0, solver, what)
            if not r.ok:
                ctx.note(name, "raised")
                if healthy or fired(w) == before and not w.enospc_on:
                    must(ctx, r, what)
                return False
            if name in ("rew_min", "max_z_state", "rew_max"):
                v = vector(ctx, r.value, n, what)
                same(ctx, v, vals["max" if name == "rew_max" else "min"], tol, "wrong-reward", what)
            elif name == "max_z_state_action":
                v = vector(ctx, r.value, C, what)
                same(ctx, v, P @ vals["min"] + rw, 2 * tol, "wrong-reward", what)
            elif name == "max_y_state_action":
                v = vector(ctx, r.value, C, what)
                A = rf.A.toarray() if hasattr(rf.A, "toarray") else np.asarray(rf.A)
                d = np.zeros(n); d[rf.initial] = 1
                if (v < -tol).any() or (A.T @ v > d + 1e-5 * (1 + abs(v).sum())).any():
                    ctx.violate("wrong-frequencies", "%s violates the flow constraints: %s" % (what, v))
                same(ctx, [float(rw @ v)], [vals["max"][rf.initial]], tol * (1 + T), "wrong-reward", what + " rewards of the flow")
            else:
                v = vector(ctx, r.value, n, what)
                A = rf.A.toarray() if hasattr(rf.A, "toarray") else np.asarray(rf.A)
                gap = state_frequencies(A, rw, rf.initial, float(vals["max"][rf.initial]), dict(rf.system.index_by_state_action), v)
                if gap is not None and gap > tol * (1 + T):
                    ctx.violate("wrong-frequencies", "%s = %s are not the totals of an optimal flow (off by %g)" % (what, v, gap))
            ctx.note(name, "ok", [round(float(x), 4) for x in v] if "y" not in name else None)
            return True
        for name, solver in sc["ops"]:
            if name == "again":
                rf, c2, r2 = must(ctx, ctx.call(RewardReachabilityForm.reduce, system, "init", "target"), "second reduce")
                check_reduction(ctx, m, ref, rf, c2, r2)
            else:
                okc += judge(rf, name, solver, False)
        heal(w)
        judge(rf, "rew_min", "cbc", True)
        judge(rf, "rew_max", "glpk", True)
        check_unchanged(ctx, m, system)
        ctx.sig = ["c02", n, C, round(float(vals["min"][rf.initial]), 2), round(float(vals["max"][rf.initial]), 2), okc, sorted(w.fired)]
        ctx.nontrivial = n > 1
