import numpy as np
import models, oracle
from common import *

QUERIES = ("pr_min", "pr_max", "pr_min", "pr_max", "max_z_state", "max_z_state_action", "max_y_state_action", "max_y_state")


def gen(rng, i, tier):
    r = rng.random()
    n = rng.randint(20, 45) if r < (0.03 if tier == "quick" else 0.06) else rng.randint(10, 16) if r < 0.15 else None
    m = models.gen(rng, n=n, extra_labels=rng.choice((0, 0, 1, 2)), rewards=rng.random() < 0.2)
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append([rng.choice(QUERIES), rng.choice(("cbc", "cbc", "cbc", "glpk", "glpk", "gurobi"))])
        if rng.random() < 0.15:
            ops.append([rng.choice(("rebuild", "again", "permuted")), ""])
    return {"model": m, "ops": ops, "faults": faults(rng, len(ops)), "styles": rng.choice((["plain"], ["plain", "alt", "mid"], ["alt"]))}


def permuted(rf, rng_order):
    """The same reachability form handed over with its rows in another order."""
    from bidict import bidict
    from scipy.sparse import dok_matrix
    from switss.model import ReachabilityForm
    s = rf.system
    C, N = s.P.shape
    order = list(range(C - 2))
    order = order[1::2] + order[::2] + [C - 2, C - 1]
    P = dok_matrix((C, N))
    idx = bidict()
    for new, old in enumerate(order):
        for d, p in row(s.P, old).items():
            P[new, d] = p
        idx[s.index_by_state_action.inv[old]] = new
    kw = {}
    if type(s).__name__ == "MDP":
        kw["label_to_actions"] = {l: set(v) for l, v in s.actions_by_label.items()}
    t = type(s)(P=P, index_by_state_action=idx, label_to_states={l: set(v) for l, v in s.states_by_label.items()},
                reward_vector=None if s.reward_vector is None else np.array([s.reward_vector[o] for o in order]), **kw)
    return ReachabilityForm(t, "init", rf.target_label, rf.fail_label)


def run(ctx, sc):
    from switss.model import ReachabilityForm
    m = sc["model"]
    ref = oracle.of_model(m)
    T = ref.max_steps()
    tol = 4e-6 + 1e-7 * T
    sysm, names = ref.restricted()
    with ctx.world() as w:
        system = models.build(m)
        rf, cols, rows = must(ctx, ctx.call(ReachabilityForm.reduce, system, "init", "target"), "reduce")
        cmap = check_reduction(ctx, m, ref, rf, cols, rows)
        check_unchanged(ctx, m, system)
        vmin, vmax = ref.pr("min"), ref.pr("max")
        true = {"min": np.zeros(len(names)), "max": np.zeros(len(names))}
        for s, j in cmap.items():
            true["min"][j], true["max"][j] = vmin[s], vmax[s]
        n = len(names)
        okc = 0

        def judge(rf, name, solver, healthy):
            before, n0 = fired(w), len(w.spawns)
            what = "%s(%s)" % (name, solver)
            r = ctx.call(getattr(rf, name), solver=solver)
            named_solver(ctx, w, n0, solver, what)
            if not r.ok:
                ctx.note(name, "raised")
                if healthy or fired(w) == before and not w.enospc_on:
                    must(ctx, r, what)
                return False
            idx = rf.system.index_by_state_action
            C = rf.system.C - 2
            if name in ("pr_min", "max_z_state", "pr_max"):
                v = vector(ctx, r.value, n, what)
                same(ctx, v, true["max" if name == "pr_max" else "min"], tol, "wrong-probability", what)
            elif name == "max_z_state_action":
                v = vector(ctx, r.value, C, what)
                P = rf.P.toarray()
                same(ctx, v, P @ true["min"] + np.asarray(rf.to_target).ravel(), tol * 2, "wrong-probability", what)
            else:
                v = vector(ctx, r.value, C if name == "max_y_state_action" else n, what)
                if (v < -tol).any():
                    ctx.violate("wrong-frequencies", "%s has negative entries: %s" % (what, v))
                if name == "max_y_state_action":
                    A = rf.A.toarray() if hasattr(rf.A, "toarray") else np.asarray(rf.A)
                    d = np.zeros(n); d[rf.initial] = 1
                    if (A.T @ v > d + tol * (1 + abs(v).sum())).any():
                        ctx.violate("wrong-frequencies", "%s violates the flow constraints: %s" % (what, v))
                    t = np.asarray(rf.to_target).ravel()
                    same(ctx, [float(t @ v)], [true["max"][rf.initial]], tol * (1 + T), "wrong-probability", what + " flow into the target")
                else:
                    A = rf.A.toarray() if hasattr(rf.A, "toarray") else np.asarray(rf.A)
                    gap = state_frequencies(A, np.asarray(rf.to_target).ravel(), rf.initial, true["max"][rf.initial], dict(idx), v)
                    if gap is not None and gap > tol * (1 + T):
                        ctx.violate("wrong-frequencies", "%s = %s are not the totals of an optimal flow (off by %g)" % (what, v, gap))
            ctx.note(name, "ok", [round(float(x), 5) for x in v] if "y" not in name else None)
            return True
        forms = [rf]
        for name, solver in sc["ops"]:
            if name == "rebuild":
                rf = must(ctx, ctx.call(ReachabilityForm, rf.system, "init", rf.target_label, rf.fail_label), "ReachabilityForm(system)")
            elif name == "again":
                k = len(forms)
                rf2, c2, r2 = must(ctx, ctx.call(ReachabilityForm.reduce, system, "init", "target", "t%d" % k, "f%d" % k), "second reduce")
                check_reduction(ctx, m, ref, rf2, c2, r2, "t%d" % k, "f%d" % k)
                forms.append(rf2)
            elif name == "permuted":
                rf = must(ctx, ctx.call(permuted, rf, None), "ReachabilityForm(permuted system)")
            else:
                okc += judge(rf, name, solver, False)
        heal(w)
        judge(rf, "pr_min", "cbc", True)
        judge(rf, "pr_max", "glpk", True)
        check_unchanged(ctx, m, system)
        ctx.sig = ["c01", n, len(rows), round(float(true["min"][rf.initial]), 3), round(float(true["max"][rf.initial]), 3), okc, sorted(w.fired)]
        ctx.nontrivial = n > 1
