"""Helpers shared by the property modules: fault plans, comparisons, calls that must work."""
import numpy as np

SOLVER_KINDS = ("exit", "signal", "nofile", "torn", "torn", "tornline", "tornline", "zeroed", "empty", "timeout", "timeout_noinc",
                "iterlimit", "missing", "noexec", "eagain", "slow", "stall")
WRITE_KINDS = ("enospc", "eio", "short", "open_enospc", "open_eacces", "open_emfile", "close_eio")
READ_KINDS = ("eio", "short", "open_eio", "open_emfile")


def solver_fault(rng, index, site="spawn", kinds=SOLVER_KINDS):
    k = rng.choice(kinds)
    f = {"at": [site, index], "kind": k}
    if k == "exit":
        f["code"] = rng.choice((1, 2, 255))
    if k == "signal":
        f["code"] = -rng.choice((6, 9, 11, 15))
    if k in ("exit", "signal") and rng.random() < 0.5:
        f["left"] = round(rng.random(), 3)
    if k in ("torn", "tornline", "zeroed"):
        f["frac"] = round(rng.choice((rng.random(), rng.uniform(0.6, 1.0), 0.999)), 4)
    if k == "slow":
        f["secs"] = rng.choice((5.0, 60.0, 700.0, 4000.0))
    return f


def disk_fault(rng, nw, nr=0):
    if nr and rng.random() < 0.4:
        k = rng.choice(READ_KINDS)
        i = rng.randrange(nr)
        return {"at": ["openr" if k.startswith("open_") else "read", i], "kind": k.replace("open_", ""), "frac": round(rng.random(), 3)}
    k = rng.choice(WRITE_KINDS)
    site = "openw" if k.startswith("open_") else "closew" if k.startswith("close_") else "write"
    return {"at": [site, rng.randrange(max(1, nw))], "kind": k.split("_")[-1], "frac": round(rng.random(), 3)}


def faults(rng, calls, p_none=0.4, disk=0.2, kinds=SOLVER_KINDS, disk_reads=True):
    """A fault plan for about `calls` solver runs."""
    if rng.random() < p_none:
        return []
    out = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        if rng.random() < disk:
            out.append(disk_fault(rng, max(1, calls), calls * 2 if disk_reads else 0))
        else:
            out.append(solver_fault(rng, rng.randrange(max(1, calls)), kinds=kinds))
    return out


def heal(w):
    """Faults stop here."""
    w.faults = {}
    w.enospc_on = False
    w.enospc_left = 0
    w.read_faults = False


def must(ctx, res, what):
    """The call had to succeed (no fault can have touched it)."""
    if not res.ok:
        ctx.violate("unexpected-error", "%s failed without any fault: %r at %s" % (what, res, res.where()))
    return res.value


def vector(ctx, value, n, what):
    """A returned vector of n finite numbers."""
    try:
        v = np.asarray(value, dtype=float)
    except Exception:
        ctx.violate("not-numbers", "%s returned %r" % (what, value))
    if v.shape != (n,):
        ctx.violate("not-numbers", "%s returned shape %s, expected %s" % (what, v.shape, (n,)))
    if not np.isfinite(v).all():
        ctx.violate("not-numbers", "%s returned %s" % (what, v))
    return v


def same(ctx, got, want, tol, kind, what):
    d = np.abs(np.asarray(got, dtype=float) - np.asarray(want, dtype=float))
    if len(d) and d.max() > tol:
        i = int(d.argmax())
        ctx.violate(kind, "%s: entry %d is %.12g, true value %.12g (all: %s, true: %s)" %
                    (what, i, got[i], want[i], np.round(got, 8).tolist(), np.round(want, 8).tolist()))


def fired(w):
    return sum(w.fired.values())


def row(m, i):
    r = m.getrow(i) if hasattr(m, "getrow") else m[i]
    r = r.tocoo()
    return {int(j): float(v) for j, v in zip(r.col, r.data) if v != 0}


def check_reduction(ctx, model, ref, rf, cols, rows, tlabel="rf_target", flabel="rf_fail"):
    """The reachability form is the right one; returns the bijection kept state -> index."""
    kept = [s for s in range(ref.n) if ref.kept[s]]
    cols, rowmap = dict(cols), dict(rows)
    if sorted(cols) != kept or sorted(cols.values()) != list(range(len(kept))):
        ctx.violate("wrong-states", "kept states map as %s, should be a bijection from %s" % (cols, kept))
    pairs = {(s, a) for s, a, _ in model["choices"] if ref.kept[s]}
    if set(rowmap) != pairs:
        ctx.violate("wrong-actions", "state-action map %s, should cover %s" % (rowmap, sorted(pairs)))
    for (s, a), (t, b) in rowmap.items():
        if t != cols[s] or b != a:
            ctx.violate("wrong-actions", "(%s,%s) maps to (%s,%s) but state %s maps to %s" % (s, a, t, b, s, cols[s]))
    sysm = rf.system
    N, C = len(kept), len(pairs)
    if (sysm.C, sysm.N) != (C + 2, N + 2) or tuple(sysm.P.shape) != (C + 2, N + 2):
        ctx.violate("wrong-shape", "system has C=%s N=%s, expected %s %s" % (sysm.C, sysm.N, C + 2, N + 2))
    ib = dict(sysm.index_by_state_action)
    if sorted(ib.values()) != list(range(C + 2)) or ib.get((N, 0)) != C or ib.get((N + 1, 0)) != C + 1 or len(ib) != C + 2:
        ctx.violate("wrong-actions", "index_by_state_action is %s" % ib)
    rib = dict(rf.index_by_state_action)
    if rib != {k: v for k, v in ib.items() if v < C}:
        ctx.violate("wrong-actions", "the form's index_by_state_action is %s" % rib)
    if rf.initial != cols[ref.init]:
        ctx.violate("wrong-initial", "initial is %s, should be %s" % (rf.initial, cols[ref.init]))
    if row(sysm.P, C) != {N: 1.0} or row(sysm.P, C + 1) != {N + 1: 1.0}:
        ctx.violate("wrong-transitions", "target/fail rows are not self loops")
    tt = np.asarray(rf.to_target, dtype=float).ravel() if hasattr(rf, "to_target") else None
    for i, (s, a, tr) in enumerate(model["choices"]):
        if not ref.kept[s]:
            continue
        j = ib.get((cols[s], a))
        want, t = {}, 0.0
        if s in ref.targets:
            t = 1.0
        else:
            for d, p in tr:
                if ref.kept[d]:
                    want[cols[d]] = want.get(cols[d], 0.0) + p
        fail = 1 - t - sum(want.values())
        got = row(sysm.P, j)
        gt, gf = got.pop(N, 0.0), got.pop(N + 1, 0.0)
        if set(got) != set(want) or any(abs(got[d] - want[d]) > 1e-12 for d in want) or abs(gt - t) > 1e-12 or abs(gf - fail) > 1e-9:
            ctx.violate("wrong-transitions", "row of (%s,%s): %s target %s fail %s; expected %s target %s fail %s" % (s, a, got, gt, gf, want, t, fail))
        if tt is not None and abs(tt[j] - t) > 1e-12:
            ctx.violate("wrong-transitions", "to_target of (%s,%s) is %s" % (s, a, tt[j]))
        ident = row(rf.A, j) if not isinstance(rf.A, np.ndarray) else None
        if ident is not None:
            wa = {d: -p for d, p in want.items()}
            wa[cols[s]] = wa.get(cols[s], 0.0) + 1.0
            if any(abs(ident.get(d, 0.0) - wa.get(d, 0.0)) > 1e-12 for d in set(ident) | set(wa)):
                ctx.violate("wrong-transitions", "A row of (%s,%s) is %s, expected %s" % (s, a, ident, wa))
        if model["rewards"] is not None:
            if sysm.reward_vector is None or abs(sysm.reward_vector[j] - model["rewards"][i]) > 1e-12:
                ctx.violate("wrong-rewards", "reward of (%s,%s)" % (s, a))
    for l, ss in model["labels"].items():
        want = {cols[s] for s in ss if ref.kept[s]}
        if set(sysm.states_by_label[l]) != want:
            ctx.violate("wrong-labels", "label %s marks %s, expected %s" % (l, sorted(sysm.states_by_label[l]), sorted(want)))
    if set(sysm.states_by_label[tlabel]) != {N} or set(sysm.states_by_label[flabel]) != {N + 1}:
        ctx.violate("wrong-labels", "target/fail labels")
    for s in kept:
        want = {l for l, ss in model["labels"].items() if s in ss}
        if set(sysm.labels_by_state[cols[s]]) != want:
            ctx.violate("wrong-labels", "state %s has labels %s, expected %s" % (s, sysm.labels_by_state[cols[s]], want))
    if model["kind"] == "mdp":
        for l, ps in model["alabels"].items():
            want = {(cols[s], a) for s, a in ps if ref.kept[s]}
            if {tuple(x) for x in sysm.actions_by_label[l]} != want:
                ctx.violate("wrong-labels", "action label %s marks %s, expected %s" % (l, sysm.actions_by_label[l], want))
    return cols


def check_unchanged(ctx, model, system, what="the original model"):
    """The original model is as it was built."""
    for i, (s, a, tr) in enumerate(model["choices"]):
        if system.index_by_state_action.get((s, a)) != i or row(system.P, i) != {d: p for d, p in tr}:
            ctx.violate("model-changed", "%s: row of (%s,%s) changed" % (what, s, a))
    for l, ss in model["labels"].items():
        if set(system.states_by_label[l]) != set(ss):
            ctx.violate("model-changed", "%s: label %s changed" % (what, l))
    if model["rewards"] is not None and list(system.reward_vector) != list(model["rewards"]):
        ctx.violate("model-changed", "%s: rewards changed" % what)


SOLVER_PROGRAMS = {"cbc": "cbc", "glpk": "glpsol", "gurobi": "gurobi_cl"}


def named_solver(ctx, w, since, solver, what):
    """Only the solver that was asked for has been started (since: number of programs started before)."""
    other = [x["prog"] for x in w.spawns[since:] if x["prog"] in SOLVER_PROGRAMS.values() and x["prog"] != SOLVER_PROGRAMS[solver]]
    if other:
        ctx.violate("another-solver", "%s with solver %s started %s" % (what, solver, other))


def stopped(ctx, w, fn, *a, **k):
    """A call that may be interrupted at its source lines."""
    import worker
    return ctx.call(w.stoppable(fn, worker.SRC), *a, **k)


def crashable(ctx, w, fn, *a, **k):
    """A call that may be cut by a simulated crash: Res, or None if the process died (and has been restarted)."""
    import gc
    from world import SimCrash
    try:
        return stopped(ctx, w, fn, *a, **k)
    except SimCrash as e:
        e.__traceback__ = None
    gc.collect()
    w.revive()
    w.enospc_on = False
    return None


def crash_fault(rng, nw, nopen=None):
    """The process dies while (or just before/after) writing a file."""
    site = rng.choice(("write", "write", "write", "openw", "closew"))
    f = {"at": [site, rng.randrange(max(1, nw if site == "write" else nopen or nw))], "kind": "crash", "frac": round(rng.choice((rng.random(), 0.0, 1.0, 0.95)), 3)}
    if site == "write" and rng.random() < 0.2:
        f["zero"] = round(rng.random(), 3)
    return f


def line_fault(rng, lines):
    """Ctrl-C or a failing allocation before a source line, early ones more often."""
    return {"at": ["line", int(lines ** rng.random()) - 1], "kind": rng.choice(("interrupt", "memory"))}


INJECTED = (KeyboardInterrupt, MemoryError)


def equals_model(m, system, tol=0.0):
    """None if the real model is m (up to the order of rows), else what differs. Rewards and action labels aside.
    The numbers have to be the same ones: everything that is written in files is written with all its digits."""
    if system.N != m["n"] or system.C != len(m["choices"]):
        return "N=%s C=%s, expected %d %d" % (system.N, system.C, m["n"], len(m["choices"]))
    ib = dict(system.index_by_state_action)
    if set(ib) != {(s, a) for s, a, _ in m["choices"]} or sorted(ib.values()) != list(range(system.C)):
        return "state-action pairs %s" % ib
    for s, a, tr in m["choices"]:
        got, want = row(system.P, ib[(s, a)]), {d: p for d, p in tr}
        if set(got) != set(want) or any(abs(got[d] - want[d]) > tol + 4e-16 * abs(want[d]) for d in want):
            return "row of (%s,%s) is %s, expected %s" % (s, a, got, want)
    labels = set(m["labels"]) | set(system.states_by_label.keys())
    for l in labels:
        if set(system.states_by_label[l]) != set(m["labels"].get(l, ())):
            return "label %s marks %s, expected %s" % (l, sorted(system.states_by_label[l]), m["labels"].get(l, []))
    for s in range(m["n"]):
        want = {l for l in m["labels"] if s in m["labels"][l]}
        if set(system.labels_by_state[s]) != want:
            return "state %d has labels %s, expected %s" % (s, set(system.labels_by_state[s]), want)
    return None


def state_frequencies(A, gain, init, opt, idx, v):
    """How far v is from being, state by state, the total of an optimal flow (A: pairs x states, gain: per pair)."""
    from scipy.optimize import linprog
    C, N = A.shape
    d = np.zeros(N); d[init] = 1.0
    S = np.zeros((N, C))
    for (s, a), i in idx.items():
        if i < C:
            S[s, i] = 1.0
    scale = 1.0 + abs(v).sum()
    one = -np.ones((N, 1)) * scale
    M = np.vstack([np.hstack([A.T, one]), np.hstack([S, one]), np.hstack([-S, one]), np.hstack([-np.asarray(gain, dtype=float)[None, :], [[-scale * (1.0 + abs(opt))]]])])
    r = np.concatenate([d, v, -v, [-opt]])
    q = linprog(np.append(np.zeros(C), 1.0), M, r, bounds=[(0, None)] * (C + 1))
    return float(q.x[-1]) if q.status == 0 else None
