import itertools
import os
import models
import sched_
from rng import digest
from common import *
from minim import *
from bounds import Bounds, SENSES

LAST = {}


def gen_op(rng, m, rewards, ls, pool):
    k = rng.choice(("query", "query", "iter", "iter", "solve", "cert", "fark", "subsys", "subsys", "labels", "mecs", "reduce", "save", "draw", "walk"))
    if rewards and k == "cert":
        k = "query"
    o = {"op": k}
    if k in ("query", "iter", "solve", "cert", "fark"):
        o["mode"], o["solver"] = rng.choice(("min", "max")), rng.choice(("cbc", "cbc", "glpk"))
    if k in ("iter", "solve"):
        o["thr"] = gen_threshold(rng)
        o["labels"] = rng.sample(ls, rng.randint(1, len(ls))) if ls and rng.random() < 0.4 else None
        o["method"] = dict(gen_method(rng, exact=rng.random() < 0.3), solver=o["solver"])
        o["shared"] = rng.random() < 0.6
        if o["shared"] and rng.random() < 0.8:
            o["method"] = dict(rng.choice(pool))
            o["solver"] = o["method"]["solver"]
        if k == "iter" and rng.random() < 0.2:
            o["abandon"] = 1
    if k == "cert":
        o["thr"], o["sense"] = [rng.choice(("above", "below")), rng.choice((0.02, 0.1, 0.5))], rng.choice(SENSES)
    if k == "fark":
        o["at"] = round(rng.uniform(0.05, 0.95), 3)
    if k == "query":
        o["what"] = rng.choice(("value", "value", "value", "z_state", "z_action"))
    if k in ("query", "fark", "cert") and rng.random() < 0.5:
        o["keep"] = False       # this user goes on calculating with the array it got
    if k == "walk":
        o["state"], o["dir"] = rng.randrange(m["n"]), rng.choice(("successors", "predecessors"))
    return o


def gen(rng, i, tier):
    rewards = rng.random() < 0.2
    m = models.gen(rng, n=rng.randint(3, 7), rewards=rewards, proper_target=rewards, extra_labels=rng.choice((0, 2, 3)), steps=30.0)
    ls = [l for l in m["labels"] if l.startswith("l")]
    same = rng.random() < 0.4       # the same request by everybody meets at the same lazily built parts
    pool = [dict(gen_method(rng, exact=rng.random() < 0.3), solver=rng.choice(("cbc", "cbc", "glpk"))) for _ in range(rng.choice((1, 1, 2)))]
    first = gen_op(rng, m, rewards, ls, pool)
    users = []
    for _ in range(rng.choice((2, 2, 2, 3, 4))):
        ops = [gen_op(rng, m, rewards, ls, pool) for _ in range(rng.choice((1, 1, 2, 3)))]
        if same:
            o = dict(first)
            if "thr" in o and rng.random() < 0.7:
                o["thr"] = gen_threshold(rng)
                if o["op"] == "cert":
                    o["thr"] = [rng.choice(("above", "below")), rng.choice((0.02, 0.1, 0.5))]
            if "at" in o:
                o["at"] = round(rng.uniform(0.05, 0.95), 3)
            ops = [o] + ops[1:]
        users.append(ops)
    iters = rng.random() < 0.25     # everybody steps through the results of one method object
    if iters:
        meth = dict(gen_method(rng, exact=False), solver=rng.choice(("cbc", "cbc", "glpk")))
        meth["iterations"] = max(2, meth["iterations"])
        for ops in users:
            ops[0] = {"op": "iter", "mode": rng.choice(("min", "max")), "solver": meth["solver"], "thr": gen_threshold(rng), "method": dict(meth), "shared": True,
                      "labels": rng.sample(ls, rng.randint(1, len(ls))) if ls and rng.random() < 0.4 else None}
    r = rng.random()
    if r < 0.5 or iters:
        plan = {"rate": rng.choice((0.003, 0.02, 0.1, 0.5)), "seed": rng.getrandbits(40)}
    else:
        top = rng.choice((60, 400, 2500))
        plan = {"points": sorted([rng.randrange(top), rng.randrange(4)] for _ in range(rng.choice((1, 2, 3, 5))))}
    calls = sum(len(u) for u in users) * 2
    return {"model": m, "rewards": rewards, "users": users, "plan": plan, "witness": rng.choice(("min", "max")),
            "faults": faults(rng, calls, p_none=0.9 if iters else 0.65, disk=0.0), "styles": ["plain"] if iters and rng.random() < 0.8 else rng.choice((["plain"], ["plain", "alt", "mid"]))}


def valid(sc):
    return len(sc["users"]) >= 1 and all(o.get("state", 0) < sc["model"]["n"] for u in sc["users"] for o in u)


def shrinks(sc):
    import copy
    if "rate" in sc["plan"]:
        rec = LAST.get(digest(sc))
        if rec is not None:
            c = copy.deepcopy(sc)
            c["plan"] = {"points": rec}
            yield c
    else:
        ps = sc["plan"]["points"]
        step = max(1, len(ps) // 2)
        while step >= 1:
            for a in range(0, len(ps), step):
                c = copy.deepcopy(sc)
                del c["plan"]["points"][a:a + step]
                yield c
            if step == 1:
                break
            step //= 2
    for a in range(len(sc.get("stops", ()))):
        c = copy.deepcopy(sc)
        del c["stops"][a]
        yield c
    for u in range(len(sc["users"])):
        if len(sc["users"]) > 2 and "stops" not in sc:
            c = copy.deepcopy(sc)
            del c["users"][u]
            yield c
        for k in range(len(sc["users"][u])):
            if len(sc["users"][u]) > 1:
                c = copy.deepcopy(sc)
                del c["users"][u][k]
                yield c


def short(res):
    if res.status != "success":
        return (res.status,)
    return (res.status, round(float(res.value), 6), [round(float(x), 6) for x in res.farkas_cert], [bool(x) for x in res.subsystem.subsystem_mask])


def run(ctx, sc):
    from switss.model import DTMC, MDP, ReachabilityForm, RewardReachabilityForm
    from switss.certification import generate_farkas_certificate, check_farkas_certificate
    from switss.problem import Subsystem
    import worker
    m = sc["model"]
    LAST.clear()
    key = digest(sc)
    stats = []
    with ctx.world() as w:
        alone = Form(ctx, m, sc["rewards"])       # what everybody would see alone
        form = Form(ctx, m, sc["rewards"])        # shared, fresh
        B = None if sc["rewards"] else Bounds(form)
        fan = max([len(tr) for c in form.sys.choices for _, tr, _, _ in c] + ([int(np.abs(B.A).sum(0).max())] if B else [])) + 2
        nz = len(form.cols)
        # a shared witness: the whole system as marked by a certificate of ones
        cert = np.array([1.0 if i % 3 or i == form.sys.init else 0.0 for i in range(form.N if sc["witness"] == "min" else form.C)])
        wit = must(ctx, ctx.call(Subsystem, form.rf, cert, sc["witness"], ignore_consistency_checks=True), "witness")
        wmask = mask_of(form, sc["witness"], cert)
        shared = {}
        answers = []

        def user(u):
            def body():
                for k, o in enumerate(sc["users"][u]):
                    act(u, k, o)
            return body

        def use(o, value):
            if not o.get("keep", True) and isinstance(value, np.ndarray) and value.flags.writeable and value.dtype.kind == "f":
                value *= 0.25
                value += 7.0

        def act(u, k, o):
            op, what = o["op"], "user %d operation %d: %s" % (u, k, o)
            sc_ = w.sched
            stops = {x: kind for (uu, kk, x, kind) in sc.get("stops", ()) if (uu, kk) == (u, k)} if sc_ is not None else {}
            f0 = sc_.fires[u] if sc_ is not None else fired(w)

            def faulty():
                return (sc_.fires[u] if sc_ is not None else fired(w)) > f0

            def req(f, *a, **kw):
                """A request of this user; it may be interrupted."""
                if sc_ is None:
                    return ctx.call(f, *a, **kw)
                sc_.arm(stops)
                try:
                    return ctx.call(f, *a, **kw)
                finally:
                    sc_.disarm()
                    if stops:       # counted over all requests of the operation
                        n = sc_.armed_steps
                        for x in sorted(stops):
                            v = stops.pop(x)
                            if x >= n:
                                stops[x - n] = v

            def need(r):
                if not r.ok and not faulty():
                    ctx.violate("disturbed", "%s failed: %r at %s" % (what, r, r.where()))
                return r.ok
            rf = form.rf
            if op == "query":
                mode = o["mode"]
                if o["what"] == "value":
                    f = (rf.rew_min if mode == "min" else rf.rew_max) if sc["rewards"] else (rf.pr_min if mode == "min" else rf.pr_max)
                elif o["what"] == "z_state" or sc["rewards"]:
                    f, mode = rf.max_z_state, "min"
                else:
                    f = rf.max_z_state_action
                r = req(f, solver=o["solver"])
                if need(r):
                    if o["what"] == "z_action" and not sc["rewards"]:
                        vector(ctx, r.value, form.C, what)
                        use(o, r.value)
                        return
                    got = vector(ctx, r.value, form.N, what)
                    if o["what"] == "value" or not form.ecs:
                        true = (form.sys.rew if sc["rewards"] else form.sys.pr)(mode)
                        same(ctx, got, true, form.tol(mode) * (1 if o["solver"] == "cbc" else 10), "disturbed", what)
                    use(o, r.value)
                    stats.append("value")
            elif op in ("iter", "solve"):
                mode, thr = o["mode"], form.threshold(o["thr"], o["mode"])
                v, margin = form.value(o["mode"]), 20 * form.tol(o["mode"]) * (1 + form.T)
                if o["shared"]:
                    meth = shared.setdefault(str(o["method"]), make_method(o["method"]))
                else:
                    meth = make_method(o["method"])
                exact_ec = o["method"]["type"] == "MILPExact" and mode == "max" and form.ecs
                out, r = [], None
                if op == "solve":
                    r = req(meth.solve, rf, thr, mode, labels=o["labels"])
                    if r.ok:
                        out.append(r.value)
                else:
                    it = req(meth.solveiter, rf, thr, mode, labels=o["labels"]).value
                    while it is not None:
                        r = req(next, it, None)
                        if not r.ok or r.value is None:
                            break
                        out.append(r.value)
                        if o.get("abandon"):
                            it.close()
                            break
                        if w.sched is not None:
                            w.sched.point("between results")
                if r is not None and (r.ok or exact_ec) and not faulty():
                    answers.append((what, o, thr, r.ok, out))
                if r is None or not r.ok:
                    if not (r is not None and exact_ec and isinstance(r.exc, AssertionError)):
                        need(r or req(meth.solveiter, rf, thr, mode, labels=o["labels"]))
                    return
                for j, res in enumerate(out):
                    stats.append(res.status)
                    if res.status == "success":
                        judge_success(ctx, form, mode, thr, res, "%s result %d" % (what, j), deep=False)
                        if thr > v + margin:
                            ctx.violate("disturbed", "%s: success although the system achieves only %.9g" % (what, v))
                    elif res.status == "infeasible" and thr < v - margin:
                        ctx.violate("disturbed", "%s: infeasible although the system achieves %.9g" % (what, v))
                    elif not faulty() and thr < v - margin:
                        ctx.violate("disturbed", "%s: status %s" % (what, res.status))
                if op == "iter" and not o.get("abandon") and not faulty() and thr < v - margin and o["method"]["type"] == "QSHeur" and len(out) != o["method"]["iterations"]:
                    ctx.violate("disturbed", "%s: %d results" % (what, len(out)))
            elif op == "cert":
                mode, sense, thr = o["mode"], o["sense"], form.threshold(o["thr"], o["mode"])
                r = req(generate_farkas_certificate, rf, mode, sense, thr, tol=1e-5, solver=o["solver"])
                if not need(r):
                    return
                mar = B.margin(mode, sense, thr)
                if r.value is None:
                    mine = [x for x in w.solves if x.get("user") == u]
                    big = max([float(np.abs(x["answer"].x).max()) for x in mine[-1:] if "answer" in x and x["answer"].x is not None and len(x["answer"].x)] + [1.0])
                    if not faulty() and mar > 1e-3 and big * (1e-7 if o["solver"] == "cbc" else 1e-5) * fan < 5e-6:
                        ctx.violate("disturbed", "%s: the bound holds, but no certificate was returned" % what)
                    return
                v = vector(ctx, r.value, B.dim(mode, sense), what)
                if mar < -B.error(mode, sense, 1e-5) or B.violation(mode, sense, thr, v) > 2e-5:
                    ctx.violate("disturbed", "%s: certificate %s for threshold %.9g (value %.9g)" % (what, v, thr, form.value(mode)))
                c = req(check_farkas_certificate, rf, mode, sense, thr, r.value, tol=1e-5)
                if need(c) and not bool(c.value):
                    ctx.violate("disturbed", "%s: the check rejects it" % what)
                use(o, r.value)
                stats.append("cert")
            elif op == "fark":
                top = form.scale(o["mode"]) if sc["rewards"] else 1.0
                r = req(rf.fark_constraints, o["at"] * top, o["mode"])
                if not need(r):
                    return
                if w.sched is not None:
                    w.sched.point("between results")
                M, rhs = r.value
                M2, rhs2 = alone.rf.fark_constraints(o["at"] * top, o["mode"])
                M, M2 = np.asarray(M.todense()), np.asarray(M2.todense())
                if M.shape != M2.shape or (M != M2).any() or list(np.ravel(rhs)) != list(np.ravel(rhs2)):
                    ctx.violate("disturbed", "%s: constraints %s %s, alone %s %s" % (what, M.tolist(), list(np.ravel(rhs)), M2.tolist(), list(np.ravel(rhs2))))
                use(o, rhs)
                stats.append("fark")
            elif op == "subsys":
                r = req(lambda: wit.subsystem_mask)
                if need(r) and [bool(x) for x in r.value] != wmask:
                    ctx.violate("disturbed", "%s: mask %s, expected %s" % (what, list(r.value), wmask))
                if wmask[form.sys.init]:
                    r = req(lambda: wit.subsys)
                    if need(r):
                        check_restriction(ctx, form, wmask, r.value, what)
                stats.append("subsys")
            elif op == "labels":
                for sysm, mm, ren in ((form.model, m, None), (rf.system, m, form.cols)):
                    r = req(lambda: ({l: set(sysm.states_by_label[l]) for l in mm["labels"]}, [set(sysm.labels_by_state[s]) for s in range(sysm.N)],
                                          [set(sysm.actions_by_state[s]) for s in range(sysm.N)], {c: set(sysm.labels_by_action[c]) for c in dict(sysm.index_by_state_action)}))
                    if not need(r):
                        continue
                    sl, ls, ac, la = r.value
                    f = (lambda s: s) if ren is None else ren.get
                    for l, ss in mm["labels"].items():
                        want = {f(s) for s in ss} - {None}
                        if sl[l] != want or {s for s in range(sysm.N) if l in ls[s]} != want:
                            ctx.violate("disturbed", "%s: label %s marks %s / %s, expected %s" % (what, l, sl[l], {s for s in range(sysm.N) if l in ls[s]}, want))
                    acts = {}
                    for (s, a) in dict(sysm.index_by_state_action):
                        acts.setdefault(s, set()).add(a)
                    if [acts.get(s) for s in range(sysm.N)] != ac:
                        ctx.violate("disturbed", "%s: actions by state %s, expected %s" % (what, ac, acts))
                    if m["kind"] == "mdp":
                        for l, ps in mm["alabels"].items():
                            want = {(f(s), a) for s, a in ps if f(s) is not None}
                            if {c for c in la if l in la[c]} != want:
                                ctx.violate("disturbed", "%s: action label %s" % (what, l))
                stats.append("labels")
            elif op == "mecs":
                r = req(lambda: form.model.maximal_end_components())
                if need(r):
                    ids, proper, count = r.value
                    ids2, proper2, count2 = alone.model.maximal_end_components()
                    g, g2 = {}, {}
                    for s in range(m["n"]):
                        g.setdefault(int(ids[s]), set()).add(s)
                        g2.setdefault(int(ids2[s]), set()).add(s)
                    a = sorted((sorted(x), bool(proper[c])) for c, x in g.items())
                    if a != sorted((sorted(x), bool(proper2[c])) for c, x in g2.items()) or count != count2:
                        ctx.violate("disturbed", "%s: components %s" % (what, a))
                r = req(lambda: [bool(rf.in_proper_ec(s)) for s in range(form.N)])
                if need(r) and [s for s in range(form.N) if r.value[s]] != sorted(form.ecs):
                    ctx.violate("disturbed", "%s: in proper end components: %s, expected %s" % (what, r.value, sorted(form.ecs)))
                stats.append("mecs")
            elif op == "reduce":
                cls = RewardReachabilityForm if sc["rewards"] else ReachabilityForm
                r = req(cls.reduce, form.model, "init", "target")
                if need(r):
                    rf2, cols, rows = r.value
                    check_reduction(ctx, m, form.ref, rf2, cols, rows)
                stats.append("reduce")
            elif op == "save":
                path = os.path.join(w.scratch, "m%d_%d" % (u, k))
                if need(req(form.model.save, path)):
                    cls = DTMC if m["kind"] == "dtmc" else MDP
                    r = req(cls.from_file, path + ".lab", path + ".tra")
                    if need(r):
                        bad = equals_model(m, r.value)
                        if bad:
                            ctx.violate("disturbed", "%s: %s" % (what, bad))
                stats.append("save")
            elif op == "draw":
                r = req(lambda: (form.model.digraph().source, rf.system.digraph().source))
                if need(r):
                    want = (alone.model.digraph().source, alone.rf.system.digraph().source)
                    if r.value != want:
                        ctx.violate("disturbed", "%s: picture %s, alone %s" % (what, r.value, want))
                stats.append("draw")
            elif op == "walk":
                r = req(lambda: [tuple(x) for x in getattr(form.model, o["dir"])(o["state"])])
                if need(r):
                    want = sorted((d if o["dir"] == "successors" else s, a, p) for s, a, tr in m["choices"] for d, p in tr
                                  if (s if o["dir"] == "successors" else d) == o["state"])
                    got = sorted((int(x[0]), int(x[1]), float(x[2])) for x in r.value)
                    if [x[:2] for x in got] != [x[:2] for x in want] or any(abs(x[2] - y[2]) > 1e-8 for x, y in zip(got, want)):
                        ctx.violate("disturbed", "%s: %s, expected %s" % (what, r.value, want))
                stats.append("walk")

        sch = sched_.Sched(w, sc["plan"], worker.SRC)
        orig = w.printed if hasattr(w, "printed") else None
        w.printed = lambda rec, a: rec.__setitem__("user", sch.cur)
        try:
            res = sch.run([user(u) for u in range(len(sc["users"]))])
        finally:
            if sch.rate is not None:
                LAST[key] = sorted(sch.recorded)
        for u, e in enumerate(res):
            if e is not None:
                raise e
        # a solver that answers equal problems equally gives everybody the very results he would get alone
        if sc["styles"] == ["plain"] and fired(w) == sch.interrupted:
            w.sched = None
            heal(w)
            for what, o, thr, ok, out in answers:
                meth, want = make_method(o["method"]), []
                if o["op"] == "solve":
                    r = ctx.call(meth.solve, alone.rf, thr, o["mode"], labels=o["labels"])
                    want = [r.value] if r.ok else []
                else:
                    r = ctx.call(lambda: list(itertools.islice(meth.solveiter(alone.rf, thr, o["mode"], labels=o["labels"]), 1 if o.get("abandon") else None)))
                    want = r.value if r.ok else out
                a, b = [short(x) for x in out], [short(x) for x in want]
                if r.ok != ok or a != b:
                    ctx.violate("disturbed", "%s (%s): results %s, alone %s" % (what, o, a, b if r.ok else r.exc))
                stats.append("as alone")
        w.ev("schedule", sch.step, sch.switches, digest(sch.trace))
        w.probes["switches"] = sch.switches
        w.probes["preemption_opportunities"] = sch.step
        if sch.switches > len(sc["users"]):
            w.fire("preempted")
        # alone again, without faults
        heal(w)
        w.hang = False
        for u, ops in enumerate(sc["users"]):
            for k, o in enumerate(ops):
                if (u, k) == (0, 0) or "stops" in sc:
                    act(u, k, o)
        check_unchanged(ctx, m, form.model)
        ctx.sig = ["c11", [[o["op"] for o in u] for u in sc["users"]], stats, digest(sch.trace)]
        w.probes["interrupted"] = sch.interrupted
        ctx.nontrivial = sch.interrupted > 0 if "stops" in sc else sch.switches > len(sc["users"])
