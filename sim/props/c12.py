import models
from common import *
from minim import *

KINDS = ("stall", "stall", "slow", "slow", "timeout", "timeout", "timeout_noinc", "iterlimit", "torn", "nofile", "signal", "missing")


def gen(rng, i, tier):
    rewards = rng.random() < 0.25
    m = models.gen(rng, rewards=rewards, proper_target=rewards, extra_labels=rng.choice((0, 0, 2)))
    ops = []
    for _ in range(rng.randint(1, 4)):
        meth = gen_method(rng) if not ops or rng.random() < 0.5 else dict(ops[-1]["method"])
        if meth["type"] == "QSHeur" and rng.random() < 0.8:
            meth["init"] = "AllOnesInitializer"
        ls = [l for l in m["labels"] if l.startswith("l")]
        lab = rng.sample(ls, rng.randint(1, len(ls))) if ls and rng.random() < 0.4 else None
        ops.append({"mode": rng.choice(("min", "max")), "thr": ["frac", round(rng.uniform(0.05, 0.97), 4)] if rng.random() < 0.8 else gen_threshold(rng),
                    "labels": lab, "how": rng.choice(("solve", "iter", "iter", "peek")),
                    "timeout": rng.choice((0, 1, 2, 7, 30, 60, 300, 601, 3600, 100000, None)), "method": meth})
    calls = sum(2 if o["method"]["type"] == "MILPExact" else o["method"]["iterations"] + 1 for o in ops)
    if not rewards and rng.random() < 0.12:
        ops[rng.randrange(len(ops))]["how"] = "bench"
    sc = {"model": m, "rewards": rewards, "ops": ops, "faults": faults(rng, calls, p_none=0.15, disk=0.04, kinds=KINDS),
          "solve_time": rng.choice(((0.01, 2.0), (0.01, 2.0), (0.5, 30.0), (0.5, 5000.0))),
          "styles": rng.choice((["plain"], ["plain", "alt", "mid"]))}
    return gen_second(rng, sc, rewards=rewards, proper_target=rewards)


def run(ctx, sc):
    m = sc["model"]
    with ctx.world() as w:
        fs, methods = forms(ctx, sc), {}
        form = fs[0]
        stats = []

        def request(o, healthy):
            form = fs[o.get("form", 0) % len(fs)]
            mode, lim = o["mode"], o["timeout"]
            thr = form.threshold(o["thr"], mode)
            v = form.value(mode)
            exact = o["method"]["type"] == "MILPExact"
            what = "%s %s thr=%.9g labels=%s timeout=%s" % (o["method"], mode, thr, o["labels"], lim)
            k0, f0, t0 = len(w.solves), fired(w), w.mono
            meth = method(methods, o["method"])
            kw = dict(labels=o["labels"], timeout=lim)
            out = []
            if o["how"] == "bench":         # the request goes through the benchmark module
                from switss.benchmarks import run
                r = ctx.call(run, form.rf, [meth], [mode], from_thr=max(thr, 1e-3), to_thr=max(thr, 1e-3), step=2.0, labels=o["labels"], timeout=lim)
            elif o["how"] == "solve":
                r = ctx.call(meth.solve, form.rf, thr, mode, **kw)
                if r.ok:
                    out.append(r.value)
            else:
                it = must(ctx, ctx.call(meth.solveiter, form.rf, thr, mode, **kw), what)
                while True:
                    r = ctx.call(next, it, None)
                    if not r.ok or r.value is None:
                        break
                    out.append(r.value)
                    if o["how"] == "peek":
                        it.close()
                        break
            took = (w.mono - t0) / 1e9
            faulty = fired(w) > f0 or w.enospc_on
            recs = w.solves[k0:]
            w.hang = False
            stats.append([x.status for x in out] + ([] if r.ok else ["raised"]) + [x["status"] for x in recs])
            ctx.note(*stats[-1])
            # which solver runs search for the witness, which compute bounds or weights
            weights = not exact and o["method"]["init"] != "AllOnesInitializer"
            aux = [x for x in recs if any(c < 0 for c in x["problem"].obj.values()) != x["problem"].maximize and any(x["problem"].obj.values())]
            search = [x for x in recs if x not in aux]
            if weights:
                # the weights come from queries without a limit of their own; each result needs one searching run at the end
                runs = 0 if not r.ok else len(out) if o["how"] != "solve" else min(1, len(out))
                search = recs[len(recs) - runs:] if runs and out[-1].status != "infeasible" else []
                aux = [x for x in recs if x not in search]
            for x in search:
                if x["solver"] != o["method"]["solver"]:
                    ctx.violate("another-solver", "%s: the search ran %s" % (what, x["solver"]))
                if x["limit"] != lim:
                    ctx.violate("wrong-limit", "%s: the solver (%s) was given the limit %s" % (what, x["solver"], x["limit"]))
            if not weights:
                for x in aux:
                    if x["limit"] is None or x["limit"] > 600:
                        ctx.violate("wrong-limit", "%s: the bound computation was given the limit %s" % (what, x["limit"]))
            if o["how"] == "bench":
                return
            most = 1 if exact else o["method"]["iterations"]
            if len(search) > most or (not weights and len(aux) > 1):
                ctx.violate("too-many-runs", "%s: %d searching and %d auxiliary solver runs" % (what, len(search), len(aux)))
            if lim is not None and not weights and took > most * lim + 600 + 1:
                ctx.violate("too-late", "%s took %.3f s of simulated time" % (what, took))
            if lim is not None and not weights and took > len(search) * lim + len(aux) * 600 + 1:
                ctx.violate("too-late", "%s took %.3f s of simulated time with %d searching and %d auxiliary runs" % (what, took, len(search), len(aux)))
            if not r.ok:
                if not faulty and not (exact and mode == "max" and form.ecs and o["method"]["solver"] != "gurobi" and isinstance(r.exc, AssertionError)):
                    must(ctx, r, what)
            if r.ok and not out:
                ctx.violate("no-result", "%s: no result" % what)
            # one searching run per result, in order
            if o["how"] == "solve":
                pairs = list(zip(out, search[-1:]))
            else:
                pairs = list(zip(out, search))
            for res, x in pairs:
                if x["status"] == "stopped" and res.status in ("success", "infeasible", "unbounded", "optimal"):
                    ctx.violate("limit-not-reported", "%s: the solver was stopped, the result says %s" % (what, res.status))
                if res.status == "infeasible" and x["status"] != "infeasible":
                    ctx.violate("limit-not-reported", "%s: the solver said %s, the result says infeasible" % (what, x["status"]))
                if res.status == "success" and x["status"] != "optimal":
                    ctx.violate("limit-not-reported", "%s: the solver said %s, the result says success" % (what, x["status"]))
                if x["status"] == "optimal" and not x.get("damaged") and res.status != "success":
                    ctx.violate("lost-answer", "%s: the solver said optimal, the result says %s" % (what, res.status))
            if len(out) > len(recs if weights else search) and not (len(out) == 1 and out[0].status != "success"):
                ctx.violate("result-without-run", "%s: %d results from %d solver runs" % (what, len(out), len(search)))
            margin = 10 * form.tol(mode) * (1 + form.T)
            for k, res in enumerate(out):
                if res.status == "success":
                    judge_success(ctx, form, mode, thr, res, what + " result %d" % k, deep=False)
                elif res.status == "infeasible" and thr < v - margin:
                    ctx.violate("wrongly-infeasible", "%s: the whole system achieves %.9g" % (what, v))
                elif healthy and thr < v - margin and not faulty:
                    ctx.violate("affected", "%s: status %s after faults stopped" % (what, res.status))
        for o in sc["ops"]:
            request(o, False)
        heal(w)
        w.solve_time = (0.01, 0.5)
        request(sc["ops"][0], True)
        request(sc["ops"][-1], True)
        ctx.sig = ["c12", form.N, form.C, stats, sorted(w.fired)]
        ctx.nontrivial = form.N > 1
