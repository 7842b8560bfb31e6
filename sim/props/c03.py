import models
from common import *
from minim import *


def gen(rng, i, tier):
    rewards = rng.random() < 0.25
    meth = gen_method(rng)
    big = rng.random() < 0.04
    m = models.gen(rng, n=rng.randint(11, 22) if big else None, rewards=rewards or rng.random() < 0.1, proper_target=rewards, extra_labels=rng.choice((0, 2, 3)))
    ops = []
    for _ in range(rng.randint(1, 3)):
        lab = None
        ls = [l for l in m["labels"] if l.startswith("l")]
        if ls and rng.random() < 0.5:
            lab = rng.sample(ls, rng.randint(1, len(ls)))
        ops.append({"mode": rng.choice(("min", "max")), "thr": gen_threshold(rng), "labels": lab, "iter": rng.random() < 0.6,
                    "timeout": rng.choice((None, None, 10, 100)), "method": meth if rng.random() < 0.7 else gen_method(rng)})
    calls = sum(1 if o["method"]["type"] == "MILPExact" else o["method"]["iterations"] + 2 for o in ops) + 1
    sc = {"model": m, "rewards": rewards, "ops": ops, "faults": faults(rng, calls, p_none=0.35),
          "styles": rng.choice((["plain"], ["plain", "alt", "mid"], ["alt"]))}
    return gen_second(rng, sc, rewards=rewards, proper_target=rewards)


def run(ctx, sc):
    m = sc["model"]
    with ctx.world() as w:
        fs, methods = forms(ctx, sc), {}
        form = fs[0]
        stats = []

        def request(o, healthy):
            form = fs[o.get("form", 0) % len(fs)]
            mode = o["mode"]
            thr = form.threshold(o["thr"], mode)
            v = form.value(mode)
            what = "%s %s thr=%.9g labels=%s" % (o["method"], mode, thr, o["labels"])
            exact_ec = o["method"]["type"] == "MILPExact" and mode == "max" and form.ecs and o["method"]["solver"] != "gurobi"
            before, f0 = w.mono, fired(w)
            meth = method(methods, o["method"])
            kw = dict(labels=o["labels"], timeout=o["timeout"])
            out = []
            if o["iter"]:
                r = ctx.call(meth.solveiter, form.rf, thr, mode, **kw)
                it = must(ctx, r, what)
                while True:
                    r = ctx.call(next, it, None)
                    if not r.ok or r.value is None:
                        break
                    out.append(r.value)
            else:
                r = ctx.call(meth.solve, form.rf, thr, mode, **kw)
                if r.ok:
                    out.append(r.value)
            faulty = fired(w) > f0 or w.enospc_on
            stats.append([x.status for x in out] + ([] if r.ok else ["raised"]))
            ctx.note(*stats[-1])
            if not r.ok:
                if not faulty and not (exact_ec and isinstance(r.exc, AssertionError)):
                    must(ctx, r, what)
            if not out and r.ok:
                ctx.violate("no-result", "%s: no result at all" % what)
            margin = 10 * form.tol(mode) * (1 + form.T)
            for k, res in enumerate(out):
                if res.status == "success":
                    judge_success(ctx, form, mode, thr, res, what + " result %d" % k)
                    if thr > v + margin:
                        ctx.violate("impossible-success", "%s: success although the whole system achieves only %.9g" % (what, v))
                else:
                    if res.subsystem is not None or res.farkas_cert is not None:
                        ctx.violate("bogus-result", "%s: status %s but it carries a subsystem" % (what, res.status))
                    if res.status == "infeasible" and thr < v - margin:
                        ctx.violate("wrongly-infeasible", "%s: reported infeasible, the whole system achieves %.9g" % (what, v))
                    if not faulty and thr < v - margin:
                        ctx.violate("unsolved", "%s: status %s without any fault, the whole system achieves %.9g" % (what, res.status, v))
            if r.ok and not faulty and o["method"]["type"] == "QSHeur" and o["iter"] and thr < v - margin and len(out) != o["method"]["iterations"]:
                ctx.violate("missing-results", "%s: %d results" % (what, len(out)))
        for o in sc["ops"]:
            request(o, False)
        heal(w)
        request(sc["ops"][0], True)
        for f in fs:
            check_unchanged(ctx, f.m, f.model)
        ctx.sig = ["c03", form.N, form.C, stats, sorted(w.fired)]
        ctx.nontrivial = form.N > 1
