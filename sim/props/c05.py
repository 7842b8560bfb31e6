import numpy as np
import models
from common import *
from minim import Form
from bounds import Bounds, SENSES


def gen(rng, i, tier):
    n = rng.randint(11, 25) if rng.random() < 0.05 else None
    m = models.gen(rng, n=n, ecs=rng.random() < 0.7, steps=40.0)
    ops = []
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        spec = ["above", rng.choice((1e-4, 2e-3, 0.01, 0.1, 1.0))] if r < 0.35 else ["below", rng.choice((1e-4, 2e-3, 0.01, 0.1, 1.0))] if r < 0.7 else \
            ["frac", round(rng.random(), 3)] if r < 0.82 else ["abs", rng.choice((0.0, 0.5, 1.0, 0.25))] if r < 0.92 else ["exact", 0]
        ops.append({"mode": rng.choice(("min", "max")), "sense": rng.choice(SENSES), "thr": spec, "solver": rng.choice(("cbc", "cbc", "cbc", "glpk", "glpk", "gurobi")),
                    "tol": rng.choice((None, None, None, 1e-4, 1e-3))})
    return {"model": m, "ops": ops, "faults": faults(rng, len(ops), p_none=0.45), "styles": rng.choice((["plain"], ["plain", "alt", "mid"], ["alt"]))}


def run(ctx, sc):
    from switss.certification import generate_farkas_certificate, check_farkas_certificate
    m = sc["model"]
    with ctx.world() as w:
        form = Form(ctx, m, False)
        B = Bounds(form)
        fan = max([len(tr) for c in form.sys.choices for _, tr, _, _ in c] + [int(np.abs(B.A).sum(0).max())]) + 2
        stats = []

        def request(o, healthy):
            mode, sense = o["mode"], o["sense"]
            thr = form.threshold(o["thr"], mode)
            tol = 1e-5 if o["tol"] is None else o["tol"]
            mar = B.margin(mode, sense, thr)
            what = "certificate for Pr%s %s %.9g (value %.9g, tol %g, %s)" % (mode, sense, thr, form.value(mode), tol, o["solver"])
            f0, k0, n0 = fired(w), len(w.solves), len(w.spawns)
            kw = {} if o["tol"] is None else {"tol": tol}
            r = ctx.call(generate_farkas_certificate, form.rf, mode, sense, thr, solver=o["solver"], **kw)
            named_solver(ctx, w, n0, o["solver"], what)
            faulty = not healthy and (fired(w) > f0 or w.enospc_on)
            if not r.ok:
                stats.append("raised")
                if not faulty:
                    must(ctx, r, what)
                return
            if r.value is None:
                stats.append("none")
                ctx.note(what, None)
                big = max([float(np.abs(s["answer"].x).max()) for s in w.solves[k0:] if "answer" in s and s["answer"].x is not None and len(s["answer"].x)] + [1.0])
                digits = 1e-7 if o["solver"] == "cbc" else 1e-5
                if not faulty and (mar > 1e-9 or mar >= 0 and len(sense) == 2) and big * digits * fan < tol / 2:
                    ctx.violate("no-certificate", "%s: the bound holds, but no certificate was returned" % what)
                return
            v = vector(ctx, r.value, B.dim(mode, sense), what)
            stats.append("cert")
            ctx.note(what, "certificate")
            err = B.error(mode, sense, tol)
            if mar < -err:
                ctx.violate("false-certificate", "%s: certificate %s for a bound that is wrong by %.3g" % (what, v, -mar))
            if not B.fixed_ok(mode, sense, v) or (v < -2 * tol).any() or B.violation(mode, sense, thr, v) > 2 * tol:
                ctx.violate("bad-certificate", "%s: %s violates the conditions by %.3g" % (what, v, B.violation(mode, sense, thr, v)))
            c = ctx.call(check_farkas_certificate, form.rf, mode, sense, thr, r.value, tol=tol)
            if not bool(must(ctx, c, "check of " + what)):
                ctx.violate("rejected-own", "%s: the library's check rejects it" % what)
        for o in sc["ops"]:
            request(o, False)
        heal(w)
        request(sc["ops"][0], True)
        request(sc["ops"][-1], True)
        check_unchanged(ctx, m, form.model)
        ctx.sig = ["c05", form.N, form.C, [(o["mode"], o["sense"]) for o in sc["ops"]], stats, sorted(w.fired)]
        ctx.nontrivial = form.N > 1
