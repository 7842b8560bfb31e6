"""Stand-in solvers against the real ones (driver.py fidelity N): the same random problem goes through switss' front end to
the real cbc/glpsol of this machine and to the stand-ins; what arrives must agree.  Not part of any check: the real
programs are outside the simulator's control."""
import os, shutil
import numpy as np
import models
from common import *
from minim import Form, make_method
import c15


def gen(rng, i, tier):
    if i % 3 == 2:
        m = models.gen(rng, n=rng.randint(3, 7))
        return {"model": m, "mode": rng.choice(("min", "max")), "solver": rng.choice(("cbc", "glpk")), "thr": round(rng.uniform(0.05, 0.95), 3)}
    k, c = rng.randint(1, 6), rng.randint(1, 5)
    return {"A": [[c15.num(rng) if rng.random() < 0.7 else 0.0 for _ in range(k)] for _ in range(c)], "b": [float(rng.randint(-2, 9)) for _ in range(c)],
            "opt": [c15.num(rng) for _ in range(k)], "vars": [c15.var(rng) for _ in range(k)], "sense": rng.choice(("<=", ">=", "=")),
            "dir": rng.choice(("min", "max")), "solver": rng.choice(("cbc", "glpk")), "lp": rng.random() < 0.4}


def shrinks(sc):
    return []


def run(ctx, sc):
    from switss.solver import MILP, LP
    if "model" in sc:
        def ask():
            form = Form(ctx, sc["model"], False)
            f = form.rf.pr_min if sc["mode"] == "min" else form.rf.pr_max
            r = ctx.call(make_method({"type": "MILPExact", "solver": sc["solver"]}).solve, form.rf, sc["thr"] * max(form.value(sc["mode"]), 0.01), sc["mode"])
            return (ctx.call(f, solver=sc["solver"]), r)
        real = ask()
        with ctx.world():
            sim = ask()
        for a, b in zip(real, sim):
            if a.ok != b.ok:
                ctx.violate("fidelity", "real %r, stand-in %r" % (a, b))
        if real[0].ok and np.abs(np.asarray(real[0].value) - np.asarray(sim[0].value)).max() > 2e-5:
            ctx.violate("fidelity", "values real %s stand-in %s" % (real[0].value, sim[0].value))
        if real[1].ok and (real[1].value.status != sim[1].value.status or real[1].value.status == "success" and abs(real[1].value.value - sim[1].value.value) > 0.01):
            ctx.violate("fidelity", "minimisation real %s %s stand-in %s %s" % (real[1].value.status, real[1].value.value, sim[1].value.status, sim[1].value.value))
        ctx.sig = ["model", sc["solver"], real[1].ok and real[1].value.status]
        return
    cls = LP if sc["lp"] else MILP
    dom = ["real" if sc["lp"] else v[0] for v in sc["vars"]]

    def ask():
        kw = dict(sense=sc["sense"], objective=sc["dir"])
        kw.update({} if sc["lp"] else {"domains": dom, "bounds": [(v[1], v[2]) for v in sc["vars"]]})
        return ctx.call(lambda: cls.from_coefficients(np.array(sc["A"]), np.array(sc["b"]), np.array(sc["opt"]), **kw).solve(solver=sc["solver"]))
    real = ask()
    with ctx.world():
        sim = ask()
    if real.ok != sim.ok:
        ctx.violate("fidelity", "real %r, stand-in %r" % (real, sim))
    if real.ok:
        a, b = real.value, sim.value
        if a.status != b.status or a.status == "optimal" and abs(a.value - b.value) > 1e-5 * (1 + abs(a.value)):
            ctx.violate("fidelity", "real %s %s %s, stand-in %s %s %s" % (a.status, a.value, a.result_vector, b.status, b.value, b.result_vector))
    ctx.sig = ["lp", sc["solver"], real.ok and real.value.status]
