import models, oracle
from common import *
from minim import *


def gen(rng, i, tier):
    rewards = rng.random() < 0.25
    n = rng.randint(2, 7) if rng.random() < 0.9 or tier == "quick" else 8
    m = models.gen(rng, n=n, rewards=rewards, proper_target=rewards, ecs=rng.random() < 0.4, extra_labels=rng.choice((0, 2, 3, 4)),
                   steps=30.0, unreachable=False)
    ops = []
    ls = [l for l in m["labels"] if l.startswith("l")]
    for _ in range(rng.randint(1, 3)):
        lab = rng.sample(ls, rng.randint(1, len(ls))) if ls and rng.random() < 0.5 else None
        # the threshold sits next to the value of a random subsystem, or between two
        ops.append({"mode": rng.choice(("min", "max")), "solver": rng.choice(SOLVERS), "labels": lab,
                    "at": round(rng.random(), 4), "off": rng.choice((-1e-3, 1e-3, -0.01, 0.01, None)), "timeout": rng.choice((None, None, 60))})
    sc = {"model": m, "rewards": rewards, "ops": ops, "faults": faults(rng, 2 * len(ops), p_none=0.45),
          "styles": rng.choice((["plain"], ["plain", "alt"], ["alt"]))}
    return gen_second(rng, sc, n=rng.randint(2, 6), rewards=rewards, proper_target=rewards, ecs=rng.random() < 0.4, steps=30.0, unreachable=False)


def run(ctx, sc):
    import switss.problem as P
    m = sc["model"]
    with ctx.world() as w:
        fs, methods = forms(ctx, sc), {}
        table = {}

        def values(form, mode):
            key, n = (fs.index(form), mode), form.N
            if key not in table:
                table[key] = [(form.value(mode, [bool((b >> k) & 1) for k in range(n)]), b) for b in range(1 << n)]
            return table[key]

        def cost(form, labels):
            if labels is None:
                return lambda b: bin(b).count("1")
            sets = [sum(1 << s for s in form.labels_of(l)) for l in labels]
            return lambda b: sum(1 for x in sets if x & b)
        stats = []

        def request(o, healthy):
            mode = o["mode"]
            form = fs[o.get("form", 0) % len(fs)]
            n = form.N
            vs = values(form, mode)
            scale = form.scale(mode)
            uniq = sorted({round(v, 9) for v, _ in vs})
            k = min(len(uniq) - 1, int(o["at"] * len(uniq)))
            if o["off"] is None:
                thr = (uniq[k] + uniq[k - 1]) / 2 if k else uniq[0] + 0.01
            else:
                thr = uniq[k] + o["off"] * scale
            thr = max(0.0, thr if form.rewards else min(1.0, thr))
            eps = max(form.tol(mode) * (1 + form.T), 1e-5 * scale)
            c = cost(form, o["labels"])
            lo = min((c(b) for v, b in vs if v >= thr - eps), default=None)
            hi = min((c(b) for v, b in vs if v >= thr + eps or thr == 0), default=None)
            what = "exact(%s) %s thr=%.9g labels=%s" % (o["solver"], mode, thr, o["labels"])
            f0 = fired(w)
            r = ctx.call(method(methods, {"type": "MILPExact", "solver": o["solver"]}).solve, form.rf, thr, mode, labels=o["labels"], timeout=o["timeout"])
            faulty = not healthy and (fired(w) > f0 or w.enospc_on)
            if not r.ok:
                stats.append("raised")
                if not faulty and not (mode == "max" and form.ecs and o["solver"] != "gurobi" and isinstance(r.exc, AssertionError)):
                    must(ctx, r, what)
                return
            res = r.value
            stats.append(res.status)
            if res.status == "success":
                mask = judge_success(ctx, form, mode, thr, res, what, deep=False)
                b = sum(1 << k for k in range(n) if mask[k])
                val = float(res.value)
                if abs(val - c(b)) > 1e-6:
                    ctx.violate("wrong-size", "%s: value %.9g but the returned subsystem %s costs %d" % (what, val, [k for k in range(n) if mask[k]], c(b)))
                if lo is None:
                    ctx.violate("impossible-success", "%s: no subsystem reaches the threshold" % what)
                if hi is not None and c(b) > hi:
                    ctx.violate("not-minimal", "%s: %d reported as minimum, but %d suffice" % (what, c(b), hi))
                if c(b) < lo:
                    ctx.violate("not-a-witness", "%s: %d reported, but at least %d are needed" % (what, c(b), lo))
            elif res.status == "infeasible":
                if hi is not None:
                    ctx.violate("wrongly-infeasible", "%s: reported infeasible, but there is a witness of size %d" % (what, hi))
            elif not faulty and not (hi is None and o["solver"] == "gurobi" and w.solves[-1]["status"] == "inf_or_unbd") and \
                    not (hi is None and o["solver"] == "glpk" and o["labels"] is not None and
                                     not any(form.labels_of(l) for l in o["labels"])):
                # (glpsol calls an infeasible problem without integer variables "undefined")
                ctx.violate("unsolved", "%s: status %s without any fault (minimum %s..%s)" % (what, res.status, lo, hi))
            ctx.note(what, res.status, None if res.value is None else round(float(res.value), 6))
        for o in sc["ops"]:
            request(o, False)
        heal(w)
        request(sc["ops"][-1], True)
        n = fs[0].N
        ctx.sig = ["c04", n, fs[0].C, stats, sorted(w.fired)]
        ctx.nontrivial = n > 1 and stats != ["infeasible"] * len(stats)
