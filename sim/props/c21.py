"""The scheme of the heuristic, watched through its own extension points: initialisers and updaters that record what they
are given and what they answer, next to what the simulated solver was asked."""
import copy
import numpy as np
import models
from common import *
from minim import *

BIG = 1e6          # the documentation only says that the weight of removed groups is large


def gen(rng, i, tier):
    rewards = rng.random() < 0.25
    m = models.gen(rng, rewards=rewards or rng.random() < 0.1, proper_target=rewards, extra_labels=rng.choice((0, 2, 3)))
    ls = [l for l in m["labels"] if l.startswith("l")]
    ops = []
    for _ in range(rng.randint(1, 3)):
        lab = rng.sample(ls, rng.randint(1, len(ls))) if ls and rng.random() < 0.5 else None
        ops.append({"mode": rng.choice(("min", "max")), "thr": gen_threshold(rng), "labels": lab, "iterations": rng.choice((1, 2, 3, 4)),
                    "solver": rng.choice(SOLVERS), "init": rng.choice(INITS + ("AllOnesInitializer", "AllOnesInitializer")), "upd": rng.choice(UPDS),
                    "weigh": [rng.random() < 0.4, rng.random() < 0.4, rng.randrange(1000)], "cap": rng.random() < 0.3, "timeout": rng.choice((None, None, 50)),
                    "stop": rng.choice((None, None, None, 1))})
        if len(ops) > 1 and rng.random() < 0.5:     # one method object serves several requests
            for key in ("iterations", "solver", "init", "upd"):
                ops[-1][key] = ops[-2][key]
    calls = sum(o["iterations"] + 2 for o in ops)
    sc = {"model": m, "rewards": rewards, "ops": ops, "faults": faults(rng, calls, p_none=0.5), "styles": rng.choice((["plain"], ["plain"], ["plain", "alt", "mid"]))}
    return gen_second(rng, sc, rewards=rewards, proper_target=rewards)


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1 + abs(b))


def recorder(name, cur):
    """cur holds the present request and its log: the class outlives a request."""
    from switss.problem import qsheurparams as Q
    base = getattr(Q, name)
    first = name in INITS

    class Recorder(base):
        def __init__(self, *a, **k):
            o, log = self.o, self.log = cur["o"], cur["log"]
            weigh, salt = o["weigh"][0 if first else 1], o["weigh"][2]
            g = k.get("indicator_to_group", a[2] if len(a) > 2 else None)
            self.wgt = {x: (1 + (7 * x + salt) % 5 * 0.5 if weigh and ("All" in name or not first) else 1) for x in g.keys()}
            if weigh and ("All" in name or not first):
                k["weights"] = dict(self.wgt)
            super().__init__(*a, **k)
            log["init" if first else "upd"] = self
            log["args"].append((k.get("reachability_form", a[0] if a else None), k.get("mode", a[1] if len(a) > 1 else None), {x: set(g[x]) for x in g.keys()}))

        if first:
            def initialize(self):
                r = super().initialize()
                log = self.log
                log["objectives"].append([(int(x), float(c)) for x, c in r])
                log["solves"].append(len(log["world"].solves))
                return r
        else:
            def update(self, last):
                before = np.array(last, dtype=float)
                r = super().update(last)
                log = self.log
                log["vectors"].append(before)
                log["touched"] |= not np.array_equal(before, np.asarray(last, dtype=float))
                log["objectives"].append([(int(x), float(c)) for x, c in r])
                return r

            def constraints(self, last):
                r = list(super().constraints(last))
                self.log["own"].append([([(int(x), float(c)) for x, c in l], s, float(b)) for l, s, b in r])
                if self.o["cap"]:       # nothing may grow again: always possible
                    r += [([(x, 1.0)], "<=", float(last[x]) + 1e-9) for x in sorted(self.wgt)]
                return r
    Recorder.__name__ = "Recording" + name
    return Recorder


def run(ctx, sc):
    from switss.problem import QSHeur
    m = sc["model"]
    with ctx.world() as w:
        fs = forms(ctx, sc)
        stats = []
        cur, methods = {}, {}

        def groups(o):
            form = fs[o.get("form", 0) % len(fs)]
            idx = dict(form.rf.system.index_by_state_action)
            D = form.N if o["mode"] == "min" else form.C
            if o["labels"] is None:
                return [{x} for x in range(D)]
            out = []
            for l in o["labels"]:
                S = form.labels_of(l)
                out.append(set(S) if o["mode"] == "min" else {i for (s, a), i in idx.items() if s in S})
            return out

        def first_weights(o, gr, wgt, vals):
            form = fs[o.get("form", 0) % len(fs)]
            """Documented initial weight of each group, None where the documentation leaves it open."""
            kind = o["init"]
            if kind == "AllOnesInitializer":
                return {g: (wgt[g], wgt[g]) for g in gr}
            out = {}
            for g, vs in gr.items():
                parts = [vals[v] for v in vs]
                q = (sum(parts) / max(len(parts), 1)) if kind == "InverseReachabilityInitializer" else sum(parts)
                e = 20 * form.tol(o["mode"]) * (1 if kind == "InverseReachabilityInitializer" else 1 + len(parts) * (1 + form.T))
                out[g] = (1 / (q + e), 1 / (q - e)) if q > 2 * e and q > 2e-6 else (min(BIG, 1 / (q + e) * 0.999), np.inf)
            return out

        def request(o, healthy):
            mode = o["mode"]
            form = fs[o.get("form", 0) % len(fs)]
            idx = dict(form.rf.system.index_by_state_action)
            thr = form.threshold(o["thr"], mode)
            what = "%s/%s %s thr=%.9g labels=%s" % (o["init"], o["upd"], mode, thr, o["labels"])
            log = {"objectives": [], "vectors": [], "own": [], "solves": [], "args": [], "touched": False, "world": w}
            f0 = fired(w)
            cur["o"], cur["log"] = o, log
            key = o["iterations"], o["solver"], o["init"], o["upd"]
            if key not in methods:
                methods[key] = must(ctx, ctx.call(QSHeur, iterations=o["iterations"], solver=o["solver"], initializertype=recorder(o["init"], cur), updatertype=recorder(o["upd"], cur)), what)
            meth = methods[key]
            out = []
            it = must(ctx, ctx.call(meth.solveiter, form.rf, thr, mode, labels=o["labels"], timeout=o["timeout"]), what)
            while True:
                r = ctx.call(next, it, None)
                if not r.ok or r.value is None:
                    break
                out.append(r.value)
                if o["stop"] and len(out) >= o["stop"]:
                    it.close()
                    break
            faulty = fired(w) > f0
            end = len(w.solves)
            stats.append([x.status for x in out] + ([] if r.ok else ["raised"]))
            ctx.note(*stats[-1])
            if not r.ok and not faulty:
                must(ctx, r, what)
            good = [x for x in out if x.status == "success"]
            if any(x.status != "success" for x in out[:-1]):
                ctx.violate("wrong-scheme", "%s: went on after status %s" % (what, [x.status for x in out]))
            if len(out) > o["iterations"]:
                ctx.violate("wrong-scheme", "%s: %d results" % (what, len(out)))
            if r.ok and not o["stop"] and (not out or out[-1].status == "success") and len(out) != o["iterations"]:
                ctx.violate("wrong-scheme", "%s: %d results of %d, all successful" % (what, len(out), o["iterations"]))
            if not log["objectives"]:
                if good:
                    ctx.violate("wrong-scheme", "%s: the initialiser was not asked" % what)
                return
            # what the two were built with
            for rf, md, gr in log["args"]:
                if rf is not form.rf or md != mode or sorted(sorted(x) for x in gr.values() if x) != sorted(sorted(x) for x in groups(o) if x) or any(x < (form.N if mode == "min" else form.C) for x in gr):
                    ctx.violate("wrong-groups", "%s: groups %s, expected %s" % (what, gr, groups(o)))
            gr = log["args"][0][2]
            if any(a[2] != gr for a in log["args"]):
                ctx.violate("wrong-groups", "%s: initialiser and updater got different groups" % what)
            # initial weights
            vals = None
            if o["init"] == "InverseReachabilityInitializer" and not sc["rewards"]:
                z = form.sys.pr("min")
                vals = z if mode == "min" else {idx[key]: t + sum(p * z[d] for d, p in tr.items()) for s in range(form.N) for key, tr, t, rr in form.sys.choices[s]}
            elif o["init"] in ("InverseFrequencyInitializer", "InverseCombinedInitializer") and not faulty and sc["styles"] == ["plain"] and not w.faults and not w.enospc_on:
                q = ctx.call(form.rf.max_y_state if mode == "min" else form.rf.max_y_state_action, solver="cbc")
                vals = np.asarray(must(ctx, q, what + " frequencies"))
                if o["init"] == "InverseCombinedInitializer":
                    q = ctx.call(form.rf.max_z_state if mode == "min" else form.rf.max_z_state_action, solver="cbc")
                    vals = vals * np.asarray(must(ctx, q, what + " values"))
            first = log["objectives"][0]
            if sorted(x for x, _ in first) != sorted(gr):
                ctx.violate("wrong-weights", "%s: initial weights for %s, groups are %s" % (what, sorted(x for x, _ in first), sorted(gr)))
            if vals is not None or o["init"] == "AllOnesInitializer":
                want = first_weights(o, gr, log["init"].wgt, vals)
                for x, c in first:
                    lo, hi = want[x]
                    if not (lo * (1 - 1e-7) <= c <= hi * (1 + 1e-7)):
                        ctx.violate("wrong-weights", "%s: initial weight of group %s is %.9g, documented %.9g..%.9g" % (what, sorted(gr[x]), c, lo, hi))
            # later weights
            certs = [np.asarray(x.farkas_cert, dtype=float) for x in good]
            if len(log["vectors"]) > len(good) or len(log["vectors"]) < len(good) - 1:
                ctx.violate("wrong-scheme", "%s: %d updates after %d results" % (what, len(log["vectors"]), len(good)))
            if log["touched"]:
                ctx.violate("wrong-scheme", "%s: the updater changed the solution it was given" % what)
            for k, v in enumerate(log["vectors"]):
                D = len(certs[k])
                if not np.array_equal(v[:D], certs[k]):
                    ctx.violate("wrong-scheme", "%s: update %d was computed from another solution than result %d" % (what, k, k))
                for g, vs in gr.items():
                    if any(certs[k][x] > 1e-3 for x in vs) and not v[g] > 0 and form.T < 1e3:
                        ctx.violate("wrong-scheme", "%s: group %s is used in result %d but its indicator is %g" % (what, sorted(vs), k, v[g]))
                n = sum(1 for g in gr if v[g] > 0)
                if good[k].value != n:
                    ctx.violate("wrong-scheme", "%s: result %d says %s groups, its solution has %d" % (what, k, good[k].value, n))
                obj = log["objectives"][k + 1]
                if sorted(x for x, _ in obj) != sorted(gr):
                    ctx.violate("wrong-weights", "%s: weights for %s after result %d" % (what, sorted(x for x, _ in obj), k))
                wgt = log["upd"].wgt
                for x, c in obj:
                    if v[x] > 0:
                        t = wgt[x] / v[x]
                        if not close(c, t) and not (min(c, t) >= BIG):
                            ctx.violate("wrong-weights", "%s: weight of group %s after result %d is %.9g, its value was %.9g" % (what, sorted(gr[x]), k, c, v[x]))
                    elif o["upd"] == "InverseResultUpdater":
                        if not c >= BIG:
                            ctx.violate("wrong-weights", "%s: weight of the removed group %s after result %d is %.9g" % (what, sorted(gr[x]), k, c))
                    elif c != 0:
                        ctx.violate("wrong-weights", "%s: weight of the fixed group %s after result %d is %.9g" % (what, sorted(gr[x]), k, c))
            # constraints of the updater hold from then on
            for k, v in enumerate(log["vectors"]):
                for v2 in log["vectors"][k + 1:]:
                    for g in gr:
                        if o["upd"] == "InverseResultFixedZerosUpdater" and v[g] == 0 and v2[g] > 1e-7:
                            ctx.violate("constraint-ignored", "%s: group %s was fixed to zero after result %d, later it is %g" % (what, sorted(gr[g]), k, v2[g]))
                        if o["cap"] and v2[g] > v[g] + 1e-6 * (1 + v[g]):
                            ctx.violate("constraint-ignored", "%s: group %s was limited to %g after result %d, later it is %g" % (what, sorted(gr[g]), v[g], k, v2[g]))
            # what the solver was asked to minimise
            runs = w.solves[log["solves"][0]:end]
            for k, (rec, obj) in enumerate(zip(runs, log["objectives"])):
                asked = sorted(c for c in rec["problem"].obj.values() if c != 0)
                meant = sorted(c for _, c in obj if c != 0)
                if rec["problem"].maximize:
                    asked = sorted(-c for c in asked)
                if len(asked) != len(meant) or any(not close(a, b, 1e-9) for a, b in zip(asked, meant)):
                    ctx.violate("wrong-objective", "%s: solver run %d minimises with weights %s, meant are %s" % (what, k, asked, meant))
            if len(runs) < len(good):
                ctx.violate("wrong-scheme", "%s: %d results from %d solver runs" % (what, len(good), len(runs)))
        for o in sc["ops"]:
            request(o, False)
        heal(w)
        request(sc["ops"][0], True)
        form = fs[0]
        ctx.sig = ["c21", form.N, form.C, [(o["init"], o["upd"], o["mode"]) for o in sc["ops"]], stats, sorted(w.fired)]
        ctx.nontrivial = form.N > 1
