"""One workload in several environments (random stream, clock, temporary names, memory, other optima, another order of the
description) inside one process; the driver's cross runs repeat the scenario in processes with other hash seeds and heaps."""
import os
import models, oracle
from rng import stream
from common import *
from minim import *
from bounds import Bounds, SENSES

WORDS = ("alpha", "b", "goal2", "Unsafe", "x_1", "zz", "Q", "mid")


def gen(rng, i, tier):
    rewards = rng.random() < 0.2
    big = rng.random() < 0.08
    m = models.gen(rng, n=rng.randint(12, 40) if big else rng.randint(3, 9), rewards=rewards, proper_target=rewards, extra_labels=rng.choice((0, 2, 3, 5)), steps=40.0)
    # names that hash differently
    ren = dict(zip([l for l in sorted(m["labels"]) if l.startswith("l")], rng.sample(WORDS, 8)))
    m["labels"] = {ren.get(l, l): s for l, s in m["labels"].items()}
    ls = sorted(ren.values())
    ops = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(("mecs", "sccs", "pr", "pr", "exact", "exact", "heur", "cert", "cert") if not big else ("mecs", "mecs", "sccs", "pr", "heur"))
        o = {"op": k}
        if k in ("pr", "exact", "heur", "cert"):
            o["mode"], o["solver"] = rng.choice(("min", "max")), rng.choice(("cbc", "cbc", "glpk"))
        if k in ("exact", "heur"):
            o["thr"] = ["frac", round(rng.uniform(0.05, 0.97), 4)] if rng.random() < 0.7 else gen_threshold(rng)
            o["labels"] = rng.sample(ls, rng.randint(1, len(ls))) if ls and rng.random() < 0.5 else None
        if k == "heur":
            o["method"] = dict(gen_method(rng, exact=False), solver=o["solver"])
        if k == "cert":
            o["thr"], o["sense"] = [rng.choice(("above", "below")), rng.choice((0.02, 0.1, 0.5))], rng.choice(SENSES)
        ops.append(o)
    envs = []
    for _ in range(rng.choice((2, 2, 3))):
        envs.append({"seed": rng.getrandbits(40), "rand": [rng.choice((0, 1, 2, 3, 4, 5)), rng.getrandbits(30)], "start": rng.choice((0.0, 1.7e9, 1.0, 2147483646.5, 4.2e9)),
                     "order": rng.choice((0, 0, rng.getrandbits(30))), "form": rng.choice(("dok", "np", "csr", "list")), "via": rng.choice(("direct", "direct", "file")),
                     "styles": rng.choice((["plain"], ["plain", "alt", "mid"], ["alt"])), "jump": rng.choice((0, 0, -86400, 1e8)), "twice": rng.random() < 0.2})
    return {"model": m, "rewards": rewards, "ops": ops, "envs": envs}


def shrinks(sc):
    import copy
    for k in range(len(sc["envs"])):
        if len(sc["envs"]) > 2:
            c = copy.deepcopy(sc)
            del c["envs"][k]
            yield c
        for key, v in (("order", 0), ("form", "dok"), ("via", "direct"), ("styles", ["plain"]), ("jump", 0), ("twice", False), ("start", 1.7e9), ("rand", [0, 1])):
            if sc["envs"][k][key] != v:
                c = copy.deepcopy(sc)
                c["envs"][k][key] = v
                yield c


def valid(sc):
    return len(sc["envs"]) >= 1 and bool(sc["ops"])


def reorder(m, e):
    """The same model, described in another order."""
    import copy
    c = copy.deepcopy(m)
    c["form"] = e["form"]
    if not e["order"]:
        return c
    r = stream(e["order"], "order")
    perm = list(range(len(c["choices"])))
    r.shuffle(perm)
    c["choices"] = [c["choices"][k] for k in perm]
    if c["rewards"] is not None:
        c["rewards"] = [c["rewards"][k] for k in perm]
    for ch in c["choices"]:
        r.shuffle(ch[2])
    for key in ("labels", "alabels"):
        items = list(c[key].items())
        r.shuffle(items)
        for _, v in items:
            r.shuffle(v)
        c[key] = dict(items)
    return c


def parts(ids, count):
    g = {}
    for s, x in enumerate(list(ids)):
        g.setdefault(int(x), []).append(s)
    return g


def run(ctx, sc):
    from switss.model import DTMC, MDP
    from switss.certification import generate_farkas_certificate, check_farkas_certificate
    base = sc["model"]
    seen = {}
    stats = []

    def determined(key, value, what):
        """Every environment must give the same; the first one is what goes into the compared history."""
        if key not in seen:
            seen[key] = value
            ctx.note(key, value)
        elif seen[key] != value:
            ctx.violate("environment-dependent", "%s: %s is %s, was %s before" % (what, key, value, seen[key]))

    for n, e in enumerate(sc["envs"]):
        m = reorder(base, e)
        with ctx.world(seed=e["seed"], rand=tuple(e["rand"]), start=e["start"]) as w:
            w.styles = tuple(e["styles"])
            if e["rand"][0]:
                w.fire("random_stream_%d" % e["rand"][0])
            if e["start"] != 1.7e9:
                w.fire("clock_start")
            if e["order"]:
                w.fire("description_reordered")
            env = "environment %d" % n
            if e["via"] == "file" and not sc["rewards"]:
                w.fire("through_files")
                path = os.path.join(w.scratch, "m")
                must(ctx, ctx.call(models.build(m).save, path), "save")
                cls = DTMC if m["kind"] == "dtmc" else MDP
                if e["order"]:      # the lines of a description have no order
                    w.fire("file_lines_reordered")
                    for ext in (".tra", ".lab"):        # the first line holds the sizes, or the names of the labels
                        text = w.read_bytes(path + ext).decode().splitlines()
                        rest = text[1:]
                        stream(e["order"], "lines").shuffle(rest)
                        w.write_bytes(path + ext, ("\n".join(text[:1] + rest) + "\n").encode())
                loaded = must(ctx, ctx.call(cls.from_file, path + ".lab", path + ".tra"), "load")
                bad = equals_model(m, loaded)
                if bad:
                    ctx.violate("environment-dependent", "%s: after saving and loading: %s" % (env, bad))
                m = dict(m, alabels={}, rewards=None)      # files hold neither action labels nor rewards
                ib = dict(loaded.index_by_state_action)
                m["choices"] = sorted(m["choices"], key=lambda c: ib[(c[0], c[1])])
                form = Form(ctx, m, False, loaded)
            else:
                form = Form(ctx, m, sc["rewards"])
            check_reduction(ctx, m, form.ref, form.rf, form.cols, form.rows)
            # the numbering of the reduced states follows the description, everything else does not depend on it
            cls_ = "%s %s " % (e["order"], e["via"])
            inv = {x: st for st, x in form.cols.items()}
            inv.update({form.N: "target", form.N + 1: "fail"})
            determined(cls_ + "state map", sorted(form.cols.items()), env)
            determined("labels", sorted([l, sorted(str(inv[x]) for x in form.rf.system.states_by_label[l])] for l in list(base["labels"]) + ["rf_target", "rf_fail"]), env)
            B = None if sc["rewards"] else Bounds(form)
            fan = max([len(tr) for c in form.sys.choices for _, tr, _, _ in c] + ([int(np.abs(B.A).sum(0).max())] if B else [])) + 2
            for j, o in enumerate(sc["ops"] * (2 if e["twice"] else 1)):
                if e["jump"]:
                    w.fire("clock_jump")
                    w.jump_wall(e["jump"])
                op, key = o["op"], "%s %d" % (o["op"], j % len(sc["ops"]))
                if op in ("mecs", "sccs"):
                    for name, sysm in (("model", form.model), (cls_ + "form", form.rf.system)):
                        if op == "mecs":
                            ids, proper, count = must(ctx, ctx.call(sysm.maximal_end_components), op)
                            g = parts(ids, count)
                            determined(key + name, [int(count), sorted([ss, bool(proper[x])] for x, ss in g.items())], env)
                        else:
                            ids, count = must(ctx, ctx.call(sysm.strongly_connected_components), op)
                            determined(key + name, [int(count), sorted(parts(ids, count).values())], env)
                    continue
                mode, v, what = o["mode"], form.value(o["mode"]), "%s: %s" % (env, o)
                if op == "pr":
                    f = (form.rf.rew_min if mode == "min" else form.rf.rew_max) if sc["rewards"] else (form.rf.pr_min if mode == "min" else form.rf.pr_max)
                    got = vector(ctx, must(ctx, ctx.call(f, solver=o["solver"]), what), form.N, what)
                    true = (form.sys.rew if sc["rewards"] else form.sys.pr)(mode)
                    tol = form.tol(mode) * (1 if o["solver"] == "cbc" else 10)
                    same(ctx, got, true, tol, "environment-dependent", what)
                    determined(key, len(got), env)
                    continue
                thr = form.threshold(o["thr"], mode)
                margin = 20 * form.tol(mode) * (1 + form.T)
                if abs(thr - v) <= margin:
                    continue
                if op == "cert":
                    if sc["rewards"]:
                        continue
                    mar = B.margin(mode, o["sense"], thr)
                    r = must(ctx, ctx.call(generate_farkas_certificate, form.rf, mode, o["sense"], thr, tol=1e-5, solver=o["solver"]), what)
                    big = max([float(np.abs(s["answer"].x).max()) for s in w.solves[-1:] if "answer" in s and s["answer"].x is not None and len(s["answer"].x)] + [1.0])
                    if (mar > 0 and big * (1e-7 if o["solver"] == "cbc" else 1e-5) * fan > 5e-6) or abs(mar) < 10 * B.error(mode, o["sense"], 1e-5):
                        continue        # the digits of the answer, not the bound, decide
                    determined(key, r is not None, env)
                    ctx.note("answer", n, j, None if r is None else [float(x) for x in r])
                    if r is not None:
                        ok = must(ctx, ctx.call(check_farkas_certificate, form.rf, mode, o["sense"], thr, r, tol=1e-5), what)
                        determined(key + " check", bool(ok), env)
                        stats.append("cert")
                    continue
                if op == "exact":
                    meth = make_method({"type": "MILPExact", "solver": o["solver"]})
                else:
                    meth = make_method(o["method"])
                r = ctx.call(meth.solve, form.rf, thr, mode, labels=o["labels"])
                if not r.ok:
                    if op == "exact" and mode == "max" and form.ecs and isinstance(r.exc, AssertionError):
                        determined(key, "refused", env)
                        continue
                    must(ctx, r, what)
                determined(key, r.value.status, env)
                # not determined, but a repetition of the same request has to give it again
                ctx.note("answer", n, j, r.value.status, None if r.value.farkas_cert is None else [float(x) for x in r.value.farkas_cert], repr(r.value.value))
                stats.append(r.value.status)
                if r.value.status == "success":
                    judge_success(ctx, form, mode, thr, r.value, what, deep=False)
                    if op == "exact" and stable(form, mode, thr, margin, o["labels"]):
                        determined(key + " size", round(float(r.value.value)), env)
            check_unchanged(ctx, m, form.model)
            w.log.clear()           # only determined results are compared between processes
    ctx.sig = ["c14", len(sc["envs"]), [o["op"] for o in sc["ops"]], sorted(seen.items(), key=str)]
    ctx.nontrivial = len(seen) > 2


def stable(form, mode, thr, margin, labels):
    """No subset of the states has a value so close to the threshold that rounding decides."""
    if form.N > 8:
        return False
    key = ("stable", mode)
    if key not in form._v:
        form._v[key] = sorted(form.value(mode, [bool((b >> k) & 1) for k in range(form.N)]) for b in range(1 << form.N))
    return all(abs(x - thr) > margin for x in form._v[key])
