import models, oracle, world as W
from common import *

STREAMS = (0, 0, 1, 2, 3, 4, 5)


def graph(rng, tier):
    r = rng.random()
    if r < 0.06:
        n, shape = rng.randint(150, 600 if tier == "quick" else 2500), rng.choice(("chain", "ring", "random"))
    elif r < 0.2:
        n, shape = rng.randint(15, 60), rng.choice(("chain", "blocks", "random", "layers", "ring"))
    else:
        n, shape = rng.randint(1, 12), rng.choice(("blocks", "random", "random", "layers", "chain", "ring"))
    kind = rng.choice(("dtmc", "mdp", "mdp"))
    sparse = kind == "mdp" and rng.random() < 0.3
    block = [rng.randrange(max(1, n // 3)) for _ in range(n)]
    choices = []
    for s in range(n):
        k = 1 if kind == "dtmc" else rng.choice((1, 1, 2, 2, 3, 4))
        for a in (rng.sample(range(9), k) if sparse else range(k)):
            r = rng.random()
            if r < 0.1:
                dests = [s]
            elif shape == "chain":
                dests = rng.sample(range(max(0, s - rng.choice((0, 1, 1, 5))), min(n, s + 3)), 1)
                dests = list(dict.fromkeys(dests + ([s + 1] if s + 1 < n and rng.random() < 0.9 else [])))
            elif shape == "ring":
                dests = [(s + 1) % n] + ([rng.randrange(n)] if rng.random() < 0.1 else [])
            elif shape == "layers":
                dests = [rng.randrange(max(0, s - 1), n) for _ in range(rng.choice((1, 2, 3)))]
            elif shape == "blocks":
                pool = [d for d in range(n) if block[d] == block[s]]
                dests = rng.sample(pool, min(len(pool), rng.choice((1, 2, 2, 3))))
                if rng.random() < 0.3:
                    dests.append(rng.randrange(n))
            else:
                dests = rng.sample(range(n), min(n, rng.choice((1, 1, 2, 2, 3, 5))))
            dests = sorted(set(dests))
            choices.append([s, a, [[d, p] for d, p in zip(dests, models.probs(rng, len(dests), rng.choice(("thirds", "floats"))))]])
    if kind == "mdp" and rng.random() < 0.4:
        rng.shuffle(choices)
    if kind == "dtmc" and rng.random() < 0.3:
        rng.shuffle(choices)
    return {"kind": kind, "n": n, "choices": choices, "labels": {"init": [0]}, "alabels": {}, "rewards": None,
            "form": rng.choice(("dok", "csr", "np", "zeros"))}


def gen(rng, i, tier):
    ms = [graph(rng, tier) for _ in range(rng.choice((1, 1, 2)))]
    ops = []
    for _ in range(rng.randint(4, 14)):
        k = rng.randrange(len(ms))
        n = ms[k]["n"]
        op = rng.choice(("mecs", "mecs", "mecs", "sccs", "reach", "reach", "reach", "iter", "iter", "next", "next", "next", "stream", "time", "reduce"))
        o = {"op": op, "m": k}
        if op == "reach":
            o["from"] = rng.sample(range(n), min(n, rng.choice((1, 1, 2, 3))))
            o["dir"] = rng.choice(("forward", "backward"))
            o["block"] = rng.choice((None, rng.sample(range(n), rng.randint(0, n // 2)), rng.sample(range(n), min(n, 1))))
            o["type"] = rng.choice(("set", "list"))
        elif op == "iter":
            o["state"], o["dir"] = rng.randrange(n), rng.choice(("successors", "predecessors"))
        elif op == "next":
            o["count"] = rng.choice((1, 1, 2, 100))
            o["it"] = rng.randrange(4)
        elif op == "stream":
            o["mode"], o["seed"] = rng.choice(STREAMS), rng.randrange(10**6)
        elif op == "time":
            o["by"] = rng.choice((-1e9, -3600.0, 0.5, 1.0, 86400.0, 2.0e9))
        elif op == "reduce":
            o["from"], o["to"] = rng.randrange(n), rng.randrange(n)
        ops.append(o)
    return {"models": ms, "ops": ops, "drop": rng.random() < 0.2}


def shrinks(sc):
    import copy
    for k in range(len(sc["models"])):
        m = sc["models"][k]
        for x in range(m["n"]):
            if m["n"] > 1:
                c = copy.deepcopy(sc)
                c["models"][k] = models.without_state(dict(m, labels={}), x)
                c["models"][k]["labels"] = {"init": [0]}
                f = lambda s: s - (s > x) if s != x else 0
                for o in c["ops"]:
                    if o["m"] != k:
                        continue
                    for key in ("state", "from", "to"):
                        if isinstance(o.get(key), int):
                            o[key] = f(o[key])
                        elif o.get(key):
                            o[key] = [f(s) for s in o[key]]
                    if o.get("block"):
                        o["block"] = sorted({f(s) for s in o["block"] if s != x})
                yield c


def valid(sc):
    for k, m in enumerate(sc["models"]):
        if m["n"] < 1 or {c[0] for c in m["choices"]} != set(range(m["n"])):
            return False
        for o in sc["ops"]:
            if o["m"] == k:
                xs = [o[key] for key in ("state", "to") if key in o]
                if o["op"] in ("reach", "reduce"):
                    xs += o["from"] if isinstance(o["from"], list) else [o["from"]]
                xs += o.get("block") or []
                if any(x >= m["n"] for x in xs):
                    return False
    return all(o["m"] < len(sc["models"]) for o in sc["ops"])


def build(m):
    if m["form"] != "zeros":
        return models.build(m)
    # a sparse matrix with explicitly stored zeros
    import numpy as np
    from scipy.sparse import csr_matrix
    from bidict import bidict
    from switss.model import DTMC, MDP
    P = models.matrix(m, "csr").tocoo()
    used = set(zip(P.row.tolist(), P.col.tolist()))
    extra = [(i, (i * 7 + 3) % m["n"]) for i in range(0, len(m["choices"]), 2)]
    extra = [x for x in extra if x not in used]
    P = csr_matrix((np.concatenate([P.data, np.zeros(len(extra))]), (np.concatenate([P.row, [x[0] for x in extra]]).astype(int),
                                                                    np.concatenate([P.col, [x[1] for x in extra]]).astype(int))), shape=P.shape)
    idx = bidict({(s, a): i for i, (s, a, _) in enumerate(m["choices"])})
    ls = {l: set(v) for l, v in m["labels"].items()}
    return DTMC(P, label_to_states=ls, index_by_state_action=idx) if m["kind"] == "dtmc" else MDP(P, index_by_state_action=idx, label_to_states=ls)


class Truth:
    def __init__(self, m):
        self.m, n = m, m["n"]
        self.n = n
        ch = [[] for _ in range(n)]
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        self.edges = [set() for _ in range(n)]
        for s, a, tr in m["choices"]:
            ch[s].append(((s, a), {d: p for d, p in tr}, 0.0, 0.0))
            for d, p in tr:
                self.succ[s].append((d, a, p))
                self.pred[d].append((s, a, p))
                self.edges[s].add(d)
        self.back = [set() for _ in range(n)]
        for s in range(n):
            for d in self.edges[s]:
                self.back[d].add(s)
        comps = oracle.Sys(n, ch, 0).mecs()
        self.mecs = {frozenset(C) for C, _ in comps}
        inside = set().union(*self.mecs) if self.mecs else set()
        self.mecs_all = self.mecs | {frozenset([s]) for s in range(n) if s not in inside}
        self.sccs = {frozenset(c) for c in oracle.sccs(list(range(n)), lambda s: self.edges[s])}

    def reach(self, frm, direction, block):
        nb = self.edges if direction == "forward" else self.back
        seen, todo = set(frm), list(frm)
        while todo:
            x = todo.pop()
            if x in block:
                continue
            for d in nb[x]:
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
        return seen


def partition(ctx, ids, count, n, what):
    ids = [int(x) for x in ids]
    if len(ids) != n or not all(0 <= x < count for x in ids):
        ctx.violate("wrong-numbering", "%s: indices %s with count %s" % (what, ids[:200], count))
    groups = {}
    for s, x in enumerate(ids):
        groups.setdefault(x, set()).add(s)
    if len(groups) != count:
        ctx.violate("wrong-numbering", "%s: %d groups but count %s" % (what, len(groups), count))
    return groups


def run(ctx, sc):
    with ctx.world() as w:
        truths = [Truth(m) for m in sc["models"]]
        real = [must(ctx, ctx.call(build, m), "construction") for m in sc["models"]]
        its = []
        sizes = []

        def drain(it, count):
            k, st, d, gen_, got = it
            for _ in range(count):
                r = ctx.call(next, gen_, None)
                x = must(ctx, r, "next")
                if x is None:
                    want = sorted(getattr(truths[k], "succ" if d == "successors" else "pred")[st])
                    have = sorted((int(a), int(b), float(p)) for a, b, p in got)
                    if [x[:2] for x in want] != [x[:2] for x in have] or any(abs(x[2] - y[2]) > 1e-6 for x, y in zip(want, have)):
                        ctx.violate("wrong-neighbours", "%s of %d: %s, expected %s" % (d, st, have, want))
                    return True
                got.append(x)
            return False

        for j, o in enumerate(sc["ops"]):
            k, op = o["m"], o["op"]
            t, sysm = truths[k], real[k]
            what = "%s (call %d)" % (op, j)
            if op == "mecs":
                ids, proper, count = must(ctx, ctx.call(sysm.maximal_end_components), what)
                g = partition(ctx, ids, int(count), t.n, what)
                if {frozenset(x) for x in g.values()} != t.mecs_all:
                    ctx.violate("wrong-components", "%s: components %s, expected %s" % (what, sorted(map(sorted, g.values()))[:60], sorted(map(sorted, t.mecs_all))[:60]))
                if len(proper) != count:
                    ctx.violate("wrong-components", "%s: %d flags for %d components" % (what, len(proper), count))
                for x, ss in g.items():
                    if bool(proper[x]) != (frozenset(ss) in t.mecs):
                        ctx.violate("wrong-proper", "%s: component %s is called %sproper" % (what, sorted(ss), "" if proper[x] else "not "))
                sizes.append(int(count))
            elif op == "sccs":
                ids, count = must(ctx, ctx.call(sysm.strongly_connected_components), what)
                g = partition(ctx, ids, int(count), t.n, what)
                if {frozenset(x) for x in g.values()} != t.sccs:
                    ctx.violate("wrong-components", "%s: components %s, expected %s" % (what, sorted(map(sorted, g.values()))[:60], sorted(map(sorted, t.sccs))[:60]))
                sizes.append(int(count))
            elif op == "reach":
                mk = set if o["type"] == "set" else list
                frm = mk(o["from"])
                args = [frm, o["dir"]] + ([mk(o["block"])] if o["block"] is not None else [])
                keep = [mk(x) if not isinstance(x, str) else x for x in args]
                mask = must(ctx, ctx.call(sysm.reachable_mask, *args), what)
                if args != keep:
                    ctx.violate("arguments-changed", what)
                got = {s for s in range(len(mask)) if mask[s]}
                want = t.reach(o["from"], o["dir"], set(o["block"] or ()))
                if len(mask) != t.n or got != want:
                    ctx.violate("wrong-reachable", "%s %s from %s blocked %s: %s, expected %s" % (what, o["dir"], o["from"], o["block"], sorted(got)[:80], sorted(want)[:80]))
                sizes.append(len(got))
            elif op == "iter":
                its.append((k, o["state"], o["dir"], must(ctx, ctx.call(getattr(sysm, o["dir"]), o["state"]), what), []))
            elif op == "next":
                if its:
                    x = o["it"] % len(its)
                    if drain(its[x], o["count"]):
                        its.pop(x)
            elif op == "stream":
                if W.SHIM is not None:
                    W.SHIM.sim_rand_setup(o["mode"], o["seed"])
                w.fire("random_stream_%d" % o["mode"])
            elif op == "time":
                w.jump_wall(o["by"])
                w.fire("clock_jump")
            elif op == "reduce":
                # a whole reduction in between: it uses all of the analyses and must not disturb the model
                from switss.model import ReachabilityForm
                lab = "at%d" % j
                sysm.add_label(o["from"], lab)
                sysm.add_label(o["to"], lab + "t")
                if o["to"] in t.reach([o["from"]], "forward", ()):
                    m2 = dict(sc["models"][k], labels={"init": [o["from"]], "target": [o["to"]]})
                    rf, cols, rows = must(ctx, ctx.call(ReachabilityForm.reduce, sysm, lab, lab + "t"), what)
                    ref = oracle.of_model(m2)
                    if sorted(dict(cols)) != [s for s in range(t.n) if ref.kept[s]]:
                        ctx.violate("wrong-reachable", "%s keeps %s, expected %s" % (what, sorted(dict(cols)), [s for s in range(t.n) if ref.kept[s]]))
                    sizes.append(len(cols))
        if sc["drop"]:
            import gc
            for m, r in zip(sc["models"], real):
                check_unchanged(ctx, m, r)
            real = sysm = None
            gc.collect()
            junk = [models.build(m) for m in sc["models"]]     # reuse the memory
        for it in its:
            drain(it, 10**6)
        if real is not None:
            for m, r in zip(sc["models"], real):
                check_unchanged(ctx, m, r)
        ctx.sig = ["c10", [(m["kind"], m["n"], len(m["choices"])) for m in sc["models"]], [o["op"] for o in sc["ops"]], sizes]
        ctx.nontrivial = bool(sizes)
