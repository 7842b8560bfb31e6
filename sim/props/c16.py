import os, copy
import models, oracle
from common import *

KEYS = ("a", "b", "c", "d")


def gen(rng, i, tier):
    # descriptions shared by what is built from them
    descs = []
    for _ in range(rng.choice((1, 2))):
        shared = sorted(rng.sample(range(6), rng.randint(0, 3)))
        descs.append({k: ["shared"] + shared if rng.random() < 0.3 else sorted(rng.sample(range(6), rng.randint(0, 4)))
                      for k in rng.sample(KEYS, rng.randint(0, 4))})
    ms = []
    for _ in range(rng.choice((0, 1, 1, 2))):
        m = models.gen(rng, n=rng.randint(2, 6), steps=1e9, unreachable=False, rewards=rng.random() < 0.3)
        ms.append(m)
    ops = []
    for _ in range(rng.randint(6, 30 if tier == "quick" else 80)):
        r = rng.random()
        if r < 0.14 or not ops:
            ops.append({"op": "dict", "d": rng.randrange(len(descs)), "default": rng.random() < 0.5, "own": rng.random() < 0.3})
        elif r < 0.28 and ms:
            ops.append({"op": "model", "m": rng.randrange(len(ms)), "from": rng.choice((None, None, None, rng.randrange(8)))})
        elif r < 0.33:
            ops.append({"op": "derive", "x": rng.randrange(8), "how": rng.choice(("reduce", "subsys", "file", "dictof"))})
        elif r < 0.37:
            ops.append({"op": "caller", "x": rng.randrange(8), "key": rng.choice(KEYS), "item": rng.randrange(6), "what": rng.choice(("add", "clear", "newkey", "model", "model"))})
        else:
            ops.append({"op": rng.choice(("add", "add", "add", "remove", "remove", "get", "get", "contains", "all")), "x": rng.randrange(8),
                        "inv": rng.choice((0, 0, 0, 1, 1, 2)), "key": rng.choice(KEYS + ("new",)), "item": rng.randrange(6),
                        "held": rng.random() < 0.2, "present": rng.random() < 0.6, "side": rng.choice(("states", "states", "actions"))})
    fs = [line_fault(rng, rng.choice((10, 40, 200))) for _ in range(rng.choice((1, 1, 2)))] if rng.random() < 0.35 else []
    return {"descs": descs, "models": ms, "ops": ops, "faults": fs}


def shrinks(sc):
    for d in range(len(sc["descs"])):
        for k in list(sc["descs"][d]):
            c = copy.deepcopy(sc)
            del c["descs"][d][k]
            yield c
            for x in sc["descs"][d][k]:
                c = copy.deepcopy(sc)
                c["descs"][d][k].remove(x)
                yield c
    for k, m in enumerate(sc["models"]):
        for c2 in models.shrinks(m):
            if models.valid(c2):
                c = copy.deepcopy(sc)
                c["models"][k] = c2
                yield c


class Map:
    """A real mapping, the relation it must describe, and whether absent keys are allowed."""
    def __init__(self, real, rel, default, owner=None, items=None, side=None):
        self.real, self.rel, self.default, self.owner, self.items, self.side = real, set(rel), default, owner, items, side
        self.held = {}
        self.keys = set()
        self.known = [set(), set()]      # keys that were ever there, per direction

    def forms(self, depth, held):
        if held and depth in self.held:
            return self.held[depth]
        r = self.real() if callable(self.real) else self.real
        for _ in range(depth):
            r = r.inv
        self.held.setdefault(depth, r)
        return r

    def snapshot(self, like=None):
        """Keys and contents of the mapping and of the inverses somebody already holds."""
        self.forms(0, False)
        return {d: [sorted(map(str, r.keys())), sorted((str(k), sorted(map(str, v))) for k, v in r.items())]
                for d, r in self.held.items() if like is None or d in like}


def relation(m):
    return {(k, v) for k, vs in m.items() for v in vs}


def reuse(raw, k):
    idx = raw.get("idx")
    if idx:
        pair = sorted(idx)[k % len(idx)]
        at = idx.pop(pair)
        if k % 2:
            idx[(pair[0] + 50, pair[1])] = at
    P = raw.get("P")
    if isinstance(P, list):
        P[k % len(P)][0] += 0.25
    elif P is not None:
        P[k % P.shape[0], 0] += 0.25
    for d in (raw.get("ls"), raw.get("la")):
        if d:
            d[sorted(d)[k % len(d)]].clear()
    if raw.get("rw") is not None and len(raw["rw"]):
        raw["rw"][k % len(raw["rw"])] += 3.0


def run(ctx, sc):
    from switss.utils import InvertibleDict
    from switss.model import ReachabilityForm, DTMC, MDP
    from switss.problem import Subsystem
    import numpy as np
    with ctx.world() as w:
        maps, callers, raws = [], [], []
        systems = []            # (model, plain description with current labels)

        def settle(where):
            for x, mp in enumerate(maps):
                for depth in (0, 1):
                    r = ctx.call(lambda: relation(mp.forms(depth, False)))
                    got = must(ctx, r, where)
                    want = mp.rel if depth == 0 else {(b, a) for a, b in mp.rel}
                    if got != want:
                        ctx.violate("wrong-relation", "%s: mapping %d %s describes %s, its history implies %s" %
                                    (where, x, "inverted" if depth else "", sorted(map(str, got)), sorted(map(str, want))))

        def add_system(s, plain):
            systems.append((s, plain))
            rel = {(l, x) for l, xs in plain["labels"].items() for x in xs}
            maps.append(Map(lambda s=s: s.states_by_label, rel, True, items=list(range(plain["n"])), side="states", owner=s))
            if plain["kind"] == "mdp":
                pairs = [(c[0], c[1]) for c in plain["choices"]]
                maps.append(Map(lambda s=s: s.actions_by_label, {(l, tuple(p)) for l, ps in plain["alabels"].items() for p in ps}, True, items=pairs, side="actions", owner=s))

        def labels_now(s):
            for mp in maps:
                if mp.owner is s and mp.side == "states":
                    d = {}
                    for l, x in mp.rel:
                        d.setdefault(l, set()).add(x)
                    return {l: sorted(v) for l, v in d.items()}

        def alabels_now(s):
            d = {}
            for mp in maps:
                if mp.owner is s and mp.side == "actions":
                    for l, x in mp.rel:
                        d.setdefault(l, []).append(list(x))
            return d

        shared = {}
        for j, o in enumerate(sc["ops"]):
            what = "%s (operation %d)" % (o["op"], j)
            if o["op"] == "dict":
                desc = sc["descs"][o["d"]]
                if o["own"] or o["d"] not in shared:
                    one = None
                    d = {}
                    for k, v in desc.items():
                        xs = {x for x in v if x != "shared"}
                        if v[:1] == ["shared"]:
                            one = one if one is not None else xs
                            xs = one
                        d[k] = xs
                    if not o["own"]:
                        shared[o["d"]] = d
                    callers.append([d, copy.deepcopy(d)])
                else:
                    d = shared[o["d"]]
                real = must(ctx, ctx.call(InvertibleDict, d, o["default"]), what)
                maps.append(Map(real, {(k, x) for k, v in d.items() for x in v}, o["default"], items=list(range(6)), side="dict"))
            elif o["op"] == "model":
                m = copy.deepcopy(sc["models"][o["m"] % len(sc["models"])])
                src = [s for s, p in systems if p["n"] <= m["n"]]
                if o["from"] is not None and src:
                    # built from the label mapping of another model
                    s0 = src[o["from"] % len(src)]
                    m["labels"] = labels_now(s0)
                    have = {(c[0], c[1]) for c in m["choices"]}
                    keep_al = alabels_now(s0) if m["kind"] == "mdp" and s0.__class__ is MDP and all(tuple(p) in have for ps in alabels_now(s0).values() for p in ps) else None
                    if keep_al is not None:
                        m["alabels"] = keep_al
                    from bidict import bidict
                    idx = bidict({(s, a): i for i, (s, a, _) in enumerate(m["choices"])})
                    m["rewards"] = None
                    raws.append({"idx": idx})
                    kw = {"label_to_states": s0.states_by_label, "index_by_state_action": idx}
                    if m["kind"] == "mdp":
                        kw["label_to_actions"] = s0.actions_by_label if keep_al is not None else {l: {tuple(p) for p in ps} for l, ps in m["alabels"].items()}
                    s = must(ctx, ctx.call(DTMC if m["kind"] == "dtmc" else MDP, models.matrix(m), **kw), what)
                else:
                    raws.append({})
                    s = must(ctx, ctx.call(models.build, m, raws[-1]), what)
                add_system(s, m)
            elif o["op"] == "derive":
                if o["how"] == "dictof":
                    dm = [mp for mp in maps if mp.side == "dict"]
                    if dm:
                        mp = dm[o["x"] % len(dm)]
                        d = dict(mp.forms(0, False).items())
                        real = must(ctx, ctx.call(InvertibleDict, d, True), what)
                        maps.append(Map(real, mp.rel, True, items=mp.items, side="dict"))
                    continue
                own = [(s, p) for s, p in systems if "choices" in p and p.get("plain", True)]
                if not own:
                    continue
                s, p = own[o["x"] % len(own)]
                cur = dict(p, labels=labels_now(s), alabels=alabels_now(s))
                if o["how"] == "file":
                    base = os.path.join(w.scratch, "f%d" % j)
                    must(ctx, ctx.call(s.save, base), what)
                    s2 = must(ctx, ctx.call(s.__class__.from_file, base + ".lab", base + ".tra"), what)
                    p2 = copy.deepcopy(cur)
                    p2["alabels"] = {}
                    p2["file"] = True
                    p2["rewards"] = None
                    if s2.C != len(p2["choices"]) or s2.N != p2["n"]:
                        continue
                    add_system(s2, p2)
                    if p2["kind"] == "mdp":         # action labels travel in the file as well
                        maps[-1].rel = {(l, tuple(x)) for l, xs in s2.actions_by_label.items() for x in xs}
                    continue
                if len(cur["labels"].get("init", [])) != 1 or not cur["labels"].get("target"):
                    continue
                ref = oracle.of_model(cur)
                if not ref.kept[ref.init] or "rf_target" in cur["labels"]:
                    continue
                rf, cols, rows = must(ctx, ctx.call(ReachabilityForm.reduce, s, "init", "target"), what)
                cols = dict(cols)
                check_reduction(ctx, dict(cur, rewards=p["rewards"]), ref, rf, cols, rows)
                target = rf.system
                if o["how"] == "subsys":
                    sub = must(ctx, ctx.call(lambda: Subsystem(rf, np.ones(rf.system.N - 2), "min", ignore_consistency_checks=True).subsys), what)
                    target = sub.system
                N = len(cols)
                lab = {l: sorted(cols[x] for x in xs if x in cols) for l, xs in cur["labels"].items()}
                lab["rf_target"], lab["rf_fail"] = [N], [N + 1]
                al = {l: [[cols[a], b] for a, b in ps if a in cols] for l, ps in cur["alabels"].items()}
                add_system(target, {"n": N + 2, "kind": p["kind"], "labels": lab, "alabels": al,
                                    "choices": [list(sa) + [[]] for sa in dict(target.index_by_state_action)], "plain": False})
            elif o["op"] == "caller" and o["what"] == "model":
                if raws:            # the caller goes on using what the model was described with
                    reuse(raws[o["x"] % len(raws)], o["item"])
            elif o["op"] == "caller":
                if callers:
                    c = callers[o["x"] % len(callers)][0]
                    if o["what"] == "add" and c:
                        c[sorted(c)[o["item"] % len(c)]].add(o["item"])
                    elif o["what"] == "clear" and c:
                        c[sorted(c)[o["item"] % len(c)]].clear()
                    elif o["what"] == "newkey":
                        c["z"] = {o["item"]}
                    callers[o["x"] % len(callers)][1] = copy.deepcopy(c)
            elif maps:
                mp = maps[o["x"] % len(maps)]
                key, item = o["key"], mp.items[o["item"] % len(mp.items)]
                if o["present"] and mp.rel:
                    key, item = sorted(mp.rel, key=str)[o["item"] % len(mp.rel)]
                depth = o["inv"]
                f0 = fired(w)
                r = stopped(ctx, w, lambda: mp.forms(depth, o["held"]))
                if not r.ok and fired(w) > f0:
                    continue
                f = must(ctx, r, what)
                pair = (key, item)
                before = mp.snapshot() if o["op"] in ("get", "contains") else None
                a, b = (item, key) if depth % 2 else (key, item)
                if o["op"] == "add":
                    if mp.side == "states" and depth == 0 and o["item"] % 2:
                        must(ctx, ctx.call(mp.owner.add_label, item, key), what)
                    else:
                        must(ctx, ctx.call(f.add, a, b), what)
                    mp.rel.add(pair)
                elif o["op"] == "remove":
                    r = ctx.call(f.remove, a, b)
                    if pair in mp.rel:
                        must(ctx, r, what)
                        mp.rel.discard(pair)
                    elif r.ok:
                        ctx.violate("removed-absent", "%s: %s was not there" % (what, pair))
                elif o["op"] == "get":
                    r = stopped(ctx, w, lambda: set(f[a]))
                    if not r.ok and fired(w) > f0:
                        continue
                    want = {y for x, y in mp.rel if x == key} if depth % 2 == 0 else {x for x, y in mp.rel if y == item}
                    if r.ok or mp.default or want:
                        got = must(ctx, r, what)
                        if got != want:
                            ctx.violate("wrong-lookup", "%s: [%r] is %s, expected %s" % (what, a, sorted(map(str, got)), sorted(map(str, want))))
                elif o["op"] == "contains":
                    c = must(ctx, ctx.call(lambda: a in f), what)
                    if any((x if depth % 2 == 0 else y) == a for x, y in mp.rel) and not c:
                        ctx.violate("wrong-lookup", "%s: %r is not a key" % (what, a))
                elif o["op"] == "all":
                    settle(what)
                if before is not None and mp.snapshot(before) != before:
                    ctx.violate("lookup-changed-mapping", "%s: looking up %r turned %s into %s" % (what, a, before, mp.snapshot(before)))
            for d, was in callers:
                if d != was:
                    ctx.violate("caller-data-changed", "%s changed the description %s into %s" % (what, was, d))
        settle("at the end")
        for s, p in systems:
            if p.get("plain", True) and not p.get("file"):
                for i, (st, a, tr) in enumerate(p["choices"]):
                    if row(s.P, i) != {d: q for d, q in tr}:
                        ctx.violate("model-changed", "transitions changed")
                if dict(s.index_by_state_action) != {(c[0], c[1]): i for i, c in enumerate(p["choices"])}:
                    ctx.violate("model-changed", "the numbering of the pairs changed into %s" % dict(s.index_by_state_action))
                if p["rewards"] is not None and list(np.ravel(s.reward_vector)) != [float(x) for x in p["rewards"]]:
                    ctx.violate("model-changed", "rewards %s, described as %s" % (list(s.reward_vector), p["rewards"]))
            for st in {c[0] for c in p["choices"]}:
                if set(s.actions_by_state[st]) != {c[1] for c in p["choices"] if c[0] == st}:
                    ctx.violate("wrong-lookup", "actions of state %d: %s" % (st, s.actions_by_state[st]))
        ctx.sig = ["c16", [o["op"] for o in sc["ops"]], [len(mp.rel) for mp in maps]]
        ctx.nontrivial = any(mp.rel for mp in maps)
