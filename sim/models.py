"""Models as plain data: generation, building the real objects, shrinking.

A model: {"kind": "dtmc"|"mdp", "n": N, "choices": [[s, a, [[d, p], ...]], ...] (row order), "labels": {l: [s, ...]},
"alabels": {l: [[s, a], ...]}, "rewards": [per row] | None, "form": how P is handed over}"""
import copy
import json
import oracle


def probs(rng, k, style):
    if k == 1:
        return [1.0]
    if style == "twentieths":
        cut = sorted(rng.sample(range(1, 20), k - 1)) if k <= 12 else None
        if cut is not None:
            b = [0] + cut + [20]
            return [(b[i + 1] - b[i]) / 20 for i in range(k)]
    if style == "thirds":
        w = [rng.randint(1, 3) for _ in range(k)]
        return [x / sum(w) for x in w]
    if style == "tiny" and rng.random() < 0.5:
        w = [1e-3] + [rng.uniform(0.2, 1) for _ in range(k - 1)]
        t = sum(w[1:])
        return [1e-3] + [x * (1 - 1e-3) / t for x in w[1:]]
    w = [rng.uniform(0.1, 1) for _ in range(k)]
    t = sum(w)
    return [x / t for x in w]


STYLES = ("twentieths", "twentieths", "thirds", "floats", "tiny")


def gen(rng, n=None, kind=None, rewards=False, ecs=True, extra_labels=0, dense=None, form=None, actions=3, steps=60.0,
        proper_target=False, alabels=True, targets=None, unreachable=True, distinct_init=False):
    """A random model with labels "init" and "target" (and "l0".. if asked). proper_target: the target is reached almost
    surely under every strategy from every state (for rewards)."""
    rich = rng.random() < 0.75
    for k in range(60):
        m = _gen(rng, n or rng.randint(2, 10), kind or rng.choice(("dtmc", "mdp", "mdp")), rewards, ecs, extra_labels, dense, form,
                 actions, proper_target, alabels, targets, unreachable, distinct_init)
        o = oracle.of_model(m)
        if not o.kept[o.init]:
            continue
        if proper_target and not o.proper():
            continue
        if rich and k < 40 and (sum(o.kept) < min(4, m["n"]) or not proper_target and o.pr("max")[o.init] > 1 - 1e-9):
            continue
        if o.max_steps() <= steps:
            if ecs and not proper_target and m["kind"] == "mdp" and not distinct_init and rng.random() < 0.3:
                m = graft(rng, m, steps)
            return m
    return simple(rng, kind or "dtmc", rewards, extra_labels)


def graft(rng, m, steps):
    """The model with an end component that can be left, where the minimal probability of the initial state stays
    positive if possible, and with its states renumbered."""
    base = m
    for _ in range(8):
        m = json.loads(json.dumps(base))
        tg, init = set(m["labels"]["target"]), m["labels"]["init"][0]
        free = [s for s in range(m["n"]) if s not in tg and s != init]
        if not free:
            return base
        ring = rng.sample(free, min(len(free), rng.choice((1, 1, 2, 3))))
        for x, y in zip(ring, ring[1:] + ring[:1]):
            a = 1 + max(c[1] for c in m["choices"] if c[0] == x)
            m["choices"].append([x, a, [[y, 1.0]]])
        if rng.random() < 0.7: # let the initial state have a chance to avoid it
            for c in m["choices"]:
                if c[0] == init:
                    t, p = rng.choice(sorted(tg)), 0.5
                    c[2] = [[d, q * (1 - p)] for d, q in c[2] if d != t] + [[t, p + sum(q * (1 - p) for d, q in c[2] if d == t)]]
        order = list(range(m["n"]))
        rng.shuffle(order)
        if rng.random() < 0.5: # the component comes last
            order = [s for s in order if s not in ring] + ring
        new = {s: i for i, s in enumerate(order)}
        m["choices"] = [[new[s], a, sorted([new[d], p] for d, p in tr)] for s, a, tr in m["choices"]]
        if rng.random() < 0.6:
            m["choices"].sort(key=lambda c: (c[0], c[1]))
        m["labels"] = {l: sorted(new[s] for s in v) for l, v in m["labels"].items()}
        m["alabels"] = {l: [[new[s], a] for s, a in v] for l, v in m["alabels"].items()}
        if m["rewards"] is not None:
            return base
        o = oracle.of_model(m)
        if valid(m) and o.kept[o.init] and o.max_steps() <= steps and (o.pr("min")[o.init] > 1e-2 or rng.random() < 0.15):
            return m
    return base


def _gen(rng, n, kind, rewards, ecs, extra_labels, dense, form, actions, proper_target, alabels, targets, unreachable, distinct_init):
    style = rng.choice(STYLES)
    sparse_actions = kind == "mdp" and rng.random() < 0.3
    shape = rng.choice(("random", "random", "chain", "layers"))
    per = []
    for s in range(n):
        k = 1 if kind == "dtmc" else rng.choice((1, 1, 2, 2, 3)[:2 + actions])
        names = rng.sample(range(0, 8), k) if sparse_actions else list(range(k))
        row = []
        for a in names:
            fan = rng.choice((1, 2, 2, 3, min(n, 5)))
            r = rng.random()
            if ecs and not proper_target and r < 0.1:
                dests = [s]
            else:
                if shape == "chain":
                    pool = [d for d in range(max(0, s - 1), min(n, s + 3))]
                elif shape == "layers":
                    pool = list(range(max(0, s - 2 if ecs else s), n))
                else:
                    pool = list(range(n))
                if proper_target and rng.random() < 0.5:
                    pool = list(range(min(s + 1, n - 1), n)) or [n - 1]
                if not ecs and not proper_target and rng.random() < 0.7:
                    pool = list(range(min(s + 1, n - 1), n))
                dests = rng.sample(pool, min(fan, len(pool)))
                if rng.random() < 0.15 and s not in dests and not proper_target:
                    dests.append(s)
            row.append((a, sorted(zip(dests, probs(rng, len(dests), style)))))
        per.append(row)
    tset = targets if targets is not None else rng.choice((1, 1, 1, 2, 3))
    if shape == "random" and not proper_target:
        tg = rng.sample(range(n), min(tset, n))
    else:
        tg = sorted({n - 1} | set(rng.sample(range(n), min(tset, n) - 1)))
    init = 0 if rng.random() < 0.6 else rng.randrange(n)
    if init in tg and (distinct_init or rng.random() < 0.8):
        rest = [s for s in range(n) if s not in tg]
        if rest:
            init = rng.choice(rest)
    # sometimes a part nobody reaches
    if unreachable and rng.random() < 0.2 and n < 12:
        per.append([(0, [(rng.randrange(n), 1.0)])])
        n += 1
    choices = [[s, a, [[d, p] for d, p in tr]] for s, row in enumerate(per) for a, tr in row]
    if rng.random() < (0.3 if kind == "mdp" else 0.2):
        rng.shuffle(choices)
    labels = {"init": [init], "target": sorted(tg)}
    for i in range(extra_labels):
        labels["l%d" % i] = sorted(s for s in range(n) if rng.random() < rng.choice((0.2, 0.5)))
    al = {}
    if kind == "mdp" and alabels and rng.random() < 0.5:
        for i in range(rng.randint(1, 2)):
            al["act%d" % i] = [[c[0], c[1]] for c in choices if rng.random() < 0.5]
    rw = None
    if rewards:
        rs = rng.choice(("int", "float", "sparse"))
        rw = [float(rng.randint(0, 5)) if rs == "int" else round(rng.uniform(0, 4), 3) if rs == "float" else float(rng.random() < 0.3) for _ in choices]
    return {"kind": kind, "n": n, "choices": choices, "labels": labels, "alabels": al, "rewards": rw,
            "form": form or rng.choice(("dok", "dok", "np", "csr", "list"))}


def simple(rng, kind, rewards, extra_labels):
    n = 4
    ch = [[0, 0, [[1, 0.5], [2, 0.5]]], [1, 0, [[3, 0.5], [2, 0.5]]], [2, 0, [[3, 1.0]]], [3, 0, [[3, 1.0]]]]
    labels = {"init": [0], "target": [3]}
    for i in range(extra_labels):
        labels["l%d" % i] = [s for s in range(n) if rng.random() < 0.5]
    return {"kind": kind, "n": n, "choices": ch, "labels": labels, "alabels": {}, "rewards": [1.0] * 4 if rewards else None, "form": "dok"}


def matrix(m, form=None):
    import numpy as np
    from scipy.sparse import dok_matrix
    form = form or m["form"]
    P = dok_matrix((len(m["choices"]), m["n"]))
    for i, (s, a, tr) in enumerate(m["choices"]):
        for d, p in tr:
            P[i, d] = p
    if form == "csr":
        return P.tocsr()
    if form == "np":
        return P.toarray()
    if form == "list":
        return P.toarray().tolist()
    return P


def build(m, raw=None):
    """The real model object; raw receives what the caller handed over."""
    from bidict import bidict
    from switss.model import DTMC, MDP
    idx = bidict({(s, a): i for i, (s, a, _) in enumerate(m["choices"])})
    ls = {l: set(v) for l, v in m["labels"].items()}
    rw = m["rewards"]
    if rw is not None:
        import numpy as np
        rw = np.array(rw, dtype=float)
    P = matrix(m)
    la = {l: {tuple(x) for x in v} for l, v in m["alabels"].items()}
    if raw is not None:
        raw.update(P=P, idx=idx, ls=ls, la=la, rw=rw)
    if m["kind"] == "dtmc":
        kw = {} if all(i == c[0] for i, c in enumerate(m["choices"])) else {"index_by_state_action": idx}
        return DTMC(P, label_to_states=ls, reward_vector=rw, **kw)
    return MDP(P, index_by_state_action=idx, label_to_actions=la, label_to_states=ls, reward_vector=rw)


def _tidy(m):
    have = {c[0] for c in m["choices"]}
    for s in range(m["n"]):
        if s not in have:
            m["choices"].append([s, 0, [[s, 1.0]]])
            if m["rewards"] is not None:
                m["rewards"].append(0.0)
    pairs = {(c[0], c[1]) for c in m["choices"]}
    m["alabels"] = {l: [x for x in v if tuple(x) in pairs] for l, v in m["alabels"].items()}
    return m


def without_state(m, x):
    c = copy.deepcopy(m)
    keep = []
    rw = []
    f = lambda s: s - (s > x)
    for i, (s, a, tr) in enumerate(m["choices"]):
        if s == x:
            continue
        new = [[f(d), p] for d, p in tr if d != x]
        lost = sum(p for d, p in tr if d == x)
        if not new:
            continue
        if lost:
            new[0][1] = round(new[0][1] + lost, 12)
        keep.append([f(s), a, new])
        if m["rewards"] is not None:
            rw.append(m["rewards"][i])
    c["choices"], c["n"] = keep, m["n"] - 1
    c["rewards"] = rw if m["rewards"] is not None else None
    c["labels"] = {l: [f(s) for s in v if s != x] for l, v in m["labels"].items()}
    c["alabels"] = {l: [[f(s), a] for s, a in v if s != x] for l, v in m["alabels"].items()}
    return _tidy(c)


def valid(m):
    if m["n"] < 1 or len(m["labels"].get("init", [0])) != 1 or m["labels"].get("target", [0]) == []:
        return False
    if not all(abs(sum(p for _, p in tr) - 1) < 1e-9 and all(0 < p <= 1 for _, p in tr) for _, _, tr in m["choices"]):
        return False
    import oracle
    ref = oracle.of_model(m)
    return bool(ref.kept[ref.init])


def shrinks(m):
    for x in range(m["n"]):
        if m["n"] > 1:
            c = without_state(m, x)
            if valid(c):
                yield c
    for i, (s, a, tr) in enumerate(m["choices"]):
        if sum(1 for c in m["choices"] if c[0] == s) > 1:
            c = copy.deepcopy(m)
            del c["choices"][i]
            if c["rewards"] is not None:
                del c["rewards"][i]
            yield _tidy(c)
    for i, (s, a, tr) in enumerate(m["choices"]):
        if len(tr) > 1:
            for j in range(len(tr)):
                c = copy.deepcopy(m)
                t = c["choices"][i][2]
                lost = t.pop(j)[1]
                t[0][1] = round(t[0][1] + lost, 12) if len(t) > 1 else 1.0
                yield c
    for i, (s, a, tr) in enumerate(m["choices"]):
        if len(tr) == 2 and [p for _, p in tr] != [0.5, 0.5]:
            c = copy.deepcopy(m)
            c["choices"][i][2] = [[d, 0.5] for d, _ in tr]
            yield c
    for l in list(m["labels"]):
        if l not in ("init", "target"):
            c = copy.deepcopy(m)
            del c["labels"][l]
            yield c
        for s in (m["labels"][l] if l != "init" else []):
            c = copy.deepcopy(m)
            c["labels"][l].remove(s)
            if l != "target" or c["labels"][l]:
                yield c
    for l in list(m["alabels"]):
        c = copy.deepcopy(m)
        del c["alabels"][l]
        yield c
    if m["rewards"] is not None and any(r not in (0.0, 1.0) for r in m["rewards"]):
        c = copy.deepcopy(m)
        c["rewards"] = [float(round(min(r, 1.0))) for r in m["rewards"]]
        yield c
    if m["form"] != "dok":
        c = copy.deepcopy(m)
        c["form"] = "dok"
        yield c
