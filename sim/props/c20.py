"""Systems given to the constructors of the forms: well-formed ones, ones with one or two flaws, and what is left of a
well-formed one after its files were damaged.  Accepted exactly if well-formed; then everything the form says is right."""
import copy, os
import numpy as np
import models, oracle
from common import *

FLAWS = ("second_init", "no_init", "second_target", "no_target", "second_fail", "no_fail", "target_leaks", "fail_leaks", "target_extra", "fail_extra", "rows_swapped",
         "row_first", "unreachable", "island", "trap", "trap", "labels_swapped", "target_elsewhere", "fail_elsewhere", "renumbered", "cut_off", "same_names", "init_on_target",
         "init_on_fail", "missing_name", "trap_pair", "extra_end", "gap")


def desc(rng, rewards):
    """A well-formed description: ordinary states, then target, then failure state."""
    m = models.gen(rng, n=rng.randint(2, 8), rewards=rewards, proper_target=rewards, steps=30.0, extra_labels=rng.choice((0, 1, 2)))
    ref = oracle.of_model(m)
    keep = [s for s in range(m["n"]) if ref.kept[s]]
    rng.shuffle(keep)
    ix = {s: i for i, s in enumerate(keep)}
    N = len(keep)
    rows, rw = [], []
    for i, (s, a, tr) in enumerate(m["choices"]):
        if s not in ix:
            continue
        d = {}
        if s in ref.targets:
            d[N] = 1.0
        else:
            for t, p in tr:
                k = ix.get(t, N + 1)
                d[k] = d.get(k, 0.0) + p
        rows.append([ix[s], a, [[t, p] for t, p in d.items()]])
        rw.append(m["rewards"][i] if rewards else 0.0)
    if m["kind"] == "mdp":
        z = list(zip(rows, rw))
        rng.shuffle(z)
        rows, rw = [list(x) for x in zip(*z)]
    else:
        z = sorted(zip(rows, rw), key=lambda q: q[0][0])
        rows, rw = [list(x) for x in zip(*z)]
    labels = {l: sorted(ix[s] for s in v if s in ix) for l, v in m["labels"].items() if l not in ("init", "target")}
    labels["init"] = [ix[ref.init]]
    d = {"kind": m["kind"], "n": N + 2, "choices": rows + [[N, 0, [[N, 1.0]]], [N + 1, 0, [[N + 1, 1.0]]]], "labels": labels, "alabels": {}, "rewards": (rw + [0.0, 0.0]) if rewards else None,
         "form": m["form"]}
    labels["goal"], labels["bad"] = [N], [N + 1]
    if rewards:         # no failure state: it is added by the constructor
        if any(t == N + 1 for _, _, tr in rows for t, _ in tr):
            return None
        d["n"] -= 1
        d["choices"].pop()
        d["rewards"].pop()
        del labels["bad"]
    return d


def flaw(d, k, rng):
    N = d["n"] - (2 if "bad" in d["labels"] else 1)
    L, rows = d["labels"], d["choices"]
    T, F = N, N + 1
    fails = "bad" in L
    mdp = d["kind"] == "mdp"

    def newstate(tr, at):
        for c in rows:
            c[0] += c[0] >= at
            for e in c[2]:
                e[0] += e[0] >= at
        for l in L:
            L[l] = [x + (x >= at) for x in L[l]]
        d["n"] += 1
        pos = rng.randint(0, len(rows) - (2 if fails else 1)) if mdp else at
        rows.insert(pos, [at, 0, [[x + (x >= at), p] for x, p in tr]])
        if d["rewards"] is not None:
            d["rewards"].insert(pos, 0.0)
    if k == "second_init":
        L["init"] = sorted(set(L.get("init", []) + [rng.randrange(d["n"])]))
    elif k in ("no_init", "no_target", "no_fail"):
        L[{"no_init": "init", "no_target": "goal", "no_fail": "bad"}[k]] = []
    elif k == "missing_name":
        L.pop(rng.choice(("init", "goal", "bad")), None)
    elif k == "second_target":
        L["goal"] = sorted(set(L.get("goal", []) + [rng.randrange(d["n"])]))
    elif k == "second_fail":
        L["bad"] = sorted(set(L.get("bad", []) + [rng.randrange(d["n"])]))
    elif k in ("target_leaks", "fail_leaks"):
        for c in rows:
            if c[0] == (T if k == "target_leaks" else F):
                c[2] = rng.choice(([[c[0], 0.5], [0, 0.5]], [[0, 1.0]], [[T, 1.0]], [[d["n"] - 1, 1.0]]))
    elif k in ("target_extra", "fail_extra"):
        if mdp:
            s = T if k == "target_extra" else min(F, d["n"] - 1)
            pos = rng.choice((len(rows), 0, len(rows) - 1))
            rows.insert(pos, [s, max([c[1] for c in rows if c[0] == s] + [0]) + 1, [[s, 1.0]]])
            if d["rewards"] is not None:
                d["rewards"].insert(pos, 0.0)
    elif k in ("rows_swapped", "row_first"):
        i = len(rows) - 1 if k == "rows_swapped" else rng.choice((len(rows) - 1, len(rows) - 2))
        j = len(rows) - 2 if k == "rows_swapped" else 0
        rows[i], rows[j] = rows[j], rows[i]
    elif k == "unreachable":
        newstate([[rng.randrange(d["n"]), 1.0]], rng.choice((0, N)))
    elif k == "island":
        at = rng.choice((0, N))
        newstate([], at)
        for c in rows:
            if c[0] == at and not c[2]:
                c[2] = [[at, 1.0]]
    elif k in ("trap", "trap_pair"):
        at = rng.choice((0, N))
        newstate([], at)
        for c in rows:
            if c[0] == at and not c[2]:
                c[2] = [[at, 1.0]]
        src = [c for c in rows if c[2][0][0] != at and c[0] not in L.get("goal", []) + L.get("bad", [])]
        if src:
            c = rng.choice(src)
            p = c[2][0][1]
            c[2][0][1] = p / 2
            c[2].append([at, p / 2])
        if k == "trap_pair" and mdp:
            others = [s for s in range(N + 1) if s != at]
            rows.insert(0, [at, 1, [[rng.choice(others), 1.0]]])
            if d["rewards"] is not None:
                d["rewards"].insert(0, 0.0)
    elif k == "labels_swapped":
        if fails:
            L["goal"], L["bad"] = L.get("bad", []), L.get("goal", [])
    elif k == "target_elsewhere":
        L["goal"] = [rng.randrange(N)]
    elif k == "fail_elsewhere":
        L["bad"] = [rng.randrange(d["n"])]
    elif k == "init_on_target":
        L["init"] = [T]
    elif k == "init_on_fail":
        L["init"] = [d["n"] - 1]
    elif k == "renumbered":
        per = list(range(d["n"]))
        if rng.random() < 0.5:
            a, b = rng.sample(per, 2)
            per[a], per[b] = b, a
        else:
            rng.shuffle(per)
        for c in rows:
            c[0] = per[c[0]]
            for e in c[2]:
                e[0] = per[e[0]]
        for l in L:
            L[l] = sorted(per[x] for x in L[l])
        if not mdp and rng.random() < 0.5:
            rows.sort()
    elif k == "cut_off":        # one state loses its way to the target, or the way to it
        s = rng.randrange(max(1, N))
        if rng.random() < 0.5:
            for c in rows:
                if c[0] == s:
                    c[2] = [[s, 1.0]] if rng.random() < 0.5 or not fails else [[F, 1.0]]
        else:
            for c in rows:
                tr = {}
                for t, p in c[2]:
                    t = (T if c[0] != F else F) if t == s and c[0] != s else t
                    tr[t] = tr.get(t, 0.0) + p
                c[2] = [[t, p] for t, p in tr.items()]
    elif k == "extra_end":      # one more end component in front of the target
        s = rng.randrange(max(1, N))
        if mdp:
            rows.insert(0, [s, max([c[1] for c in rows if c[0] == s] + [0]) + 1, [[s, 1.0]]])
            if d["rewards"] is not None:
                d["rewards"].insert(0, 0.0)
    elif k == "gap":
        if mdp:
            c = rng.choice(rows)
            c[1] += 7
    return d


def gen(rng, i, tier):
    while True:
        sc = gen1(rng, i, tier)
        if valid(sc):
            return sc


def gen1(rng, i, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        rewards = rng.random() < 0.25
        d = None
        while d is None:
            d = desc(rng, rewards)
        r = rng.random()
        fl = [] if r < 0.35 else [rng.choice(FLAWS)] if r < 0.85 else [rng.choice(FLAWS), rng.choice(FLAWS)]
        for k in fl:
            flaw(d, k, rng)
        names = ["init", "goal", "bad"]
        if "same_names" in fl:
            names[rng.randrange(3)] = names[rng.randrange(3)]
        if rng.random() < 0.05:
            names[rng.randrange(3)] = "nowhere"
        via = "direct"
        damage = None
        if not rewards and rng.random() < 0.35:
            via = "file"
            damage = rng.choice((None, "torn", "digit", "digit", "line", "swap", "label"))
        ops.append({"desc": d, "rewards": rewards, "names": names, "via": via, "damage": [damage, rng.randrange(1000), rng.randrange(1000)],
                    "ask": rng.choice((None, "min", "max")), "solver": rng.choice(("cbc", "glpk", "cbc", "glpk", "gurobi"))})
    return {"ops": ops, "faults": faults(rng, len(ops), p_none=0.6, disk=0.0), "styles": rng.choice((["plain"], ["plain", "alt", "mid"]))}


def valid(sc):
    for o in sc["ops"]:
        d = o["desc"]
        if d["n"] < 3 or {c[0] for c in d["choices"]} != set(range(d["n"])) or len({(c[0], c[1]) for c in d["choices"]}) != len(d["choices"]):
            return False
        if any(abs(sum(p for _, p in c[2]) - 1) > 1e-9 or len({t for t, _ in c[2]}) != len(c[2]) for c in d["choices"]):
            return False
    return True


def shrinks(sc):
    for k, o in enumerate(sc["ops"]):
        for key, v in (("ask", None), ("via", "direct")):
            if o[key] != v:
                c = copy.deepcopy(sc)
                c["ops"][k][key] = v
                yield c
        d = o["desc"]
        for x in range(d["n"] - 2):
            c = copy.deepcopy(sc)
            try:
                c["ops"][k]["desc"] = models.without_state(d, x)
            except Exception:
                continue
            yield c
        for j, ch in enumerate(d["choices"]):
            if d["kind"] == "mdp" and sum(1 for q in d["choices"] if q[0] == ch[0]) > 1:
                c = copy.deepcopy(sc)
                del c["ops"][k]["desc"]["choices"][j]
                if d["rewards"] is not None:
                    del c["ops"][k]["desc"]["rewards"][j]
                yield c
        for l in d["labels"]:
            if l not in o["names"]:
                c = copy.deepcopy(sc)
                del c["ops"][k]["desc"]["labels"][l]
                yield c


def plain(system):
    """Description of a real system."""
    idx = sorted((i, s, a) for (s, a), i in dict(system.index_by_state_action).items())
    return {"n": system.N, "choices": [[int(s), a, [[t, p] for t, p in row(system.P, i).items()]] for i, s, a in idx],
            "labels": {l: sorted(int(x) for x in v) for l, v in system.states_by_label.items()}, "rewards": None}


def reach(n, edges, start):
    adj = {}
    for a, b in edges:
        adj.setdefault(a, []).append(b)
    seen, todo = set(start), list(start)
    while todo:
        for y in adj.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def flawless(d, names, rewards):
    """Why the description is no reachability form, or None."""
    names = names[:2] if rewards else names
    if len(set(names)) != len(names):
        return "names coincide"
    marks = [d["labels"].get(l, []) for l in names]
    if any(len(x) != 1 for x in marks):
        return "labels mark %s" % marks
    n, rows = d["n"], d["choices"]
    ends = [marks[1][0]] if rewards else [marks[1][0], marks[2][0]]
    for k, s in enumerate(reversed(ends)):
        if s != n - 1 - k:
            return "state %d is not at position %d" % (s, n - 1 - k)
        own = [j for j, c in enumerate(rows) if c[0] == s]
        if own != [len(rows) - 1 - k] or [t for t, _ in rows[own[0]][2]] != [s]:
            return "state %d is not absorbing with its only pair at %d" % (s, len(rows) - 1 - k)
    edges = [(c[0], t) for c in rows for t, _ in c[2]]
    rest = set(range(n)) - set(ends[1:])
    if not rest <= reach(n, edges, [marks[0][0]]):
        return "unreachable states"
    if not rest <= reach(n, [(b, a) for a, b in edges], [ends[0]]):
        return "states that do not reach the target"
    if rewards and system_of(d, marks[0][0], 1).mecs():
        return "end components besides the target"
    return None


def system_of(d, init, ends):
    N = d["n"] - ends
    ch = [[] for _ in range(N)]
    for i, (s, a, tr) in enumerate(d["choices"]):
        if s < N:
            ch[s].append(((s, a), {t: p for t, p in tr if t < N}, sum(p for t, p in tr if t == N), d["rewards"][i] if d["rewards"] else 0.0))
    return oracle.Sys(N, ch, init)


def run(ctx, sc):
    from switss.model import DTMC, MDP, ReachabilityForm, RewardReachabilityForm
    with ctx.world() as w:
        stats = []

        def request(k, o, healthy):
            d, names, rewards = o["desc"], o["names"], o["rewards"]
            what = "form %d" % k
            system = must(ctx, ctx.call(models.build, d), what)
            truth = d
            if o["via"] == "file":
                path = os.path.join(w.scratch, "s%d" % k)
                must(ctx, ctx.call(system.save, path), what + " save")
                kind, x, y = o["damage"]
                if kind:
                    ext = (".tra", ".lab")[x % 2] if kind != "label" else ".lab"
                    data = w.read_bytes(path + ext).decode()
                    lines = data.splitlines()
                    if kind == "torn":
                        data = data[:len(data) * y // 1000]
                    elif kind in ("digit", "label"):
                        at = [j for j, c in enumerate(data) if c.isdigit() and (kind != "label" or j > len(lines[0]))]
                        if at:
                            j = at[y % len(at)]
                            data = data[:j] + str(x % 10) + data[j + 1:]
                    elif kind == "line" and len(lines) > 1:
                        del lines[1 + y % (len(lines) - 1)]
                        data = "\n".join(lines) + "\n"
                    elif kind == "swap" and len(lines) > 2:
                        a, b = 1 + x % (len(lines) - 1), 1 + y % (len(lines) - 1)
                        lines[a], lines[b] = lines[b], lines[a]
                        data = "\n".join(lines) + "\n"
                    w.write_bytes(path + ext, data.encode())
                    w.fire("stored_system_" + kind)
                cls = DTMC if d["kind"] == "dtmc" else MDP
                r = ctx.call(cls.from_file, path + ".lab", path + ".tra")
                if not r.ok:
                    if not kind:
                        must(ctx, r, what + " load")
                    stats.append("unloadable")
                    return
                system = r.value
                truth = must(ctx, ctx.call(plain, system), what)
                have = [c[0] for c in truth["choices"]]
                if len(have) != len(truth["choices"]) or len(have) != system.C or any(not 0 < p <= 1 + 1e-9 for c in truth["choices"] for _, p in c[2]) or \
                        any(abs(sum(p for _, p in c[2]) - 1) > 1e-6 for c in truth["choices"]):
                    stats.append("no model")        # what loads is C07's business
                    return
            why = flawless(truth, names, rewards)
            if rewards:
                r = ctx.call(RewardReachabilityForm.fromsystem, system, names[0], names[1])
            else:
                r = ctx.call(ReachabilityForm, system, *names)
            if why is not None:
                if r.ok:
                    ctx.violate("accepted-malformed", "%s: accepted although %s" % (what, why))
                stats.append("refused")
                ctx.note(what, "refused")
                return
            rf = must(ctx, r, "%s is well-formed, but building it" % what)
            stats.append("accepted")
            init = truth["labels"][names[0]][0]
            sysm = system_of(truth, init, 1 if rewards else 2)
            N, C = truth["n"] - (1 if rewards else 2), len(truth["choices"]) - (1 if rewards else 2)
            S = rf.system
            if (S.N, S.C, rf.initial) != (N + 2, C + 2, init):
                ctx.violate("wrong-form", "%s: N=%s C=%s initial=%s, expected %s" % (what, S.N, S.C, rf.initial, (N + 2, C + 2, init)))
            pairs = {(c[0], c[1]): j for j, c in enumerate(truth["choices"][:C])}
            if dict(rf.index_by_state_action) != pairs:
                ctx.violate("wrong-form", "%s: index_by_state_action %s, expected %s" % (what, dict(rf.index_by_state_action), pairs))
            for j, (s, a, tr) in enumerate(truth["choices"][:C]):
                want = {t: p for t, p in tr if t < N}
                t = sum(p for x, p in tr if x == N)
                A = {x: -p for x, p in want.items()}
                A[s] = A.get(s, 0.0) + 1.0
                if row(S.P, j) != {x: p for x, p in tr}:
                    ctx.violate("wrong-form", "%s: row %d of the system is %s" % (what, j, row(S.P, j)))
                got = row(rf.A, j)
                if any(abs(got.get(x, 0.0) - A.get(x, 0.0)) > 1e-12 for x in set(got) | set(A)):
                    ctx.violate("wrong-form", "%s: row %d of A is %s, expected %s" % (what, j, got, A))
                if not rewards:
                    if row(rf.P, j) != want:
                        ctx.violate("wrong-form", "%s: row %d of P is %s, expected %s" % (what, j, row(rf.P, j), want))
                    if abs(float(np.asarray(rf.to_target).ravel()[j]) - t) > 1e-12:
                        ctx.violate("wrong-form", "%s: to_target[%d]" % (what, j))
            mecs = [c for c, _ in sysm.mecs()]
            if not rewards:
                if tuple(rf.P.shape) != (C, N) or tuple(rf.A.shape) != (C, N) or np.asarray(rf.to_target).size != C:
                    ctx.violate("wrong-form", "%s: shapes" % what)
                if (rf.target_state_idx, rf.fail_state_idx, rf.target_sap_idx, rf.fail_sap_idx) != (N, N + 1, C, C + 1) or \
                        (rf.initial_label, rf.target_label, rf.fail_label) != tuple(names):
                    ctx.violate("wrong-form", "%s: positions or names of target and failure state" % what)
                inec = [any(s in c for c in mecs) for s in range(N)]
                if [bool(rf.in_proper_ec(s)) for s in range(N)] != inec:
                    ctx.violate("wrong-form", "%s: in_proper_ec says %s, expected %s" % (what, [bool(rf.in_proper_ec(s)) for s in range(N)], inec))
                if rf.nr_of_proper_mecs != len(mecs) or bool(rf.is_ec_free) != (not mecs) or rf.nr_of_mecs != len(mecs) + inec.count(False):
                    ctx.violate("wrong-form", "%s: %s end components, %s proper, ec-free %s; expected %s, %s" % (what, rf.nr_of_mecs, rf.nr_of_proper_mecs, rf.is_ec_free, len(mecs) + inec.count(False), len(mecs)))
                ids = [int(x) for x in rf.state_to_mec]
                groups = {}
                for s, x in enumerate(ids):
                    groups.setdefault(x, set()).add(s)
                if len(ids) != N or {frozenset(g) for g in groups.values()} != {frozenset(c) for c in mecs} | {frozenset([s]) for s in range(N) if not inec[s]}:
                    ctx.violate("wrong-form", "%s: state_to_mec is %s" % (what, ids))
            elif list(np.asarray(rf.reward_vector, dtype=float)) != list(truth["rewards"][:C]):
                ctx.violate("wrong-form", "%s: rewards %s" % (what, rf.reward_vector))
            if o["ask"]:
                f0 = fired(w)
                f = getattr(rf, ("rew_" if rewards else "pr_") + o["ask"])
                r = ctx.call(f, solver=o["solver"])
                if r.ok:
                    true = (sysm.rew if rewards else sysm.pr)(o["ask"])
                    tol = (2e-6 + 1e-7 * sysm.max_steps()) * 30 * (1 + (max(true) if rewards and len(true) else 0))
                    same(ctx, vector(ctx, r.value, N, what), true, tol, "wrong-values", what + " " + o["ask"])
                elif healthy or fired(w) == f0:
                    must(ctx, r, what + " " + o["ask"])
            if o["via"] == "direct":
                check_unchanged(ctx, d, system)
                if system.N != d["n"] or system.C != len(d["choices"]) or set(system.states_by_label.keys()) - set(d["labels"]):
                    ctx.violate("model-changed", "%s: the caller's system has changed" % what)
        for k, o in enumerate(sc["ops"]):
            request(k, o, False)
            ctx.note(stats[-1])
        heal(w)
        for k, o in enumerate(sc["ops"]):
            request(k + len(sc["ops"]), o, True)
        ctx.sig = ["c20", [(o["desc"]["kind"], o["desc"]["n"], o["rewards"], o["via"], str(o["damage"][0])) for o in sc["ops"]], stats, sorted(w.fired)]
        ctx.nontrivial = True
