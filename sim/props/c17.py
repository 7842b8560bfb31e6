import copy
import models, oracle
from common import *
from minim import Form

"""The other party is a stand-in for stormpy's sparse model: same attributes, and it fails where the real one can."""


class Labeling:
    def __init__(self, w, table, what):
        self._w, self._t, self._what = w, table, what

    def _get(self, i):
        touch(self._w)
        if not 0 <= i < len(self._t):
            raise RuntimeError("index out of range")
        return self._t[i]

    def get_labels_of_state(self, i):
        if self._what != "state":
            raise AttributeError("get_labels_of_state")
        return self._get(i)

    def get_labels_of_choice(self, i):
        if self._what != "choice":
            raise AttributeError("get_labels_of_choice")
        return self._get(i)


def touch(w):
    i, f = w.site("stormpy")
    if f is not None:
        w.fire("stormpy_" + f["kind"])
        raise {"error": RuntimeError("storm: bad access"), "memory": MemoryError("std::bad_alloc"), "index": IndexError("vector::_M_range_check")}[f["kind"]]


class Entry:
    def __init__(self, w, col, p):
        self._w, self.column, self._p = w, col, p

    def value(self):
        touch(self._w)
        return self._p


class Action:
    def __init__(self, w, i, row):
        self._w, self.id, self._row = w, i, row

    @property
    def transitions(self):
        touch(self._w)
        return iter([Entry(self._w, d, p) for d, p in self._row])


class State:
    def __init__(self, w, i, rows):
        self._w, self.id, self._rows = w, i, rows

    @property
    def actions(self):
        touch(self._w)
        return iter([Action(self._w, a, r) for a, r in enumerate(self._rows)])


class Sparse:
    """rows[s] = list of rows (one per choice), each a list of (column, probability)."""
    def __init__(self, w, rows, slabels, clabels):
        self._w, self._rows, self._s, self._c = w, rows, slabels, clabels
        self.nr_states = len(rows)
        self.nr_choices = sum(map(len, rows))
        self.nr_transitions = sum(len(r) for x in rows for r in x)

    @property
    def states(self):
        touch(self._w)
        return [State(self._w, s, r) for s, r in enumerate(self._rows)]

    @property
    def labeling(self):
        return Labeling(self._w, self._s, "state")

    def has_choice_labeling(self):
        return self._c is not None

    @property
    def choice_labeling(self):
        if self._c is None:
            raise RuntimeError("bad optional access")
        return Labeling(self._w, self._c, "choice")

    def get_choice_index(self, s, a):
        touch(self._w)
        if not (0 <= s < len(self._rows) and 0 <= a < len(self._rows[s])):
            raise RuntimeError("invalid choice")
        return sum(len(r) for r in self._rows[:s]) + a


def gen(rng, i, tier):
    ms = []
    for _ in range(rng.choice((1, 1, 2))):
        m = models.gen(rng, n=rng.randint(2, 9), steps=1e6, extra_labels=rng.choice((0, 2)))
        ren = {}
        for s, a, _ in sorted((c[0], c[1], 0) for c in m["choices"]):
            ren[(s, a)] = sum(1 for x in ren if x[0] == s)
        m["choices"] = sorted([s, ren[(s, a)], tr] for s, a, tr in m["choices"])
        m["alabels"] = {l: sorted([s, ren[(s, a)]] for s, a in ps) for l, ps in m["alabels"].items()} if m["kind"] == "mdp" else {}
        m["rewards"], m["form"] = None, "dok"
        ms.append(m)
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.randrange(len(ms))
        ops.append([k, rng.choice(("plain", "plain", "choice") if ms[k]["kind"] == "mdp" else ("plain", "plain", "choice?"))])
    fs = []
    if rng.random() < 0.5:
        for _ in range(rng.choice((1, 1, 2, 4))):
            fs.append({"at": ["stormpy", rng.choice((rng.randrange(20), rng.randrange(200)))], "kind": rng.choice(("error", "memory", "index"))})
    if rng.random() < 0.1:
        fs.append(line_fault(rng, 200 * len(ops)))
    sc = {"nm": len(ms), "ops": ops, "faults": fs, "disturb": rng.random() < 0.3, "choice_labels": rng.random() < 0.9}
    for k, m in enumerate(ms):
        sc["model%d" % k] = m
    return sc


def valid(sc):
    for k in range(sc["nm"]):
        m = sc.get("model%d" % k)
        if m is None or any(a != sum(1 for x in m["choices"][:i] if x[0] == s) for i, (s, a, _) in enumerate(m["choices"])) or sorted(m["choices"]) != m["choices"]:
            return False
    return all(o[0] < sc["nm"] and ("?" in o[1]) <= (sc["model%d" % o[0]]["kind"] == "dtmc") and (o[1] != "choice" or sc["model%d" % o[0]]["kind"] == "mdp") for o in sc["ops"])


def choice_model(m):
    """States, then one state per choice carrying its labels."""
    n, c = m["n"], len(m["choices"])
    labels = {l: list(v) for l, v in m["labels"].items()}
    for i, (s, a, tr) in enumerate(m["choices"]):
        for l, ps in m["alabels"].items():
            if [s, a] in ps:
                labels.setdefault(l, []).append(n + i)
    labels.setdefault("state", []).extend(range(n))
    labels.setdefault("choice", []).extend(range(n, n + c))
    return {"n": n + c, "labels": {l: sorted(set(v)) for l, v in labels.items() if v}, "rows": [(s, a, {n + i: 1.0}) for i, (s, a, _) in enumerate(m["choices"])],
            "inner": [(n + i, dict(map(tuple, tr))) for i, (_, _, tr) in enumerate(m["choices"])]}


def run(ctx, sc):
    from switss.model import DTMC, MDP, ReachabilityForm
    stats = []
    with ctx.world() as w:
        src = {}
        for k in range(sc["nm"]):
            m = sc["model%d" % k]
            rows = [[[tuple(x) for x in tr] for s2, _, tr in m["choices"] if s2 == s] for s in range(m["n"])]
            sl = [{l for l, v in m["labels"].items() if s in v} for s in range(m["n"])]
            cl = [{l for l, ps in m["alabels"].items() if [s, a] in [list(x) for x in ps]} for s, a, _ in m["choices"]]
            src[k] = (Sparse(w, rows, sl, cl if sc["choice_labels"] or m["kind"] == "dtmc" else None), copy.deepcopy((rows, sl, cl)), (rows, sl, cl))

        def intact(what):
            for k, (_, was, now) in src.items():
                if was != now:
                    ctx.violate("source-changed", "%s changed the imported stormpy model" % what)
        got = []

        def judge(real, k, kind, what):
            m = sc["model%d" % k]
            if kind == "plain":
                bad = equals_model(m, real)
                if bad:
                    ctx.violate("wrong-model", "%s: %s" % (what, bad))
                if m["kind"] == "mdp":
                    for l in set(m["alabels"]) | set(real.actions_by_label.keys()):
                        want = {tuple(x) for x in m["alabels"].get(l, [])}
                        if {tuple(x) for x in real.actions_by_label[l]} != want:
                            ctx.violate("wrong-model", "%s: action label %s marks %s, expected %s" % (what, l, real.actions_by_label[l], sorted(want)))
                return
            want = choice_model(m)
            if real.N != want["n"] or real.C != len(want["rows"]) + len(want["inner"]):
                ctx.violate("wrong-model", "%s: N=%s C=%s" % (what, real.N, real.C))
            ib = dict(real.index_by_state_action)
            per = {}
            for (s, a), i in ib.items():
                per.setdefault(s, []).append((a, row(real.P, i)))
            if sorted(ib.values()) != list(range(real.C)) or set(per) != set(range(real.N)):
                ctx.violate("wrong-model", "%s: state-action pairs %s" % (what, ib))
            for s in range(m["n"]):
                if sorted(map(str, per[s])) != sorted(str((a, r)) for s2, a, r in want["rows"] if s2 == s):
                    # which choice state stands for which choice is judged by what it does
                    ctx.violate("wrong-model", "%s: state %d has %s, expected %s" % (what, s, per[s], [x for x in want["rows"] if x[0] == s]))
            for s, r in want["inner"]:
                if len(per[s]) != 1 or set(per[s][0][1]) != set(r) or any(abs(per[s][0][1][d] - r[d]) > 1e-12 for d in r):
                    ctx.violate("wrong-model", "%s: choice state %d has %s, expected %s" % (what, s, per[s], r))
            for l in set(want["labels"]) | set(real.states_by_label.keys()):
                if set(real.states_by_label[l]) != set(want["labels"].get(l, ())):
                    ctx.violate("wrong-model", "%s: label %s marks %s, expected %s" % (what, l, sorted(real.states_by_label[l]), want["labels"].get(l, [])))

        def do(k, kind, healthy):
            m = sc["model%d" % k]
            f0 = fired(w)
            what = "import of model %d (%s)" % (k, kind)
            cls = DTMC if m["kind"] == "dtmc" else MDP
            kw = {} if kind == "plain" else {"choice_model": True}
            r = stopped(ctx, w, cls.from_stormpy, src[k][0], **kw)
            intact(what)
            faulty = fired(w) > f0
            if kind == "choice?":
                if r.ok:
                    ctx.violate("wrong-model", "a choice model of a Markov chain: %r" % r.value)
                stats.append("refused")
                return
            if not r.ok:
                stats.append("raised")
                if not faulty and (src[k][0].has_choice_labeling() or m["kind"] == "dtmc"):
                    must(ctx, r, what)
                return
            if faulty:
                stats.append("through")
            judge(r.value, k, kind, what)
            stats.append(kind)
            got.append((r.value, k, kind, what))
        for k, kind in sc["ops"]:
            do(k, kind, False)
        heal(w)
        for k, kind in sc["ops"][:2]:
            do(k, kind, True)
        for real, k, kind, what in got:
            judge(real, k, kind, what + ", later")
        # and it can be used: same probabilities, with and without the states for choices
        for real, k, kind, what in got[-2:]:
            m = sc["model%d" % k]
            ref = oracle.of_model(m)
            r = must(ctx, ctx.call(ReachabilityForm.reduce, real, "init", "target"), what + " reduce")
            for mode in ("min", "max"):
                v = float(must(ctx, ctx.call(r[0].pr_min if mode == "min" else r[0].pr_max), what)[r[0].initial])
                t = float(ref.pr(mode)[ref.init])
                if ref.max_steps() < 60 and abs(v - t) > 1e-4:
                    ctx.violate("wrong-model", "%s: probability %s is %.9g, the model's is %.9g" % (what, mode, v, t))
        if sc["disturb"] and got:
            # the imported model is the caller's own
            real, k, kind, what = got[0]
            real.add_label(0, "mine")
            intact("adding a label to the imported model")
            for r2, k2, kind2, what2 in got[1:]:
                if r2 is not real:
                    judge(r2, k2, kind2, what2)
        ctx.sig = ["c17", [(sc["model%d" % k]["n"], sc["model%d" % k]["kind"]) for k in range(sc["nm"])], sc["ops"], stats]
        ctx.nontrivial = any(x in stats for x in ("plain", "choice", "raised"))
