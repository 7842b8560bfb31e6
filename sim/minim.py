"""Shared by the minimisation properties: requests, running them, judging one result."""
import numpy as np
import oracle
from common import *

INITS = ("AllOnesInitializer", "InverseReachabilityInitializer", "InverseFrequencyInitializer", "InverseCombinedInitializer")
SOLVERS = ("cbc", "cbc", "cbc", "glpk", "glpk", "gurobi")
UPDS = ("InverseResultUpdater", "InverseResultUpdater", "InverseResultFixedZerosUpdater")


def gen_method(rng, exact=None):
    if exact if exact is not None else rng.random() < 0.4:
        return {"type": "MILPExact", "solver": rng.choice(SOLVERS)}
    return {"type": "QSHeur", "solver": rng.choice(SOLVERS), "iterations": rng.choice((1, 2, 3, 3, 5)),
            "init": rng.choice(INITS + ("AllOnesInitializer",)), "upd": rng.choice(UPDS)}


def make_method(d):
    import switss.problem as P
    from switss.problem import qsheurparams as Q
    if d["type"] == "MILPExact":
        return P.MILPExact(solver=d["solver"])
    return P.QSHeur(solver=d["solver"], iterations=d["iterations"], initializertype=getattr(Q, d["init"]), updatertype=getattr(Q, d["upd"]))


def gen_second(rng, sc, **kw):
    """Now and then some requests go to a second form, by the same method objects."""
    import models
    if rng.random() < 0.15 and len(sc["ops"]) > 1:
        sc["second"] = models.gen(rng, **kw)
        for o in sc["ops"]:
            o["form"] = rng.randrange(2)
            if o["labels"] and o["form"]:
                o["labels"] = None
    return sc


def forms(ctx, sc):
    return [Form(ctx, m, sc["rewards"]) for m in [sc["model"]] + ([sc["second"]] if "second" in sc else [])]


def method(cache, d):
    """One object per description: users keep their method objects."""
    if str(d) not in cache:
        cache[str(d)] = make_method(d)
    return cache[str(d)]


class Form:
    """A real form plus what is true about it."""

    def __init__(self, ctx, m, rewards, model=None, names=("init", "target", "rf_target", "rf_fail")):
        import models
        from switss.model import ReachabilityForm, RewardReachabilityForm
        self.m, self.rewards = m, rewards
        self.ref = oracle.of_model(m, names[0], names[1])
        self.model = models.build(m) if model is None else model
        cls = RewardReachabilityForm if rewards else ReachabilityForm
        kw = {} if rewards or names[2:] == ("rf_target", "rf_fail") else {"new_target_label": names[2], "new_fail_label": names[3]}
        self.rf, cols, rows = must(ctx, ctx.call(cls.reduce, self.model, names[0], names[1], **kw), "reduce")
        self.cols, self.rows = dict(cols), rows
        s = self.rf.system
        self.C, self.N = s.C - 2, s.N - 2
        # truth about the form comes from the model, not from the form
        inv = {j: st for st, j in self.cols.items()}
        ch = [[] for _ in range(self.N)]
        for i, (st, a, tr) in enumerate(m["choices"]):
            if st in self.cols:
                t = 1.0 if st in self.ref.targets else 0.0
                d2 = {} if t else {self.cols[d]: p for d, p in tr if d in self.cols}
                ch[self.cols[st]].append(((self.cols[st], a), d2, t, m["rewards"][i] if m["rewards"] is not None else 0.0))
        self.sys = oracle.Sys(self.N, ch, self.cols[self.ref.init])
        self.T = self.sys.max_steps()
        self.fan = [sum(len(tr) for _, tr, _, _ in c) for c in ch]
        self.ecs = set()
        for C, _ in self.sys.mecs():
            self.ecs |= C
        self._v = {}

    def value(self, mode, mask=None):
        f = self.sys.rew if self.rewards else self.sys.pr
        if mask is None:
            if mode not in self._v:
                self._v[mode] = float(f(mode)[self.sys.init])
            return self._v[mode]
        if not mask[self.sys.init]:
            return 0.0
        return float(f(mode, mask)[self.sys.init])

    def scale(self, mode):
        return 1.0 + (self.value("max") if self.rewards else 0.0)

    def tol(self, mode):
        return (2e-6 + 1e-7 * self.T) * self.scale(mode) * 3

    def threshold(self, spec, mode):
        kind, x = spec
        v = self.value(mode)
        t = {"frac": v * x, "above": v + x * self.scale(mode), "below": v - x * self.scale(mode), "abs": x, "exact": v}[kind]
        t = max(0.0, t)
        return t if self.rewards else min(1.0, t)

    def labels_of(self, l):
        return {self.cols[s] for s in self.m["labels"].get(l, ()) if s in self.cols}


def gen_threshold(rng):
    r = rng.random()
    if r < 0.55:
        return ["frac", round(rng.uniform(0.05, 0.99), 4)]
    if r < 0.7:
        return ["below", rng.choice((1e-3, 1e-4, 0.01))]
    if r < 0.85:
        return ["above", rng.choice((1e-3, 0.01, 0.1))]
    return ["abs", rng.choice((0.0, 0.1, 0.5, 1.0, 1e-3))]


def certificate_conditions(form, mode, thr, cert, tol):
    """Do the Farkas conditions hold up to tol? -> None or what is violated"""
    s = form.sys
    if mode == "min":
        z = cert
        if (z < -tol).any():
            return "negative entry"
        for st in range(s.n):
            if st in form.ecs and z[st] > tol:
                return "positive entry %g at state %d of a proper end component" % (z[st], st)
            for key, tr, t, r in s.choices[st]:
                rhs = (r if form.rewards else t) + sum(p * z[d] for d, p in tr.items())
                if z[st] > rhs + tol:
                    return "entry %d (%g) exceeds its successors' value %g under %s" % (st, z[st], rhs, key)
        return None if z[s.init] >= thr - tol else "initial entry %g below the threshold %g" % (z[s.init], thr)
    y = cert
    idx = form.rf.system.index_by_state_action
    if (y < -tol).any():
        return "negative entry"
    net = np.zeros(s.n)
    tot = 0.0
    for st in range(s.n):
        for key, tr, t, r in s.choices[st]:
            q = y[idx[key]]
            net[st] += q
            for d, p in tr.items():
                net[d] -= p * q
            tot += q * (r if form.rewards else t)
    for st in range(s.n):
        if net[st] > (1.0 if st == s.init else 0.0) + tol:
            return "more flow leaves state %d than enters it (%g)" % (st, net[st])
    return None if tot >= thr - tol else "flow into the target %g below the threshold %g" % (tot, thr)


def check_restriction(ctx, form, mask, sub, what):
    """sub (a form) is exactly the restriction of form to mask."""
    s, o = sub.system, form.rf.system
    if hasattr(form.rf, "rew_min") != hasattr(sub, "rew_min"):
        ctx.violate("wrong-subsystem", "%s is a %s of a %s" % (what, type(sub).__name__, type(form.rf).__name__))
    keep = [i for i in range(form.N) if mask[i]]
    ren = {x: i for i, x in enumerate(keep)}
    K = len(keep)
    pairs = [(st, a) for (st, a) in dict(o.index_by_state_action) if st < form.N and mask[st]]
    if s.N != K + 2 or s.C != len(pairs) + 2:
        ctx.violate("wrong-subsystem", "%s has %d states and %d choices, expected %d and %d" % (what, s.N, s.C, K + 2, len(pairs) + 2))
    if set(dict(s.index_by_state_action)) != {(ren[st], a) for st, a in pairs} | {(K, 0), (K + 1, 0)}:
        ctx.violate("wrong-subsystem", "%s has choices %s" % (what, sorted(dict(s.index_by_state_action))))
    if s.index_by_state_action[(K, 0)] != s.C - 2 or s.index_by_state_action[(K + 1, 0)] != s.C - 1 or \
            row(s.P, s.C - 2) != {K: 1.0} or row(s.P, s.C - 1) != {K + 1: 1.0}:
        ctx.violate("wrong-subsystem", "%s: target or failure state is wrong" % what)
    for st in keep:
        for key, tr, t, r in form.sys.choices[st]:
            want = {ren[d]: p for d, p in tr.items() if mask[d]}
            if t > 0:
                want[K] = t
            fail = 1 - sum(want.values())
            j = s.index_by_state_action[(ren[st], key[1])]
            got = row(s.P, j)
            gf = got.pop(K + 1, 0.0)
            if set(got) != set(want) or any(abs(got[d] - want[d]) > 1e-9 for d in want) or abs(gf - fail) > 1e-9:
                ctx.violate("wrong-subsystem", "%s: row of %s is %s fail %s, expected %s fail %s" % (what, key, got, gf, want, fail))
            if form.m["rewards"] is not None and (s.reward_vector is None or abs(s.reward_vector[j] - r) > 1e-9):
                ctx.violate("wrong-subsystem", "%s: reward of %s" % (what, key))
    for l in form.m["labels"]:
        want = {ren[x] for x in form.labels_of(l) if x in ren}
        if set(s.states_by_label[l]) != want:
            ctx.violate("wrong-subsystem", "%s: label %s marks %s, expected %s" % (what, l, sorted(s.states_by_label[l]), sorted(want)))
    if set(s.states_by_label[form.rf.target_label]) != {K} or set(s.states_by_label["rf_fail"]) != {K + 1}:
        ctx.violate("wrong-subsystem", "%s: labels of target and failure" % what)
    if form.m["kind"] == "mdp":
        for l, ps in form.m["alabels"].items():
            want = {(ren[form.cols[x]], a) for x, a in ps if x in form.cols and form.cols[x] in ren}
            if {tuple(x) for x in s.actions_by_label[l]} != want:
                ctx.violate("wrong-subsystem", "%s: action label %s marks %s, expected %s" % (what, l, s.actions_by_label[l], want))
    if mask[form.sys.init] and sub.initial != ren[form.sys.init]:
        ctx.violate("wrong-subsystem", "%s: initial state" % what)


def consistent(form, mask):
    """Is the restriction a reachability form again (all states reachable and reaching the target)?"""
    if not mask[form.sys.init]:
        return False
    seen, todo = {form.sys.init}, [form.sys.init]
    while todo:
        x = todo.pop()
        for _, tr, _, _ in form.sys.choices[x]:
            for d in tr:
                if mask[d] and d not in seen:
                    seen.add(d); todo.append(d)
    good = form.sys._can_reach([bool(x) for x in mask])
    return all((not mask[x]) or (x in seen and good[x]) for x in range(form.N))


def mask_of(form, mode, cert):
    mask = [False] * form.N
    if mode == "min":
        for i in range(form.N):
            mask[i] = bool(cert[i] > 0)
    else:
        for (st, a), j in dict(form.rf.system.index_by_state_action).items():
            if j < form.C and cert[j] > 0:
                mask[st] = True
    return mask


def judge_success(ctx, form, mode, thr, res, what, deep=True):
    """A result that says success is a witness. Returns its mask."""
    from switss.problem import Subsystem
    n = form.N if mode == "min" else form.C
    cert = vector(ctx, res.farkas_cert, n, what + " certificate")
    tol = form.tol(mode)
    digits = 2e-5 * (float(np.abs(cert).max()) if len(cert) else 0.0)      # glpsol prints six digits
    bad = certificate_conditions(form, mode, thr, cert, tol * (1 + form.T) + digits * (1 + sum(form.fan) / max(1, form.N)))
    if bad:
        ctx.violate("bad-certificate", "%s: %s (certificate %s)" % (what, bad, cert))
    ss = res.subsystem
    if ss is None or ss.supersys is not form.rf or ss.certform != mode:
        ctx.violate("bad-subsystem", "%s: subsystem object %r" % (what, type(ss)))
    same(ctx, ss.certificate, cert, 0.0, "bad-subsystem", what + " certificate of the subsystem object")
    mask = mask_of(form, mode, cert)
    got = [bool(x) for x in ss.subsystem_mask]
    if got != mask:
        ctx.violate("bad-subsystem", "%s: mask %s but the certificate marks %s" % (what, got, mask))
    v = form.value(mode, mask)
    if v < thr - tol * (1 + form.T):
        ctx.violate("not-a-witness", "%s: the subsystem %s achieves %.10g, threshold %.10g" % (what, [i for i in range(form.N) if mask[i]], v, thr))
    if deep:
        if mask[form.sys.init]:
            s2 = must(ctx, ctx.call(lambda: Subsystem(form.rf, cert, mode, ignore_consistency_checks=True).subsys), what + " subsys")
            check_restriction(ctx, form, mask, s2, what)
        r = ctx.call(lambda: ss.subsys)
        if r.ok:
            check_restriction(ctx, form, mask, r.value, what)
        elif consistent(form, mask):
            must(ctx, r, what + " .subsys")
    return mask
