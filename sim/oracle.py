"""Reference computations, independent of the code under test: values of MDPs by policy iteration with exact linear
solves on structures without end components, end components, witnesses by brute force."""
import numpy as np

EPS = 1e-9


class Sys:
    """States 0..n-1; choices[s] = [(key, {d: p}, t, r)]: t goes to the target at once, missing mass goes to failure."""

    def __init__(self, n, choices, init):
        self.n, self.choices, self.init = n, choices, init

    # ---- graph parts
    def _can_reach(self, mask):
        good = [mask[s] and any(t > 0 for _, _, t, _ in self.choices[s]) for s in range(self.n)]
        ch = True
        while ch:
            ch = False
            for s in range(self.n):
                if mask[s] and not good[s] and any(p > 0 and good[d] for _, tr, _, _ in self.choices[s] for d, p in tr.items()):
                    good[s] = ch = True
        return good

    def _can_avoid(self, mask):
        z = list(mask)
        ch = True
        while ch:
            ch = False
            for s in range(self.n):
                if z[s] and not any(t == 0 and all(p == 0 or not mask[d] or z[d] for d, p in tr.items()) for _, tr, t, _ in self.choices[s]):
                    z[s] = False
                    ch = True
        return z

    def mecs(self, mask=None):
        """Proper maximal end components (sets of states with a closed choice staying inside), as list of (states, keys)."""
        n = self.n
        mask = [True] * n if mask is None else list(mask)
        work = [set(s for s in range(n) if mask[s])]
        out = []
        while work:
            C = work.pop()
            ok = {s: [c for c in self.choices[s] if c[2] == 0 and abs(sum(c[1].values()) - 1) < EPS and all(d in C for d in c[1])] for s in C}
            drop = {s for s in C if not ok[s]}
            if drop:
                C2 = C - drop
                if C2:
                    work.append(C2)
                continue
            comps = sccs(sorted(C), lambda s: {d for _, tr, _, _ in ok[s] for d in tr})
            if len(comps) == 1:
                out.append((C, {c[0] for s in C for c in ok[s]}))
            else:
                work += [set(c) for c in comps]
        return out

    # ---- values
    def pr(self, mode, mask=None):
        mask = [True] * self.n if mask is None else [bool(x) for x in mask]
        v = np.zeros(self.n)
        if mode == "max":
            good = self._can_reach(mask)
            rep = list(range(self.n))
            drop = set()
            for C, keys in self.mecs(good):
                r = min(C)
                for s in C:
                    rep[s] = r
                drop |= keys
        else:
            z = self._can_avoid(mask)
            good = [mask[s] and not z[s] for s in range(self.n)]
            rep, drop = list(range(self.n)), set()
        q, names = {}, []
        for s in range(self.n):
            if good[s]:
                r = rep[s]
                if r not in q:
                    q[r] = []
                    names.append(r)
                for key, tr, t, _ in self.choices[s]:
                    if key in drop:
                        continue
                    d2 = {}
                    for d, p in tr.items():
                        if good[d]:
                            d2[rep[d]] = d2.get(rep[d], 0.0) + p
                    q[r].append((d2, t))
        val = policy_iteration(names, q, mode)
        for s in range(self.n):
            if good[s]:
                v[s] = val[rep[s]]
        return v

    def rew(self, mode, mask=None):
        mask = [True] * self.n if mask is None else [bool(x) for x in mask]
        names = [s for s in range(self.n) if mask[s]]
        q = {s: [({d: p for d, p in tr.items() if mask[d]}, r) for _, tr, _, r in self.choices[s]] for s in names}
        val = policy_iteration(names, q, mode)
        return np.array([val.get(s, 0.0) for s in range(self.n)])

    def max_steps(self):
        """Largest expected number of steps before the end, end components counted as one step (conditioning)."""
        rep, drop = list(range(self.n)), set()
        for C, keys in self.mecs():
            for s in C:
                rep[s] = min(C)
            drop |= keys
        q, names = {}, []
        for s in range(self.n):
            r = rep[s]
            if r not in q:
                q[r] = []
                names.append(r)
            for key, tr, t, _ in self.choices[s]:
                if key not in drop:
                    d2 = {}
                    for d, p in tr.items():
                        d2[rep[d]] = d2.get(rep[d], 0.0) + p
                    q[r].append((d2, 1.0))
        for r in names:
            if not q[r]:
                q[r].append(({}, 1.0))
        return max(policy_iteration(names, q, "max").values())


def sccs(nodes, succ):
    """Tarjan, iterative."""
    index, low, on, stack, out = {}, {}, set(), [], []
    inside = set(nodes)
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(sorted(d for d in succ(root) if d in inside)))]
        index[root] = low[root] = len(index)
        stack.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w); on.add(w)
                    work.append((w, iter(sorted(d for d in succ(w) if d in inside))))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop(); on.discard(w); comp.append(w)
                        if w == v:
                            break
                    out.append(sorted(comp))
    return out


def policy_iteration(names, q, mode):
    """q[s] = [({d: p}, reward)]; every policy ends almost surely."""
    if not names:
        return {}
    ix = {s: i for i, s in enumerate(names)}
    n = len(names)
    rows = {s: [] for s in names}
    for s in names:
        for tr, r in q[s]:
            a = np.zeros(n)
            for d, p in tr.items():
                a[ix[d]] += p
            rows[s].append((a, r))
    pol = {s: 0 for s in names}
    v = None
    for _ in range(500):
        A = np.eye(n)
        b = np.zeros(n)
        for s in names:
            a, r = rows[s][pol[s]]
            A[ix[s]] -= a
            b[ix[s]] = r
        v = np.linalg.solve(A, b)
        change = False
        for s in names:
            best, bv = pol[s], rows[s][pol[s]][0] @ v + rows[s][pol[s]][1]
            for i, (a, r) in enumerate(rows[s]):
                x = a @ v + r
                if (x > bv + 1e-11 * (1 + abs(bv))) if mode == "max" else (x < bv - 1e-11 * (1 + abs(bv))):
                    best, bv = i, x
            if best != pol[s]:
                pol[s], change = best, True
        if not change:
            break
    return {s: float(v[ix[s]]) for s in names}


class ModelRef(Sys):
    """A model with its init and target labels: targets go to the target at once (collecting their action's reward)."""

    def __init__(self, m, init_label="init", target_label="target"):
        self.m = m
        self.targets = set(m["labels"][target_label])
        n = m["n"]
        ch = [[] for _ in range(n)]
        for i, (s, a, tr) in enumerate(m["choices"]):
            r = m["rewards"][i] if m["rewards"] is not None else 0.0
            if s in self.targets:
                ch[s].append((i, {}, 1.0, r))
            else:
                d2 = {}
                for d, p in tr:
                    d2[d] = p
                ch[s].append((i, d2, 0.0, r))
        super().__init__(n, ch, m["labels"][init_label][0])
        fwd = {self.init}
        todo = [self.init]
        while todo:
            s = todo.pop()
            for _, tr, _, _ in ch[s]:
                for d in tr:
                    if d not in fwd:
                        fwd.add(d)
                        todo.append(d)
        self.fwd = fwd
        bwd = self._can_reach([True] * n)
        self.kept = [s in fwd and bwd[s] for s in range(n)]

    def rew(self, mode, mask=None):
        return super().rew(mode, self.kept if mask is None else mask)

    def proper(self):
        """Reached almost surely under every strategy from every state reachable from the initial one."""
        return all(self.kept[s] for s in self.fwd) and not any(C & self.fwd for C, _ in self.mecs())

    def restricted(self):
        """The reachability form as a Sys over the kept states (renumbered), with keys (s, a) of the original."""
        names = [s for s in range(self.n) if self.kept[s]]
        ix = {s: i for i, s in enumerate(names)}
        ch = [[((s, self.m["choices"][key][1]), {ix[d]: p for d, p in tr.items() if d in ix}, t, r) for key, tr, t, r in self.choices[s]] for s in names]
        return Sys(len(names), ch, ix[self.init]), names


def of_model(m, init_label="init", target_label="target"):
    return ModelRef(m, init_label, target_label)


def of_system(system, init, rewards=None):
    """The Sys of a real reachability form's system (target state N-2, failure state N-1)."""
    C, N = system.P.shape
    P = system.P.tocsr()
    ch = [[] for _ in range(N - 2)]
    for i in range(C - 2):
        s, a = system.index_by_state_action.inv[i]
        row = P.getrow(i)
        tr, t = {}, 0.0
        for d, p in zip(row.indices, row.data):
            if d < N - 2:
                tr[int(d)] = float(p)
            elif d == N - 2:
                t = float(p)
        ch[s].append(((int(s), int(a)), tr, t, float(rewards[i]) if rewards is not None else 0.0))
    return Sys(N - 2, ch, int(init))


def minimum_witness(sysm, mode, threshold, cost_of, value="pr", limit=10, eps=1e-7):
    """Smallest cost of a state set whose restriction reaches the threshold: (certain lower bound with threshold-eps,
    cost with threshold+eps); None = infeasible."""
    n = sysm.n
    best_lo = best_hi = None
    f = sysm.pr if value == "pr" else sysm.rew
    for bits in range(1 << n):
        mask = [(bits >> i) & 1 for i in range(n)]
        if not mask[sysm.init] and threshold > 1e-12:
            continue
        c = cost_of(mask)
        if best_hi is not None and c >= best_hi:
            continue
        v = f(mode, mask)[sysm.init] if mask[sysm.init] else 0.0
        if v >= threshold - eps and (best_lo is None or c < best_lo):
            best_lo = c
        if v >= threshold + eps and (best_hi is None or c < best_hi):
            best_hi = c
    return best_lo, best_hi
