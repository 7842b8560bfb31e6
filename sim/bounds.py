"""Bounds on probabilities and their certificates: truth, conditions, how much a tolerance can be worth."""
import numpy as np
from scipy.optimize import linprog
from common import *

SENSES = ("<=", "<", ">=", ">")


class Bounds:
    """Certificate conditions of a probability form, from the model (rows of y follow the form's own action index)."""

    def __init__(self, form):
        self.form = form
        s = form.sys
        self.N, self.C = form.N, form.C
        idx = dict(form.rf.system.index_by_state_action)
        self.A, self.b = np.zeros((self.C, self.N)), np.zeros(self.C)
        self.owner = np.zeros(self.C, dtype=int)
        for st in range(s.n):
            for key, tr, t, _ in s.choices[st]:
                j = idx[key]
                self.owner[j] = st
                self.A[j, st] += 1.0
                for d, p in tr.items():
                    self.A[j, d] -= p
                self.b[j] = t
        self.ec = np.array([st in form.ecs for st in range(self.N)], dtype=bool)
        self.delta = np.zeros(self.N)
        self.delta[s.init] = 1.0
        self._err = {}

    def kind(self, mode, sense):
        """z: vector over states; y: vector over actions."""
        return "z" if (mode == "min") == (sense[0] == ">") else "y"

    def dim(self, mode, sense):
        return self.N if self.kind(mode, sense) == "z" else self.C

    def margin(self, mode, sense, thr):
        v = self.form.value(mode)
        return (thr - v) if sense[0] == "<" else (v - thr)

    def system(self, mode, sense, tol):
        """Conditions without the one on the threshold, as M x <= r, with lower bounds and fixed entries; c x is what is
        compared with the threshold."""
        if self.kind(mode, sense) == "z":
            sg = 1.0 if sense[0] == ">" else -1.0
            fixed = self.ec if mode == "min" else np.zeros(self.N, dtype=bool)
            return sg * self.A, sg * self.b + tol, fixed, self.delta
        if mode == "max":
            return self.A.T, self.delta + tol, np.zeros(self.C, dtype=bool), self.b
        rows = ~self.ec
        return -self.A.T[rows], -self.delta[rows] + tol, self.ec[self.owner], self.b

    def violation(self, mode, sense, thr, x):
        """Largest violation of a condition (not counting the sign of entries and fixed entries)."""
        M, r, fixed, c = self.system(mode, sense, 0.0)
        with np.errstate(all="ignore"):
            v = max(list(M @ x - r) + [thr - c @ x if sense[0] == ">" else c @ x - thr])
        return v

    def fixed_ok(self, mode, sense, x):
        return not np.any(np.asarray(x)[self.system(mode, sense, 0.0)[2]] != 0)

    def best(self, mode, sense, tol, rng=None, drop=None, low=None):
        """The vector satisfying the conditions (up to tol) that claims most; drop: leave out a group of conditions."""
        M, r, fixed, c = self.system(mode, sense, tol)
        n = len(c)
        lo = [-tol if low is None else low] * n
        hi = [1e4] * n
        if drop == "fixed":
            fixed = np.zeros(n, dtype=bool)
        if drop == "sign":
            lo = [-10.0] * n
        for i in range(n):
            if fixed[i]:
                lo[i] = hi[i] = 0.0
        if drop == "row" and len(r):
            k = rng.randrange(len(r))
            M, r = np.delete(M, k, 0), np.delete(r, k)
        cc = c if sense[0] == "<" else -c
        q = linprog(cc, M, r, bounds=list(zip(lo, hi)), options={"primal_feasibility_tolerance": 1e-9})
        return q.x if q.status == 0 else None

    def error(self, mode, sense, tol):
        """Upper bound on how far a bound can be off when its certificate satisfies all conditions up to tol."""
        if self.kind(mode, sense) == "y":
            return (self.N + 2 * self.C + 2) * tol
        k = (mode, sense[0])
        if k not in self._err:
            t = 1e-5
            x = self.best(mode, sense, t)
            self._err[k] = 2.0 + (abs(float(self.delta @ x) - self.form.value(mode)) / t if x is not None else 1e9)
        return self._err[k] * tol * 2
