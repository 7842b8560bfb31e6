import copy
import math
import numpy as np
import programs, lpfile
from common import *

CUT = object()
SOLVERS = ("cbc", "cbc", "cbc", "glpk", "glpk", "gurobi")


def num(rng):
    r = rng.random()
    if r < 0.35:
        return float(rng.randint(-4, 6))
    if r < 0.55:
        return round(rng.uniform(-3, 5), 3)
    if r < 0.6:
        return 0.0
    if r < 0.65:
        return rng.choice((1 / 3, 2 / 3, -1 / 7, 0.05, 25.0, 123.5))
    return float(rng.choice((1, 1, 1, -1, 2)))


def expr(rng, nv, most=4, dup=0.08):
    if rng.random() < 0.03:
        return []
    e = [[rng.randrange(50), num(rng)] for _ in range(rng.randint(1, most))]
    if rng.random() < dup:
        e.append([e[0][0], num(rng)])
    return e


def var(rng):
    dom = rng.choice(("real", "real", "real", "integer", "binary"))
    if dom == "binary" or rng.random() < 0.12:
        return [dom, None, None]
    lo = rng.choice((0, 0, 0.0, -2, 1, None, -3.5)) if dom == "real" else rng.choice((0, 0, -2, 1, -9))
    up = rng.choice((1, 5, 10, 7.25, None)) if dom == "real" else rng.choice((1, 5, 10, None))
    if lo is not None and rng.random() < 0.05:
        up = lo
    return [dom, lo, up]


def con(rng):
    return {"op": "con", "e": expr(rng, 4), "sense": rng.choice(("<=", "<=", "<=", ">=", "=")), "rhs": rng.choice((num(rng), float(rng.randint(1, 12)), float(rng.randint(1, 12)))),
            "tame": rng.random() < 0.6}


def gen(rng, i, tier):
    ops = []
    n = rng.randint(6, 26 if tier == "quick" else 60)
    for j in range(n):
        r = rng.random()
        if j == 0 or r < 0.04:
            if rng.random() < 0.7:
                o = {"op": "new", "cls": rng.choice(("MILP", "MILP", "LP", "GurobiMILP")), "dir": rng.choice(("min", "max"))}
            else:
                k, c = rng.randint(1, 5), rng.randint(1, 4)
                o = {"op": "coef", "cls": rng.choice(("MILP", "MILP", "LP", "GurobiMILP")), "dir": rng.choice(("min", "max")), "sense": rng.choice(("<=", "<=", ">=", "=")),
                     "A": [[num(rng) if rng.random() < 0.7 else 0.0 for _ in range(k)] for _ in range(c)], "b": [float(rng.randint(0, 9)) for _ in range(c)],
                     "opt": [num(rng) for _ in range(k)] if rng.random() < 0.9 else None, "domains": [var(rng)[0] for _ in range(k)],
                     "bounds": [var(rng)[1:] for _ in range(k)] if rng.random() < 0.6 else None, "form": rng.choice(("list", "np", "csr", "dok", "column"))}
        elif j < 3 or r < 0.16:
            o = {"op": "vars", "vars": [var(rng) for _ in range(rng.choice((1, 1, 2, 3, 12)))], "plain": rng.random() < 0.3, "numpy": rng.random() < 0.2}
        elif r < 0.40:
            o = con(rng)
        elif r < 0.48:
            o = {"op": "rem", "k": rng.randrange(20)}
        elif r < 0.62:
            o = {"op": "obj", "e": expr(rng, 4)}
        elif r < 0.66:
            o = {"op": "bad", "what": rng.choice(("var", "sense", "coef", "rhs", "domain", "rem", "solver", "timeout", "objvar"))}
        else:
            o = {"op": "solve", "solver": rng.choice(SOLVERS), "timeout": rng.choice((None, None, None, 5, 60, 0)), "boxed": rng.random() < 0.7}
        o["m"] = rng.choice((0, 0, 0, 1)) if j else 0
        ops.append(o)
    ops.append({"op": "solve", "solver": rng.choice(SOLVERS), "timeout": None, "m": 0, "boxed": True})
    ns = sum(o["op"] == "solve" for o in ops)
    fs = faults(rng, ns, p_none=0.35, disk=0.25)
    if rng.random() < 0.25:
        fs.append(line_fault(rng, 40 * len(ops)))
    return {"ops": ops, "faults": fs}


class Ref:
    def __init__(self, direction):
        self.dir, self.vars, self.cons, self.ids, self.obj, self.next = direction, [], {}, [], {}, 0

    def expr(self, e):
        d = {}
        for v, c in e:
            d[v] = d.get(v, 0.0) + c
        return {v: c for v, c in d.items() if c != 0}

    def problem(self):
        p = lpfile.Problem()
        p.maximize = self.dir == "max"
        for v, (dom, lo, up) in enumerate(self.vars):
            p.col(v)
            if dom == "binary":
                lo, up = 0.0, 1.0
            p.lb[v], p.ub[v] = -math.inf if lo is None else float(lo), math.inf if up is None else float(up)
            if dom != "real":
                p.integer.add(v)
        for k in sorted(self.cons):
            e, s, r = self.cons[k]
            p.row(k, s)
            p.a[k], p.rhs[k] = dict(e), r
        p.obj = dict(self.obj)
        return p


def num_(x):
    return "%.9g" % (x + 0.0 if x else 0.0)


def colours(p):
    """Name-independent identity of every column that matters, and of the whole problem."""
    fixed = {v: p.lb[v] for v in p.cols if p.lb[v] == p.ub[v]}
    if fixed:           # constants: PuLP adds a dummy of its own for empty constraints
        q = lpfile.Problem()
        q.maximize, q.integer = p.maximize, p.integer - set(fixed)
        q.cols = [v for v in p.cols if v not in fixed]
        q.lb, q.ub = p.lb, p.ub
        q.obj = {v: c for v, c in p.obj.items() if v not in fixed}
        for r in p.rows:
            q.row(r, p.sense[r])
            q.a[r] = {v: c for v, c in p.a[r].items() if v not in fixed}
            q.rhs[r] = p.rhs[r] - sum(c * fixed[v] for v, c in p.a[r].items() if v in fixed)
            if abs(q.rhs[r]) < 1e-9:
                q.rhs[r] = 0.0
        p = q
    sgn = -1.0 if p.maximize else 1.0
    used = {v for v, c in p.obj.items() if c != 0}
    for r in p.rows:
        used |= {v for v, c in p.a[r].items() if c != 0}
    rows = [r for r in p.rows if any(c != 0 for c in p.a[r].values()) or not
            (0 <= p.rhs[r] if p.sense[r] == "<=" else 0 >= p.rhs[r] if p.sense[r] == ">=" else p.rhs[r] == 0)]

    def rownorm(r):
        # ">=" is written as "<=" so that an equivalent restatement is not held against the code
        f = -1.0 if p.sense[r] == ">=" else 1.0
        return "=" if p.sense[r] == "=" else "<=", f
    col = {v: "|".join((num_(p.lb[v]), num_(p.ub[v]), str(v in p.integer), num_(sgn * p.obj.get(v, 0.0)))) for v in used}
    rw = {}
    for _ in range(4):
        for r in rows:
            s, f = rownorm(r)
            forms = []
            for g in ((f,) if s != "=" else (1.0, -1.0)):
                forms.append("%s %s %s" % (s, num_(g * p.rhs[r]), sorted((num_(g * c), col[v]) for v, c in p.a[r].items() if c != 0)))
            rw[r] = digest_(min(forms))
        inc = {v: [] for v in used}
        for r in rows:
            s, f = rownorm(r)
            for v, c in p.a[r].items():
                if c != 0:
                    inc[v].append((rw[r], num_(abs(c) if s == "=" else f * c)))
        col = {v: digest_(col[v] + str(sorted(inc[v]))) for v in used}
    return col, sorted(col.values()), sorted(rw[r] for r in rows)


def digest_(s):
    import hashlib
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def show(p):
    return "%s %s; %s; bounds %s; integer %s" % ("max" if p.maximize else "min", p.obj, ["%s %s %s" % (p.a[r], p.sense[r], p.rhs[r]) for r in p.rows],
                                                {v: (p.lb[v], p.ub[v]) for v in p.cols}, sorted(map(str, p.integer)))


def shrinks(sc):
    import copy
    for k, o in enumerate(sc["ops"]):
        if o["op"] == "con" or o["op"] == "obj":
            for j in range(len(o["e"])):
                c = copy.deepcopy(sc)
                del c["ops"][k]["e"][j]
                yield c
            for j in range(len(o["e"])):
                if o["e"][j][1] != 1.0:
                    c = copy.deepcopy(sc)
                    c["ops"][k]["e"][j][1] = 1.0
                    yield c
        if o["op"] == "vars" and len(o["vars"]) > 1:
            c = copy.deepcopy(sc)
            c["ops"][k]["vars"].pop()
            yield c


def run(ctx, sc):
    from switss.solver import MILP, LP, GurobiMILP
    with ctx.world() as w:
        slots, refs = {}, {}
        outcomes = []

        def solve(o, k, what, healthy=False):
            mdl, ref = slots[k], refs[k]
            p = ref.problem()
            f0, s0 = fired(w), len(w.solves)
            solver = "gurobi" if ref.gurobi else o["solver"]
            n0 = len(w.spawns)
            r = stopped(ctx, w, mdl.solve, solver, o["timeout"])
            if not ref.gurobi:
                named_solver(ctx, w, n0, solver, what)
            faulty = fired(w) > f0
            w.enospc_on = False
            w.hang = False
            recs = w.solves[s0:]
            if len(recs) > 1:
                ctx.violate("wrong-problem", "%s ran the solver %d times" % (what, len(recs)))
            rec = recs[0] if recs else None
            if rec is not None:
                got, want = rec["problem"], p
                gc, gcs, grs = colours(got)
                wc, wcs, wrs = colours(want)
                if (gcs, grs) != (wcs, wrs):
                    ctx.violate("wrong-problem", "%s: the solver was given %s; the problem is %s" % (what, show(got), show(want)))
                if rec["limit"] != o["timeout"]:
                    ctx.violate("wrong-limit", "%s: limit %s, given to the solver %s" % (what, o["timeout"], rec["limit"]))
            if not r.ok:
                outcomes.append("raised")
                if solver == "glpk" and not p.rows:
                    return          # glpsol does not read files without constraints
                if solver == "gurobi" and rec is not None and rec.get("left") is False:
                    return          # PuLP expects gurobi_cl to leave a solution
                if healthy or not faulty:
                    must(ctx, r, what)
                return
            res = r.value
            outcomes.append(res.status)
            if rec is None:
                if res.status in ("optimal", "infeasible", "unbounded"):
                    ctx.violate("answer-without-solver", "%s: status %s although no solver ran" % (what, res.status))
                return
            st, clean = rec["status"], not rec.get("damaged")
            ans = rec.get("answer")
            if res.status in ("infeasible", "unbounded") and programs.truth(p).status != res.status:
                ctx.violate("wrong-status", "%s: reported %s, the solver said %s" % (what, res.status, st))
            if res.status == "optimal" and st != "optimal":
                ctx.violate("wrong-status", "%s: reported optimal, the solver %s" % (what, st))
            if st == "crashed" or st == "hung":
                if res.status in ("optimal", "infeasible", "unbounded"):
                    ctx.violate("wrong-status", "%s: reported %s, the solver %s" % (what, res.status, st))
                return
            if clean and not faulty:
                if st == "optimal" and res.status != "optimal":
                    ctx.violate("wrong-status", "%s: reported %s, the solver said optimal" % (what, res.status))
                if st == "infeasible" and (solver != "glpk" or rec["problem"].integer) and res.status != "infeasible":
                    ctx.violate("wrong-status", "%s: reported %s, the solver said infeasible" % (what, res.status))
                if st == "unbounded" and solver != "glpk" and res.status != "unbounded":
                    ctx.violate("wrong-status", "%s: reported %s, the solver said unbounded" % (what, res.status))
            if res.status != "optimal":
                return
            x = vector(ctx, res.result_vector, len(ref.vars), what)
            rel = {"cbc": 2e-7, "glpk": 2e-5, "gurobi": 1e-9}[solver]
            # the returned values are the solver's, in variable order
            pos = dict(zip(rec["problem"].cols, ans.x))
            byc, bgc = {}, {}
            for v, c in wc.items():
                byc.setdefault(c, []).append(float(x[v]))
            for v, c in gc.items():
                bgc.setdefault(c, []).append(float(pos[v]))
            for c in byc:
                a, b = sorted(byc[c]), sorted(bgc[c])
                if len(a) != len(b) or any(abs(p1 - p2) > rel * (1 + abs(p2)) for p1, p2 in zip(a, b)):
                    ctx.violate("wrong-values", "%s: variables %s have values %s, the solver's answer is %s" % (what, [v for v in wc if wc[v] == c], a, b))
            for v in p.cols:
                tol = rel * (2 + abs(x[v])) + 1e-6
                if v not in wc and not (p.lb[v] - tol <= x[v] <= p.ub[v] + tol):
                    ctx.violate("wrong-values", "%s: unused variable %s is %s, bounds %s %s" % (what, v, x[v], p.lb[v], p.ub[v]))
            mag = sum(abs(c) * (1 + abs(x[v])) for v, c in p.obj.items())
            val = sum(c * x[v] for v, c in p.obj.items())
            try:
                rv = float(res.value)
            except Exception:
                ctx.violate("wrong-value", "%s: objective value %r" % (what, res.value))
            if abs(rv - val) > 1e-9 * (1 + mag):
                ctx.violate("wrong-value", "%s: objective value %r but the values give %r" % (what, rv, val))
            if abs(rv - ans.obj) > rel * (1 + mag):
                ctx.violate("wrong-value", "%s: objective value %r, the solver's %r" % (what, rv, ans.obj))

        def build(ref, k, what, fn, *a, other=None):
            """A building step, maybe cut short: then it was either made or not, which the next solver run shows. CUT if it was cut."""
            r = stopped(ctx, w, fn, *a)
            if r.ok or not isinstance(r.exc, INJECTED):
                return must(ctx, r, what)
            wants = [colours(x.problem())[1:] for x in (ref, other)]
            for _ in range(12):
                s0 = len(w.solves)
                r = ctx.call(slots[k].solve, "cbc")
                w.enospc_on = w.hang = False
                if len(w.solves) > s0:
                    got = w.solves[-1]["problem"]
                    if colours(got)[1:] not in wants:
                        ctx.violate("wrong-problem", "after the cut %s the solver was given %s; the problem is %s or %s" % (what, show(got), show(ref.problem()), show(other.problem())))
                    if colours(got)[1:] != wants[0]:
                        refs[k] = other
                    return CUT
            return must(ctx, r, "solving after the cut " + what)

        last = None
        for j, o in enumerate(sc["ops"]):
            k, what = o["m"], "%s (operation %d)" % (o["op"], j)
            if o["op"] in ("new", "coef"):
                cls = {"LP": LP, "MILP": MILP, "GurobiMILP": GurobiMILP}[o["cls"]]
                ref = Ref(o["dir"])
                if o["op"] == "new":
                    mdl = must(ctx, ctx.call(cls, o["dir"]), what)
                    islp = o["cls"] == "LP"
                else:
                    A = np.array(o["A"], dtype=float)
                    nv = A.shape[1]
                    b, opt = o["b"], o["opt"]
                    if o["form"] in ("csr", "dok"):
                        from scipy.sparse import csr_matrix
                        A_ = csr_matrix(A) if o["form"] == "csr" else csr_matrix(A).todok()
                    else:
                        A_ = A if o["form"] != "list" else A.tolist()
                    if o["form"] in ("np", "csr"):
                        b = np.array(b)
                        opt = np.array(opt) if opt is not None else None
                    if o["form"] == "column":
                        b = [[x] for x in b]
                    doms = o["domains"] if o["cls"] != "LP" else ["real"] * nv
                    keep = np.array(A)
                    if o["cls"] == "LP":
                        if o["form"] == "list":
                            A_ = A
                        mdl = must(ctx, ctx.call(LP.from_coefficients, A_, b, opt, sense=o["sense"], objective=o["dir"]), what)
                        bounds = [(None, None)] * nv
                    else:
                        bounds = [(None, None) if d == "binary" else (lo, up) if lo is None or up is None or lo <= up else (up, lo) for d, (lo, up) in zip(doms, o["bounds"])] if o["bounds"] else None
                        if bounds:
                            bounds = [tuple(None if x is None else math.floor(x) if d != "real" else x for x in bb) for d, bb in zip(doms, bounds)]
                        mdl = must(ctx, ctx.call(cls.from_coefficients, A_, b, opt, list(doms), sense=o["sense"], objective=o["dir"], bounds=bounds), what)
                        bounds = bounds or [(None, None)] * nv
                    ref.vars = [(d, lo, up) for d, (lo, up) in zip(doms, bounds)]
                    for i in range(len(o["A"])):
                        ref.cons[i] = (ref.expr(list(enumerate(o["A"][i]))), o["sense"], float(o["b"][i]))
                    ref.ids = list(range(len(o["A"])))
                    ref.next = len(ref.ids)
                    ref.obj = ref.expr(list(enumerate(o["opt"]))) if o["opt"] is not None else {}
                    islp = False
                slots[k], refs[k] = mdl, ref
                ref.islp = islp
                ref.gurobi = o["cls"] == "GurobiMILP"
                continue
            if k not in slots:
                k = 0
            if k not in slots:
                continue
            mdl, ref = slots[k], refs[k]
            nv = len(ref.vars)
            if o["op"] == "vars":
                if ref.islp:
                    got = must(ctx, ctx.call(mdl.add_variables, len(o["vars"])), what)
                    new = [("real", None, None)] * len(o["vars"])
                elif o["plain"]:
                    new = [(v[0], None, None) for v in o["vars"]]
                    got = must(ctx, ctx.call(mdl.add_variables, [v[0] for v in o["vars"]]), what)
                else:
                    new = [tuple(v) if v[1] is None or v[2] is None or v[1] <= v[2] else (v[0], v[2], v[1]) for v in o["vars"]]
                    given = [tuple(np.float64(x) if isinstance(x, (int, float)) and o["numpy"] else x for x in v) for v in new]
                    got = must(ctx, ctx.call(mdl.add_variables_w_bounds, given), what)
                want = list(range(nv, nv + len(new)))
                if (list(got) if len(new) > 1 else [got]) != want:
                    ctx.violate("wrong-index", "%s returned %s, expected %s" % (what, got, want))
                ref.vars += new
            elif o["op"] == "con" and nv:
                e = [(v % nv, c) for v, c in o["e"]]
                rhs = o["rhs"]
                if o["tame"] and o["sense"] != "=":
                    rhs = abs(rhs) + 3 if o["sense"] == "<=" else -abs(rhs)
                keep = list(e)
                new = copy.deepcopy(ref)
                new.cons[10**6 + j] = (ref.expr(e), o["sense"], rhs)
                got = build(ref, k, what, mdl.add_constraint, e, o["sense"], rhs, other=new)
                if got is CUT:
                    refs[k].next = None         # the cut step may have used a number
                    continue
                if got != ref.next if ref.next is not None else got in ref.ids:
                    ctx.violate("wrong-index", "%s returned %s, expected %s" % (what, got, ref.next))
                ref.next = got + 1
                ref.ids.append(got)
                ref.cons[got] = (ref.expr(e), o["sense"], rhs)
            elif o["op"] == "rem" and ref.ids:
                c = ref.ids[o["k"] % len(ref.ids)]
                if c in ref.cons:
                    new = copy.deepcopy(ref)
                    del new.cons[c]
                    if build(ref, k, what, mdl.remove_constraint, c, other=new) is not CUT:
                        refs[k] = new
                else:
                    ctx.call(mdl.remove_constraint, c)
            elif o["op"] == "obj" and nv:
                e = [(v % nv, c) for v, c in o["e"]]
                new = copy.deepcopy(ref)
                new.obj = ref.expr(e)
                if build(ref, k, what, mdl.set_objective_function, e, other=new) is not CUT:
                    refs[k] = new
            elif o["op"] == "bad":
                b = o["what"]
                if b == "solver" and ref.gurobi:
                    continue
                call = {"var": lambda: mdl.add_constraint([(nv, 1.0)], "<=", 1.0), "sense": lambda: mdl.add_constraint([(0, 1.0)], "<", 1.0),
                        "coef": lambda: mdl.add_constraint([(0, "x")], "<=", 1.0), "rhs": lambda: mdl.add_constraint([(0, 1.0)], "<=", "one"),
                        "domain": lambda: mdl.add_variables_w_bounds([("complex", None, None)]), "rem": lambda: mdl.remove_constraint(10**6),
                        "solver": lambda: mdl.solve("simplex"), "timeout": lambda: mdl.solve("cbc", "soon"), "objvar": lambda: mdl.set_objective_function([(nv + 3, 1.0)])}[b]
                s0 = len(w.solves)
                r = ctx.call(call)
                if r.ok:
                    ctx.violate("bad-call-accepted", "%s %s returned %r" % (what, b, r.value))
                if len(w.solves) > s0:
                    ctx.violate("bad-call-accepted", "%s %s ran a solver" % (what, b))
            elif o["op"] == "solve" and nv:
                if o["boxed"] and ref.obj:      # keep most problems bounded
                    need = [v for v, (dom, lo, up) in enumerate(ref.vars) if v in ref.obj and (lo is None or up is None) and dom != "binary"]
                    for v in need[:4]:
                        for sense, rhs in (("<=", 50.0), (">=", -40.0)):
                            got = must(ctx, ctx.call(mdl.add_constraint, [(v, 1.0)], sense, rhs), what)
                            ref.next = got + 1
                            ref.ids.append(got)
                            ref.cons[got] = ({v: 1.0}, sense, rhs)
                solve(o, k, what)
                last = (o, k)
        heal(w)
        if last is not None:
            for k in slots:
                if refs[k].vars:
                    solve(last[0], k, "the last solve without faults", True)
        ctx.note(outcomes)
        ctx.sig = ["c15", [o["op"] for o in sc["ops"]], outcomes, sorted(w.fired)]
        ctx.nontrivial = bool(outcomes)
