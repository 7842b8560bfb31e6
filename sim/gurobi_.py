"""Stand-in for the gurobipy module (the real one is not installed): the part of its interface that switss uses, with
gurobipy's own rules (no bounds below zero unless given, changes pending until update or optimize, indicators by >> only,
no truth value of a constraint, no solution attributes without a solution) and the ways the real one stops."""
import types, math, numbers, itertools
import lpfile, programs
import world as W
from rng import stream


class GurobiError(Exception):
    pass


GRB = types.SimpleNamespace(MINIMIZE=1, MAXIMIZE=-1, BINARY="B", CONTINUOUS="C", INTEGER="I", INFINITY=1e100, LOADED=1, OPTIMAL=2, INFEASIBLE=3,
                            INF_OR_UNBD=4, UNBOUNDED=5, CUTOFF=6, ITERATION_LIMIT=7, NODE_LIMIT=8, TIME_LIMIT=9, SOLUTION_LIMIT=10, INTERRUPTED=11,
                            NUMERIC=12, SUBOPTIMAL=13, INPROGRESS=14, LESS_EQUAL="<", GREATER_EQUAL=">", EQUAL="=")


def is_num(x):
    return isinstance(x, numbers.Real) and not isinstance(x, bool) or hasattr(x, "dtype") and getattr(x, "shape", None) == () or isinstance(x, bool)


class Expr:
    """Variables and linear expressions."""
    __array_ufunc__ = None

    def terms(self):
        return self.t, self.c

    def _lin(self, o, f):
        t, c = self.terms()
        t = list(t)
        if is_num(o):
            return LinExpr(t, c + f * float(o))
        if isinstance(o, Expr):
            t2, c2 = o.terms()
            return LinExpr(t + [(v, f * k) for v, k in t2], c + f * c2)
        raise GurobiError("Unsupported type for LinExpr addition argument")

    def __add__(self, o): return self._lin(o, 1.0)
    __radd__ = __add__
    def __sub__(self, o): return self._lin(o, -1.0)
    def __neg__(self): return self * -1.0
    def __rsub__(self, o): return (-self)._lin(o, 1.0)

    def __mul__(self, o):
        if not is_num(o):
            raise GurobiError("Unsupported type for LinExpr multiplication argument")
        t, c = self.terms()
        return LinExpr([(v, k * float(o)) for v, k in t], c * float(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return self * (1.0 / o)

    def __le__(self, o): return TempConstr(self - o, "<=")
    def __ge__(self, o): return TempConstr(self - o, ">=")
    def __eq__(self, o): return TempConstr(self - o, "=")
    __hash__ = object.__hash__


class Var(Expr):
    def __init__(self, model, k):
        self.model, self.k = model, k

    def terms(self):
        return [(self.k, 1.0)], 0.0

    def __getattr__(self, name):
        if name.lower() == "x":
            x = self.model.answer
            if x is None or self.k >= len(x):
                raise AttributeError("Unable to retrieve attribute '%s'" % name)
            return float(x[self.k])
        if name.lower() in ("lb", "ub"):
            return (self.model.lb if name.lower() == "lb" else self.model.ub)[self.k]
        raise AttributeError("'gurobipy.Var' object has no attribute '%s'" % name)


class LinExpr(Expr):
    def __init__(self, t=(), c=0.0):
        self.t, self.c = list(t), float(c)


class TempConstr:
    def __init__(self, expr, sense):
        self.expr, self.sense = expr, sense

    def __bool__(self):
        raise GurobiError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")

    def __rshift__(self, o):
        if not isinstance(o, TempConstr):
            raise GurobiError("Argument of >> must be a linear constraint")
        return Indicator(self, o)


class Indicator:
    def __init__(self, cond, then):
        self.cond, self.then = cond, then


class Constr:
    def __init__(self, model, row=None, ind=None):
        self.model, self.row, self.ind, self.state = model, row, ind, "pending"


class Model:
    def __init__(self, name="", env=None):
        w = W.CUR
        if w is None:
            raise GurobiError("no license")
        self.w = w
        self.lb, self.ub, self.vt, self.cons = [], [], [], []
        self.obj, self.objc, self.sense = {}, 0.0, 1
        self.params, self.status_, self.answer, self.value = {}, GRB.LOADED, None, None

    def setParam(self, name, value):
        known = {k.lower(): k for k in ("OutputFlag", "MIPGap", "MIPGapAbs", "FeasibilityTol", "IntFeasTol", "NumericFocus", "Threads", "TimeLimit",
                                        "OptimalityTol", "LogFile", "LogToConsole", "Seed", "Method", "Presolve", "DualReductions", "InfUnbdInfo", "MIPFocus")}
        if name.lower() not in known:
            raise GurobiError("No parameters matching '%s' found" % name)
        v = float(value)
        if v != v or v < 0 and known[name.lower()] in ("TimeLimit", "MIPGap", "MIPGapAbs"):
            raise GurobiError("Unable to set parameter %s to value %s" % (name, value))
        self.params[known[name.lower()]] = v

    def addVar(self, lb=0.0, ub=1e100, obj=0.0, vtype="C", name="", column=None):
        if vtype not in ("C", "B", "I"):
            raise GurobiError("Invalid variable type")
        lb, ub = float(lb), float(ub)
        if vtype == "B":
            lb, ub = max(lb, 0.0), min(ub, 1.0)
        self.lb.append(lb); self.ub.append(ub); self.vt.append(vtype)
        if obj:
            self.obj[len(self.lb) - 1] = float(obj)
        return Var(self, len(self.lb) - 1)

    def addConstr(self, c, name=""):
        if isinstance(c, TempConstr):
            t, k = c.expr.terms()
            row = {}
            for v, a in t:
                if not math.isfinite(a):
                    raise GurobiError("Element is Nan or Inf.")
                row[v] = row.get(v, 0.0) + a
            con = Constr(self, row=[row, c.sense, -k + 0.0])
        elif isinstance(c, Indicator):
            t, k = c.cond.expr.terms()
            if c.cond.sense != "=" or len(t) != 1 or t[0][1] != 1.0 or -k not in (0.0, 1.0) or self.vt[t[0][0]] != "B":
                raise GurobiError("Invalid indicator: needs a binary variable and a value of 0 or 1")
            t2, k2 = c.then.expr.terms()
            con = Constr(self, ind=[t[0][0], int(-k), dict(t2), c.then.sense, -k2 + 0.0])
        else:
            raise GurobiError("Unsupported type (%s) for Model.addConstr" % type(c))
        self.cons.append(con)
        return con

    def setObjective(self, expr, sense=None):
        if sense is not None:
            if sense not in (1, -1):
                raise GurobiError("Invalid sense")
            self.sense = sense
        if is_num(expr):
            self.obj, self.objc = {}, float(expr)
            return
        if not isinstance(expr, Expr):
            raise GurobiError("Invalid argument to Model.setObjective")
        t, c = expr.terms()
        self.obj, self.objc = {}, c
        for v, a in t:
            self.obj[v] = self.obj.get(v, 0.0) + a

    def _there(self, con):
        if not isinstance(con, Constr) or con.model is not self or con.state != "in":
            raise GurobiError("Item not in model")

    def chgCoeff(self, con, var, value):
        self._there(con)
        if not isinstance(var, Var):
            raise GurobiError("Invalid variable")
        con.row[0][var.k] = float(value)

    def remove(self, con):
        self._there(con)
        con.state = "out"
        self.cons.remove(con)

    def update(self):
        for c in self.cons:
            c.state = "in"

    def getVars(self):
        return [Var(self, k) for k in range(len(self.lb))]

    def problem(self):
        p = lpfile.Problem()
        p.maximize = self.sense == -1
        for v in range(len(self.lb)):
            p.col(v)
            p.lb[v] = -math.inf if self.lb[v] <= -1e20 else self.lb[v]
            p.ub[v] = math.inf if self.ub[v] >= 1e20 else self.ub[v]
            if self.vt[v] != "C":
                p.integer.add(v)
        p.ind = []
        for k, c in enumerate(self.cons):
            if c.row is not None:
                p.row(k, c.row[1])
                p.a[k], p.rhs[k] = dict(c.row[0]), c.row[2]
            else:
                p.ind.append(c.ind)
        p.obj = dict(self.obj)
        return p

    def optimize(self, callback=None):
        w = self.w
        self.update()
        self.answer = self.value = None
        i, f = w.site("spawn:gurobi")
        k, f2 = w.site("spawn")
        f = f or f2
        rng = stream(w.seed, "solver", "gurobi", i)
        style = rng.choice(getattr(w, "styles", ("plain", "alt", "alt", "mid")))
        kind = f["kind"] if f else None
        limit = self.params.get("TimeLimit")
        if limit is not None and limit >= 1e20:
            limit = None
        p = self.problem()
        rec = {"solver": "gurobi", "k": i, "problem": p, "limit": limit, "fault": kind, "ratio": 0.0, "status": "crashed"}
        w.solves.append(rec)
        if kind == "crash":
            w.fire("killed_while_program_runs")
            w.die("killed in gurobi")
        if kind in ("missing", "noexec", "eagain", "exit", "signal", "nofile"):
            w.fire("gurobi_error")
            self.status_ = GRB.LOADED
            raise GurobiError({"missing": "Unable to open license", "noexec": "HostID mismatch", "eagain": "Out of memory"}.get(kind, "Internal error"))
        duration = programs._duration(w, rng, f)
        if kind == "stall":
            w.fire("solver_stalls")
        if kind == "slow":
            w.fire("solver_slow")
        stopped = None
        if limit is not None and (duration is None or duration > limit):
            duration, stopped = float(limit), GRB.TIME_LIMIT
            w.fire("solver_hits_limit")
        if duration is None:
            rec["status"] = "hung"
            w.hang = True
            raise W.SimHang("gurobi never ends")
        if kind in ("timeout", "timeout_noinc"):
            stopped = GRB.TIME_LIMIT if limit is not None else GRB.NODE_LIMIT
        elif kind == "iterlimit":
            stopped = GRB.ITERATION_LIMIT
        elif kind in ("torn", "tornline", "zeroed", "empty"):
            stopped = {"torn": GRB.NUMERIC, "tornline": GRB.SUBOPTIMAL, "zeroed": GRB.INTERRUPTED, "empty": GRB.NUMERIC}[kind]
        w.advance(duration, 0.0)
        if stopped is not None:
            w.fire("gurobi_status_%d" % stopped)
            rec["status"] = "stopped"
            self.status_ = stopped
            if kind not in ("timeout_noinc", "empty", "iterlimit"):
                a = programs.garbage_point(p, rng)
                self.answer, self.value = a.x, a.obj + self.objc
            return
        a = solve(p, rng, style)
        rec["status"], rec["answer"] = a.status, a
        if a.status == "optimal":
            self.status_, self.answer, self.value = GRB.OPTIMAL, a.x, a.obj + self.objc
        else:
            self.status_ = GRB.INFEASIBLE if a.status == "infeasible" else GRB.UNBOUNDED
            if rng.random() < 0.25:        # presolve finds out that it is one of the two and stops
                self.status_ = GRB.INF_OR_UNBD
                rec["status"] = "inf_or_unbd"
                w.ev("gurobi_inf_or_unbd")

    def __getattr__(self, name):
        low = name.lower()
        if low == "status":
            return self.__dict__["status_"]
        if low == "objval":
            if self.__dict__.get("value") is None:
                raise AttributeError("Unable to retrieve attribute '%s'" % name)
            return self.__dict__["value"]
        if low == "numvars":
            return len(self.lb)
        if low == "numconstrs":
            return sum(c.row is not None and c.state == "in" for c in self.cons)
        if low == "params":
            m = self

            class P:
                def __setattr__(self, k, v):
                    m.setParam(k, v)
            return P()
        raise AttributeError("'gurobipy.Model' object has no attribute '%s'" % name)


def truth(p):
    import random
    return solve(p, random.Random(0), "plain")


def solve(p, rng, style):
    """Like programs.solve, with indicators decided by going through their binary variables."""
    if not getattr(p, "ind", None):
        return programs.solve(p, rng, style)
    zs = sorted({i[0] for i in p.ind})
    q = lpfile.Problem()
    q.__dict__.update({k: (v.copy() if hasattr(v, "copy") else v) for k, v in p.__dict__.items()})
    q.ind = []
    loose = programs.solve(q, rng, "plain")
    if loose.status != "optimal":
        return loose
    simple = all(v in zs for v, c in p.obj.items() if c != 0)
    combos = list(itertools.product((0, 1), repeat=len(zs)))
    if style != "plain":
        rng.shuffle(combos)
    sgn = -1.0 if p.maximize else 1.0
    if simple:
        combos.sort(key=lambda b: sgn * sum(p.obj.get(z, 0.0) * x for z, x in zip(zs, b)))
    best = None
    for b in combos:
        q = lpfile.Problem()
        q.__dict__.update({k: (v.copy() if hasattr(v, "copy") else v) for k, v in p.__dict__.items()})
        q.ind = []
        val = dict(zip(zs, b))
        if any(not p.lb[z] <= x <= p.ub[z] for z, x in val.items()):
            continue
        for z, x in val.items():
            q.lb[z] = q.ub[z] = float(x)
        for n, (z, on, row, sense, rhs) in enumerate(p.ind):
            if val[z] == on:
                if len(row) == 1 and sense == "=" and rhs == 0:
                    (v, _), = row.items()
                    if not q.lb[v] <= 0 <= q.ub[v]:
                        break
                    q.lb[v] = q.ub[v] = 0.0
                else:
                    q.row("ind%d" % n, sense)
                    q.a["ind%d" % n], q.rhs["ind%d" % n] = dict(row), rhs
        else:
            a = programs.solve(q, rng, style)
            if a.status == "unbounded":
                return a
            if a.status == "optimal" and (best is None or sgn * a.obj < sgn * best.obj - 1e-9):
                best = a
                if simple:
                    break
    return best or programs.Answer("infeasible")


def module():
    m = types.ModuleType("gurobipy")
    m.Model, m.GRB, m.GurobiError, m.LinExpr, m.Var, m.Constr = Model, GRB, GurobiError, LinExpr, Var, Constr
    m.quicksum = lambda xs: sum(xs, LinExpr())
    return m
