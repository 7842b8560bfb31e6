"""Stand-ins for the external programs: cbc, glpsol, prism, dot. Each obeys the real program's command line and file
formats (checked against the real cbc and glpsol, see selftest) and takes its faults from the world."""
import os, math
import numpy as np
from scipy.optimize import linprog as _linprog, milp, LinearConstraint, Bounds
from rng import stream
from world import Outcome, Harness, Skip
import lpfile

INF = math.inf


def _arrays(p):
    idx = {c: i for i, c in enumerate(p.cols)}
    n = len(p.cols)
    c = np.zeros(n)
    for v, k in p.obj.items():
        c[idx[v]] = k
    aub, bub, aeq, beq = [], [], [], []
    for r in p.rows:
        row = np.zeros(n)
        for v, k in p.a[r].items():
            row[idx[v]] = k
        if p.sense[r] == "=":
            aeq.append(row); beq.append(p.rhs[r])
        elif p.sense[r] == "<=":
            aub.append(row); bub.append(p.rhs[r])
        else:
            aub.append(-row); bub.append(-p.rhs[r])
    integ = np.array([1 if v in p.integer else 0 for v in p.cols])
    lb = np.array([p.lb[v] for v in p.cols]); ub = np.array([p.ub[v] for v in p.cols])
    if (lb > ub).any():
        return None
    return c, np.array(aub).reshape(len(bub), n), np.array(bub), np.array(aeq).reshape(len(beq), n), np.array(beq), lb, ub, integ


class reference:
    """Tells the driver that the reference solver is at work: time lost there is not the code's."""
    depth = 0
    cell = None

    def __enter__(self):
        reference.depth += 1
        if reference.cell is not None:
            reference.cell[0] = 1

    def __exit__(self, *a):
        reference.depth -= 1
        if reference.cell is not None and reference.depth == 0:
            reference.cell[0] = 0
        if a[0] is MemoryError:
            raise Skip("the reference solver ran out of memory")


def linprog(c, aub, bub, aeq, beq, bounds, integrality=None, options=None, method="highs"):
    """scipy's, but a search among integers ends after a fixed number of nodes (HiGHS does not notice some unbounded ones)."""
    with reference():
        return _solve(c, aub, bub, aeq, beq, bounds, integrality, options, method)


def _solve(c, aub, bub, aeq, beq, bounds, integrality, options, method):
    if integrality is None or not np.any(integrality):
        return _linprog(c, aub, bub, aeq, beq, bounds, options=options, method=method)
    cons = []
    if len(bub):
        cons.append(LinearConstraint(aub, -np.inf, bub))
    if len(beq):
        cons.append(LinearConstraint(aeq, beq, beq))
    r = milp(c, integrality=integrality, bounds=Bounds([b[0] for b in bounds], [b[1] for b in bounds]), constraints=cons,
             options=dict({k: v for k, v in (options or {}).items() if k in ("presolve", "mip_rel_gap")}, node_limit=20000))
    if r.status == 1:
        raise Skip("the reference solver gave up")
    return r


def _lp(c, aub, bub, aeq, beq, lb, ub, integ):
    """-> (status, x): 0 optimal, 2 infeasible, 3 unbounded"""
    n = len(c)
    if n == 0:
        ok = (bub >= -1e-9).all() and (abs(beq) <= 1e-9).all()
        return (0, np.zeros(0)) if ok else (2, None)
    opts = {"primal_feasibility_tolerance": 1e-9, "dual_feasibility_tolerance": 1e-9}
    bounds = list(zip(lb, ub))
    if integ.any():
        r = linprog(c, aub, bub, aeq, beq, bounds, integrality=integ, options={"mip_rel_gap": 0.0})
        if r.status == 0:
            lb, ub = lb.copy(), ub.copy()
            fix = integ == 1
            lb[fix] = ub[fix] = np.round(r.x[fix])
            r2 = linprog(c, aub, bub, aeq, beq, list(zip(lb, ub)), options=opts)
            if r2.status == 0:
                return 0, np.where(fix, np.round(r2.x), r2.x)
            return 0, r.x
    else:
        r = linprog(c, aub, bub, aeq, beq, bounds, options=opts)
        if r.status == 4:
            r = linprog(c, aub, bub, aeq, beq, bounds, method="highs-ipm")
    if r.status in (2, 3, 4):      # HiGHS may not separate the two: a zero objective decides
        mip = integ if integ.any() else None
        z = linprog(np.zeros(n), aub, bub, aeq, beq, bounds, integrality=mip)
        if z.status not in (0, 2):
            z = linprog(np.zeros(n), aub, bub, aeq, beq, bounds, integrality=mip, options={"presolve": False})
        if z.status not in (0, 2):
            z = linprog(np.zeros(n), aub, bub, aeq, beq, [(max(l, -1e6), min(u, 1e6)) for l, u in bounds], integrality=mip)
        if z.status == 2 and r.status != 3:        # presolve works with exact arithmetic: real solvers have a tolerance
            z = linprog(np.zeros(n), aub, bub, aeq, beq, bounds, integrality=mip, options={"presolve": False})
            if z.status == 0:
                r = linprog(c, aub, bub, aeq, beq, bounds, integrality=mip, options={"presolve": False})
                if r.status == 0:
                    return 0, r.x
                z.status = 0 if r.status == 3 else 2
        if z.status == 2:
            return 2, None
        if z.status == 0:
            if not c.any():
                return 0, z.x
            if r.status == 3 and not integ.any() or linprog(c, aub, bub, aeq, beq, bounds).status == 3:
                return 3, z.x
            wide = [(max(l, -1e6), min(u, 1e6)) for l, u in bounds]      # feasible: is there anything better far out?
            r = linprog(c, aub, bub, aeq, beq, wide, integrality=integ if integ.any() else None, options={"presolve": False})
            if r.status == 0 and abs(r.x).max() > 1e5:
                return 3, z.x
            if r.status != 0:
                raise Skip("feasible for a zero objective only: %s" % r.message)
    if r.status == 0:
        return 0, r.x
    raise Skip("reference LP solver gave status %s: %s" % (r.status, r.message))


class Answer:
    def __init__(self, status, x=None, obj=None, exact=True):
        self.status, self.x, self.obj, self.exact = status, x, obj, exact


def truth(p):
    """The true answer of a parsed problem (status, optimal value)."""
    arr = _arrays(p)
    if arr is None:
        return Answer("infeasible")
    c = -arr[0] if p.maximize else arr[0]
    st, x = _lp(c, *arr[1:])
    if st == 2:
        return Answer("infeasible")
    if st == 3:
        return Answer("unbounded", x)
    return Answer("optimal", x, float(arr[0] @ x))


def solve(p, rng, style, ratio=0.0):
    """One of the optimal answers (style: plain | alt | vertex), or one within the relative gap the caller allowed."""
    a = truth(p)
    if a.status != "optimal" or not p.cols:
        return a
    gap = ratio * abs(a.obj) if (p.integer and ratio > 1e-7) else 0.0
    if style == "plain" and gap == 0.0:
        return a
    c, aub, bub, aeq, beq, lb, ub, integ = _arrays(p)
    cc = -c if p.maximize else c
    n = len(c)
    if c.any():
        scale = 1.0 / max(1.0, np.abs(c).max())
        aub2 = np.vstack([aub, cc * scale])
        bub2 = np.append(bub, (float(cc @ a.x) + gap) * scale + 1e-11)
    else:
        aub2, bub2 = aub, bub
    box = max(10.0, 4.0 * float(np.abs(a.x).max() if n else 1.0))
    lb2, ub2 = np.maximum(lb, np.minimum(-box, ub)), np.minimum(ub, np.maximum(box, lb))
    d = np.array([rng.choice((-1.0, 1.0, 0.0, rng.uniform(-1, 1))) for _ in range(n)])
    if gap:
        d = -cc + 1e-3 * d       # the worst answer the gap allows
    try:
        st, x = _lp(d, aub2, bub2, aeq, beq, lb2, ub2, integ)
    except Harness:
        return a
    if st != 0 or not _feasible(x, arrs=(aub, bub, aeq, beq, lb, ub)):
        return a
    if style == "mid" and not integ.any():
        t = rng.random()
        x = t * x + (1 - t) * a.x
    x = np.where(np.abs(x) < 1e-10, 0.0, x)
    return Answer("optimal", x, float(c @ x), exact=gap == 0.0)


def _feasible(x, arrs, tol=1e-7):
    aub, bub, aeq, beq, lb, ub = arrs
    return (len(bub) == 0 or (aub @ x <= bub + tol * (1 + abs(bub))).all()) and \
           (len(beq) == 0 or (abs(aeq @ x - beq) <= tol * (1 + abs(beq))).all()) and \
           (x >= lb - tol).all() and (x <= ub + tol).all()


def incumbent(p, rng):
    """A feasible but generally not optimal answer of a MILP (or None)."""
    arr = _arrays(p)
    if arr is None:
        return None
    c, aub, bub, aeq, beq, lb, ub, integ = arr
    n = len(c)
    box = 1e3
    lb2, ub2 = np.maximum(lb, np.minimum(-box, ub)), np.minimum(ub, np.maximum(box, lb))
    cc = -c if p.maximize else c
    d = -cc * rng.choice((0.0, 1.0)) + np.array([rng.uniform(-1, 1) * 0.2 for _ in range(n)])
    try:
        st, x = _lp(d, aub, bub, aeq, beq, lb2, ub2, integ)
    except Harness:
        return None
    return Answer("incumbent", x, float(c @ x), exact=False) if st == 0 else None


def garbage_point(p, rng):
    """What an interrupted simplex leaves: some point inside the bounds, rows violated."""
    x = []
    for v in p.cols:
        lo = p.lb[v] if p.lb[v] > -INF else -2.0
        hi = p.ub[v] if p.ub[v] < INF else max(lo, 0.0) + 2.0
        x.append(rng.choice((lo, hi, rng.uniform(lo, hi))))
    x = np.array(x)
    obj = sum(p.obj.get(v, 0.0) * xi for v, xi in zip(p.cols, x))
    return Answer("stopped", x, obj, exact=False)


# ------------------------------------------------------------------------------------------- cbc and glpsol

def _duration(world, rng, f):
    if f is not None and f["kind"] == "stall":
        return None
    if f is not None and f["kind"] == "slow":
        return float(f.get("secs", 30.0))
    lo, hi = getattr(world, "solve_time", (0.01, 2.0))
    return lo * (hi / lo) ** rng.random()


def _torn(world, data, f):
    """Damage a written answer: cut it, or lose a block of it."""
    k = f["kind"]
    if k == "torn":
        return data[:int(len(data) * f.get("frac", 0.5))]
    if k == "tornline":        # cut exactly after some line
        lines = data.splitlines(True)
        return b"".join(lines[:int(len(lines) * f.get("frac", 0.5))])
    if k == "zeroed":          # a lost block reads back as zero bytes
        a = int(len(data) * f.get("frac", 0.5))
        b = min(len(data), a + 1 + int(len(data) * 0.3))
        return data[:a] + b"\0" * (b - a) + data[b:]
    if k == "empty":
        return b""
    raise Harness("unknown damage " + k)


DAMAGE = ("torn", "tornline", "zeroed", "empty")


def _run_solver(world, popen, f, which, p, out, limit, ratio, writer, k):
    rng = stream(world.seed, "solver", which, k)
    style = rng.choice(getattr(world, "styles", ("plain", "alt", "alt", "mid")))
    duration = _duration(world, rng, f)
    kind = f["kind"] if f else None
    rec = {"solver": which, "k": k, "problem": p, "limit": limit, "fault": kind, "ratio": ratio}
    world.solves.append(rec)
    stopped = None
    if kind == "stall":
        world.fire("solver_stalls")
    if kind == "slow":
        world.fire("solver_slow")
    if limit is not None and (duration is None or duration > limit):
        duration, stopped = float(limit), "time"
        world.fire("solver_hits_limit")
    if kind in ("timeout", "timeout_noinc", "iterlimit"):
        stopped = "iterations" if kind == "iterlimit" else "time"
        if kind != "iterlimit":
            if limit is None:
                stopped = "iterations"      # without a limit only an iteration limit can stop it
            else:
                duration = float(limit)
        world.fire("solver_stopped_on_" + stopped)
    if kind in ("exit", "signal"):
        code = int(f.get("code", 1))
        world.fire("solver_exit_%d" % code if code > 0 else "solver_signal_%d" % -code)
        rec["status"] = "crashed"
        part = f.get("left")
        effect = None
        if part is not None:
            a = solve(p, rng, style, ratio)
            data = writer(a)
            effect = None if data is None else lambda: world.write_bytes(out, data[:int(len(data) * part)])
        return Outcome(exit=code, stdout=b"killed\n", duration=duration if duration is not None else 1.0, effect=effect)
    if duration is None:
        rec["status"] = "hung"
        return Outcome(duration=None)
    if stopped:
        a = None
        if kind != "timeout_noinc":
            a = incumbent(p, rng) if p.integer else None
        if a is None and p.integer and truth(p).status == "infeasible" and rng.random() < 0.3:
            a = truth(p)                   # infeasibility was proved before the limit
        if a is None:
            a = garbage_point(p, rng)
        if a.status == "infeasible":
            stopped = None
    else:
        a = solve(p, rng, style, ratio)
    rec["status"] = a.status if not stopped else "stopped"
    rec["answer"] = a
    data = writer(a, stopped) if stopped else writer(a)
    if kind == "nofile":
        world.fire("solver_no_solution_file")
        rec["damaged"] = True
        return Outcome(stdout=b"done\n", duration=duration)
    if kind in DAMAGE and data is not None:
        new = _torn(world, data, f)
        rec["damaged"] = new != data
        world.fire("solution_file_" + kind)
        data = new
    noise = getattr(world, "printed", None)
    if noise is not None:
        noise(rec, a)
    rec["left"] = data is not None
    return Outcome(stdout=b"done\n", duration=duration, effect=None if data is None else lambda: world.write_bytes(out, data))


def cbc(world, popen, argv, f):
    if len(argv) < 2 or not os.path.exists(argv[1]):
        return Outcome(exit=1, stdout=b"no such file")
    text = world.read_bytes(argv[1]).decode()
    k = world.spawns[-1]["index"]
    try:
        p = lpfile.parse_mps(text)
    except lpfile.BadFile as e:
        world.ev("cbc", "rejects", str(e))
        return Outcome(exit=1, stdout=b"bad mps file")
    limit, ratio, out, i = None, 0.0, None, 2
    while i < len(argv):
        t = argv[i].lstrip("-").lower()
        if t == "max":
            p.maximize = True
        elif t == "min":
            p.maximize = False
        elif t in ("sec", "seconds"):
            limit = float(argv[i + 1]); i += 1
        elif t in ("ratio", "ratiogap"):
            ratio = float(argv[i + 1]); i += 1
        elif t in ("allow", "allowablegap"):
            ratio = max(ratio, float(argv[i + 1])); i += 1
        elif t in ("solution", "solu"):
            out = argv[i + 1]; i += 1
        elif t in ("timemode", "printingoptions", "integert", "integertolerance", "primalt", "threads", "cuts", "presolve", "gomory", "maxn", "mips"):
            i += 1
        elif t in ("branch", "initialsolve", ""):
            pass
        i += 1
    if out is None:
        return Outcome(stdout=b"no solution asked for")

    def writer(a, stopped=None):
        obj = a.obj if a.obj is not None else 0.0
        if a.status == "infeasible":
            head = "Integer infeasible - objective value %.8f" % 0 if p.integer else "Infeasible - objective value %.8f" % 0
        elif a.status == "unbounded":
            head = "Unbounded - objective value %.8f" % 0
        elif stopped:
            head = ("Stopped on %s - objective value %.8f" % (stopped, obj) if a.status == "incumbent" or not p.integer else
                    "Stopped on %s (no integer solution - continuous used) - objective value %.8f" % (stopped, obj))
        else:
            head = "Optimal - objective value %.8f" % obj
        x = a.x if a.x is not None else np.zeros(len(p.cols))
        lines = [head]
        pos = dict(zip(p.cols, x))
        for i, r in enumerate(p.rows):
            act = sum(k * pos[v] for v, k in p.a[r].items())
            lines.append("%s%7d %s %15.8g %23.8g" % ("**" if a.status == "infeasible" else "", i, r, act, 0))
        for i, v in enumerate(p.cols):
            val = x[i]
            lines.append("%7d %s %15.8g %23.8g" % (i, v, 0.0 if val == 0 else val, 0))
        return ("\n".join(lines) + "\n").encode()
    return _run_solver(world, popen, f, "cbc", p, out, limit, ratio, writer, k)


def glpsol(world, popen, argv, f):
    lp = out = limit = None
    ratio, i = 0.0, 1
    while i < len(argv):
        t = argv[i]
        if t in ("--cpxlp", "--lp"):
            lp = argv[i + 1]; i += 1
        elif t in ("-o", "--output"):
            out = argv[i + 1]; i += 1
        elif t == "--tmlim":
            limit = float(argv[i + 1]); i += 1
        elif t == "--mipgap":
            ratio = float(argv[i + 1]); i += 1
        i += 1
    k = world.spawns[-1]["index"]
    if lp is None or not os.path.exists(lp):
        return Outcome(exit=1, stdout=b"no such file")
    try:
        p = lpfile.parse_lp(world.read_bytes(lp).decode())
    except lpfile.BadFile as e:
        world.ev("glpsol", "rejects", str(e))
        return Outcome(exit=1, stdout=b"CPLEX LP file processing error")
    if not p.rows:
        world.ev("glpsol", "rejects", "no constraints")
        return Outcome(exit=1, stdout=b"missing constraint section")
    if out is None:
        return Outcome()

    def writer(a, stopped=None):
        mip = bool(p.integer)
        st = {"optimal": "OPTIMAL", "infeasible": "UNDEFINED", "unbounded": "UNDEFINED"}.get(a.status, "UNDEFINED")
        if mip:
            st = {"optimal": "INTEGER OPTIMAL", "infeasible": "INTEGER EMPTY", "unbounded": "INTEGER UNDEFINED",
                  "incumbent": "INTEGER NON-OPTIMAL"}.get(a.status, "INTEGER UNDEFINED")
        elif stopped:
            st = stream(world.seed, "glpstop", k).choice(("UNDEFINED", "FEASIBLE", "INFEASIBLE (INTERMEDIATE)"))
        x = a.x if a.x is not None else np.zeros(len(p.cols))
        pos = dict(zip(p.cols, x))
        L = ["Problem:    ", "Rows:       %d" % len(p.rows),
             "Columns:    %d" % len(p.cols) + (" (%d integer, %d binary)" % (len(p.integer), 0) if mip else ""),
             "Non-zeros:  %d" % sum(len(r) for r in p.a.values()), "Status:     " + st,
             "Objective:  OBJ = %.10g (%s)" % (a.obj or 0.0, "MAXimum" if p.maximize else "MINimum"), "",
             "   No.   Row name   St   Activity     Lower bound   Upper bound    Marginal",
             "------ ------------ -- ------------- ------------- ------------- -------------"]

        def line(i, name, mark, val, isint):
            s = "%6d %-12s" % (i, name)
            if len(name) > 12:
                L.append(s)
                s = " " * 19
            L.append(s + (" %-2s " % ("*" if isint else "") if mip else " %-2s " % mark) + "%13.6g %13s %13s " % (val, "0", ""))
        for i, r in enumerate(p.rows):
            line(i + 1, r, "B", sum(k * pos[v] for v, k in p.a[r].items()), False)
        L.append("")
        L.append("   No. Column name  St   Activity     Lower bound   Upper bound    Marginal")
        L.append("------ ------------ -- ------------- ------------- ------------- -------------")
        for i, v in enumerate(p.cols):
            line(i + 1, v, "B", 0.0 if x[i] == 0 else x[i], v in p.integer)
        L += ["", "Karush-Kuhn-Tucker optimality conditions:" if not mip else "Integer feasibility conditions:", "",
              "KKT.PE: max.abs.err = 0.00e+00 on row 0", "        max.rel.err = 0.00e+00 on row 0", "        High quality",
              "", "End of output"]
        return ("\n".join(L) + "\n").encode()
    return _run_solver(world, popen, f, "glpk", p, out, limit, ratio, writer, k)


def gurobi_cl(world, popen, argv, f):
    """Gurobi's command line: key=value parameters, then the problem. No solution file unless there is a solution."""
    opts = dict(a.split("=", 1) for a in argv[1:] if "=" in a)
    lp = [a for a in argv[1:] if "=" not in a]
    k = world.spawns[-1]["index"]
    if not lp:
        return Outcome(stdout=b"Usage: gurobi_cl [--command]* [param=value]* filename\n")
    if len(lp) != 1 or not os.path.exists(lp[0]):
        return Outcome(exit=1, stdout=b"Unable to open file\n")
    try:
        p = lpfile.parse_lp(world.read_bytes(lp[0]).decode())
        limit, ratio = opts.get("TimeLimit"), float(opts.get("MIPGap", 1e-4))
        limit = None if limit is None else float(limit)
    except (lpfile.BadFile, ValueError) as e:
        world.ev("gurobi_cl", "rejects", str(e))
        return Outcome(exit=1, stdout=b"Unable to read file\n")
    out, log = opts.get("ResultFile"), opts.get("LogFile")
    if out is None:
        return Outcome()

    def writer(a, stopped=None):
        end = {"optimal": "Optimal objective %.9e" % (a.obj or 0.0), "infeasible": "Model is infeasible", "unbounded": "Model is unbounded"}.get(a.status, "")
        if stopped:
            end = "%s limit reached" % stopped.replace("iterations", "iteration").capitalize()
        if log:
            world.write_bytes(log, ("Gurobi Optimizer\nRead LP format model from file %s\n\n%s\n" % (lp[0], end)).encode())
        if a.status not in ("optimal", "incumbent"):
            return None
        return ("# Solution for model obj\n# Objective value = %r\n" % a.obj + "".join("%s %r\n" % (v, float(x)) for v, x in zip(p.cols, a.x))).encode()
    return _run_solver(world, popen, f, "gurobi_cl", p, out, limit, ratio, writer, k)


def install_solvers(world):
    world.programs["cbc"] = cbc
    world.programs["glpsol"] = glpsol
    world.programs["gurobi_cl"] = gurobi_cl


def stubs(folder):
    """PuLP looks for the program before it starts it; what it starts is the simulated one."""
    os.makedirs(folder, exist_ok=True)
    for name in ("gurobi_cl",):
        path = os.path.join(folder, name)
        with open(path, "w") as fh:
            fh.write("#!/bin/sh\nexit 127\n")
        os.chmod(path, 0o755)
    os.environ["PATH"] = folder + os.pathsep + os.environ.get("PATH", "")


# --------------------------------------------------------------------------------------------- prism

def install_prism(world, spec):
    """spec: {"model": m, "consts": {name: value wanted...} declared names, "own": {label: expr}, "digits": 17|10,
    "type": "dtmc"|"mdp"}. The stand-in evaluates label expressions `s=<int or constant>` joined by `|`."""
    world.prism_spec = spec
    world.prism_calls = []
    world.programs["prism"] = prism


def _prism_eval(expr, consts, n):
    out = set()
    for part in expr.split("|"):
        part = part.strip()
        if part == "true":
            return set(range(n))
        if part == "false":
            continue
        lhs, _, rhs = part.partition("=")
        if lhs.strip() != "s":
            raise ValueError("bad expression " + expr)
        rhs = rhs.strip()
        v = int(rhs) if rhs.lstrip("-").isdigit() else consts[rhs]
        if 0 <= v < n:
            out.add(v)
    return out


def prism_text(m, labels, digits):
    fmt = (lambda p: repr(float(p))) if digits == 17 else (lambda p: "%.*g" % (digits, p))
    nnz = sum(len(tr) for _, _, tr in m["choices"])
    L = []
    if m["kind"] == "dtmc":
        L.append("%d %d" % (m["n"], nnz))
        for s, a, tr in sorted(m["choices"]):
            L += ["%d %d %s" % (s, d, fmt(p)) for d, p in sorted(map(tuple, tr))]
    else:
        L.append("%d %d %d" % (m["n"], len(m["choices"]), nnz))
        name = {}
        for l, ps in m["alabels"].items():
            for s, a in ps:
                name[(s, a)] = l
        for s, a, tr in sorted(m["choices"]):
            for d, p in sorted(map(tuple, tr)):
                L.append("%d %d %d %s%s" % (s, a, d, fmt(p), " " + name[(s, a)] if (s, a) in name else ""))
    tra = "\n".join(L) + "\n"
    names = list(labels)
    K = [" ".join('%d="%s"' % (i, l) for i, l in enumerate(names))]
    for s in range(m["n"]):
        ids = [i for i, l in enumerate(names) if s in labels[l]]
        if ids:
            K.append("%d: %s" % (s, " ".join(map(str, ids))))
    return tra.encode(), ("\n".join(K) + "\n").encode()


def prism(world, popen, argv, f):
    import re
    spec = world.prism_spec
    k = world.spawns[-1]["index"]
    rng = stream(world.seed, "prism", k)
    call = {"argv": argv, "consts": {}, "const_args": 0}
    world.prism_calls.append(call)
    files, dest, i = [], None, 1
    while i < len(argv):
        if argv[i] == "-const":
            call["const_args"] += 1
            for part in argv[i + 1].split(","):
                n, _, v = part.partition("=")
                call["consts"][n] = v
            i += 1
        elif argv[i] in ("-exportmodel",):
            dest = argv[i + 1]; i += 1
        elif argv[i].startswith("-"):
            return Outcome(exit=1, stdout=b"Error: unknown switch\n")
        else:
            files.append(argv[i])
        i += 1

    def fail(msg):
        call["failed"] = msg
        return Outcome(exit=1, stdout=("PRISM\n=====\n\nError: %s.\n" % msg).encode(), duration=1.0)
    if len(files) != 1 or not os.path.exists(files[0]):
        return fail("File not found")
    text = world.read_bytes(files[0])
    call["text"] = text
    try:
        src = text.decode()
    except UnicodeDecodeError:
        return fail("Syntax error")
    call["labels"] = labels = {}
    body = re.sub(r"//.*", "", src)
    m = spec["model"]
    consts = {}
    for n in spec["consts"]:
        if n not in call["consts"]:
            return fail('Constant "%s" not defined' % n)
        try:
            consts[n] = int(call["consts"][n])
        except ValueError:
            return fail("Constant value")
    for n in spec.get("reals", ()):
        try:
            float(call["consts"][n])
        except (KeyError, ValueError):
            return fail("Constant value")
    if set(call["consts"]) - set(spec["consts"]) - set(spec.get("reals", ())):
        return fail("Constant not defined in model")
    if body.split()[:1] != [m["kind"]] or "endmodule" not in body:
        return fail("Syntax error")
    rest = body.split("endmodule", 1)[1]
    labels["init"] = set(m["labels"]["init"])
    labels["deadlock"] = set()
    while rest.strip():
        mt = re.match(r'\s*label\s+"([A-Za-z_][A-Za-z_0-9]*)"\s*=\s*([^;"]*);', rest)
        if not mt or mt.group(1) in labels:
            return fail("Syntax error")
        try:
            labels[mt.group(1)] = _prism_eval(mt.group(2), consts, m["n"])
        except (ValueError, KeyError):
            return fail("Expression")
        rest = rest[mt.end():]
    if dest is None:
        return Outcome(stdout=b"nothing to export\n", duration=1.0)
    base, _, exts = dest.rpartition(".")
    tra, lab = prism_text(m, labels, spec["digits"])
    data = {"tra": tra, "lab": lab, "sta": ("(s)\n" + "".join("%d:(%d)\n" % (s, s) for s in range(m["n"]))).encode()}
    data = {e: data[e] for e in exts.split(",") if e in data}
    duration, code, out = _duration(world, rng, None), 0, b"PRISM\n=====\n\nExporting model\n"
    if f is not None:
        kind = f["kind"]
        if kind == "stall":
            world.fire("prism_stalls")
            duration = None
        elif kind == "slow":
            world.fire("prism_slow")
            duration = 5000.0
        elif kind in ("exit", "signal"):
            code = int(f["code"])
            world.fire("prism_exit" if kind == "exit" else "prism_signal")
            call["failed"] = "%s %d" % (kind, code)
            if f.get("left") is None:
                data = {}
            else:
                data = {e: v[:int(len(v) * f["left"])] if e == "tra" else v for e, v in data.items() if e != "lab" or f["left"] > 0.5}
            call["damaged"] = True
        elif kind == "nofile":
            world.fire("prism_no_output")
            data = {e: v for e, v in data.items() if e != f.get("drop", "tra")}
            call["damaged"] = True
        elif kind in DAMAGE:
            world.fire("prism_transitions_" + kind)
            new = _torn(world, data.get("tra", b""), f)
            call["damaged"] = new != data.get("tra", b"")
            data["tra"] = new

    def effect():
        for e, v in data.items():
            world.write_bytes(base + "." + e, v)
    return Outcome(exit=code, stdout=out, duration=duration, effect=effect)
