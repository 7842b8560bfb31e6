"""Parsers for the problem files PuLP hands to the solver programs (MPS for cbc, CPLEX-LP for glpsol)."""
import math, re

INF = math.inf


class Problem:
    def __init__(self):
        self.maximize = False
        self.cols, self.rows = [], []          # names in file order
        self.obj = {}                          # column -> coefficient
        self.a = {}                            # row -> {column: coefficient}
        self.sense, self.rhs = {}, {}          # row -> '<=' | '>=' | '=', number
        self.lb, self.ub = {}, {}
        self.integer = set()

    def col(self, name):
        if name not in self.lb:
            self.cols.append(name)
            self.lb[name], self.ub[name] = 0.0, INF
        return name

    def row(self, name, sense):
        self.rows.append(name)
        self.a[name], self.sense[name], self.rhs[name] = {}, sense, 0.0


class BadFile(Exception):
    """The problem file is not one a solver would accept."""


def parse_mps(text):
    p, sec, integer, objrow = Problem(), None, False, None
    try:
        for line in text.splitlines():
            if line.startswith("*") or not line.strip():
                continue
            if line[0] not in " \t":
                sec = line.split()[0]
                if sec == "ENDATA":
                    return p
                continue
            t = line.split()
            if sec == "ROWS":
                if t[0] == "N":
                    objrow = t[1]
                else:
                    p.row(t[1], {"L": "<=", "G": ">=", "E": "="}[t[0]])
            elif sec == "COLUMNS":
                if t[1] == "'MARKER'":
                    integer = t[2] == "'INTORG'"
                    continue
                c = p.col(t[0])
                if integer:
                    p.integer.add(c)
                for r, v in zip(t[1::2], t[2::2]):
                    if r == objrow:
                        p.obj[c] = p.obj.get(c, 0.0) + float(v)
                    else:
                        p.a[r][c] = p.a[r].get(c, 0.0) + float(v)
            elif sec == "RHS":
                for r, v in zip(t[1::2], t[2::2]):
                    if r != objrow:
                        p.rhs[r] = float(v)
            elif sec == "BOUNDS":
                kind, c = t[0], t[2]
                if c not in p.lb:
                    raise BadFile("bound on unknown column " + c)
                v = float(t[3]) if len(t) > 3 else None
                if kind == "FR":
                    p.lb[c], p.ub[c] = -INF, INF
                elif kind == "MI":
                    p.lb[c] = -INF
                elif kind == "PL":
                    p.ub[c] = INF
                elif kind == "BV":
                    p.lb[c], p.ub[c] = 0.0, 1.0
                    p.integer.add(c)
                elif kind == "LO":
                    p.lb[c] = v
                elif kind == "UP":
                    p.ub[c] = v
                elif kind == "FX":
                    p.lb[c] = p.ub[c] = v
                else:
                    raise BadFile("bound type " + kind)
            else:
                raise BadFile("section " + str(sec))
    except (KeyError, IndexError, ValueError) as e:
        raise BadFile(repr(e))
    raise BadFile("no ENDATA")


_NUM = r"[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|inf|nan)"
_TERM = re.compile(r"([+-])?\s*(\d+\.?\d*(?:[eE][+-]?\d+)?)?\s*([A-Za-z_][A-Za-z0-9_]*)?")


def _terms(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        m = _TERM.match(s, i)
        if not m or m.end() == i:
            raise BadFile("expression " + s[i:i + 30])
        sign = -1.0 if m.group(1) == "-" else 1.0
        coef = float(m.group(2)) if m.group(2) else 1.0
        if m.group(3) is None:
            if m.group(2) is None:
                raise BadFile("expression " + s[i:i + 30])
            out.append((None, sign * coef))
        else:
            out.append((m.group(3), sign * coef))
        i = m.end()
    return out


def parse_lp(text):
    p, sec, buf = Problem(), None, ""
    ended = False

    def flush_objective(s):
        if ":" in s:
            s = s.split(":", 1)[1]
        for v, c in _terms(s):
            if v is not None:
                p.obj[p.col(v)] = p.obj.get(v, 0.0) + c

    def constraint(s):
        name, body = s.split(":", 1)
        name = name.strip()
        m = re.search(r"(<=|>=|=<|=>|=)", body)
        if not m:
            raise BadFile("constraint " + name)
        sense = {"=<": "<=", "=>": ">="}.get(m.group(1), m.group(1))
        p.row(name, sense)
        for v, c in _terms(body[:m.start()]):
            p.a[name][p.col(v)] = p.a[name].get(v, 0.0) + c
        p.rhs[name] = float(body[m.end():])
    try:
        for line in text.splitlines():
            s = line.strip()
            if not s or s.startswith("\\"):
                continue
            low = s.lower()
            if low in ("minimize", "maximize", "subject to", "bounds", "generals", "binaries", "end"):
                if sec == "obj" and buf:
                    flush_objective(buf)
                    buf = ""
                if sec == "st" and buf:
                    constraint(buf)
                    buf = ""
                if low == "maximize":
                    p.maximize = True
                sec = {"minimize": "obj", "maximize": "obj", "subject to": "st"}.get(low, low)
                if low == "end":
                    ended = True
                continue
            if sec == "obj":
                buf += " " + s
            elif sec == "st":
                buf += " " + s
                if re.search(r"(<=|>=|=)\s*[+-]?\S+$", buf) and re.search(r"(<=|>=|=)", s):
                    constraint(buf)
                    buf = ""
            elif sec == "bounds":
                f = s.split()
                if len(f) == 2 and f[1] == "free":
                    p.lb[p.col(f[0])] = -INF
                elif len(f) == 5:
                    c = p.col(f[2])
                    p.lb[c], p.ub[c] = float(f[0]), float(f[4])
                elif len(f) == 3 and f[1] == "=":
                    c = p.col(f[0])
                    p.lb[c] = p.ub[c] = float(f[2])
                elif len(f) == 3 and re.fullmatch(_NUM, f[0], re.I):
                    c = p.col(f[2])
                    p.lb[c] = float(f[0])
                elif len(f) == 3 and f[1] == "<=":
                    p.ub[p.col(f[0])] = float(f[2])
                elif len(f) == 3 and f[1] == ">=":
                    p.lb[p.col(f[0])] = float(f[2])
                else:
                    raise BadFile("bound " + s)
            elif sec == "generals":
                p.integer.add(p.col(s))
            elif sec == "binaries":
                c = p.col(s)
                p.integer.add(c)
                p.lb[c], p.ub[c] = 0.0, 1.0
    except (KeyError, IndexError, ValueError) as e:
        raise BadFile(repr(e))
    if not ended:
        raise BadFile("no End")
    return p
