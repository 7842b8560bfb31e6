"""Mechanical check of the checks: mutate one place of the code under test at a time, in a private copy, and run the
simulated checks (with few runs each) against it.  Survivors are listed for a human to look at: either the mutant does not
change anything a property talks about, or a check has a hole.

usage: mutants.py OUT.jsonl SLOTS RUNS SEED FILE[:FIRST-LAST] ...     (files relative to the repository)
Nothing registered in MANIFEST.json uses this."""
import warnings
warnings.simplefilter("ignore")
import ast, sys, os, re, json, random, shutil, subprocess, threading, queue, hashlib, time

REPO, PY, HERE = "/repo", "/opt/venv/bin/python", os.path.dirname(os.path.abspath(__file__))
ALL = ["C%02d" % i for i in range(1, 18)] + ["C19", "C20", "C21", "C22", "C23"]
FIRST = {
    "bin/switss": ["C08"],
    "switss/benchmarks/benchmarks.py": ["C13"],
    "switss/certification/certificates.py": ["C06", "C05", "C22", "C14", "C08"],
    "switss/model/amdp.py": ["C07", "C16", "C09", "C17", "C10", "C19", "C08"],
    "switss/model/dtmc.py": ["C07", "C09", "C17", "C16", "C19", "C10", "C08"],
    "switss/model/mdp.py": ["C07", "C09", "C17", "C16", "C19", "C10", "C08"],
    "switss/model/reachability_form.py": ["C20", "C01", "C02", "C07", "C04", "C10", "C05", "C06", "C11", "C19"],
    "switss/model/reward_reachability_form.py": ["C20", "C02", "C01", "C03", "C12", "C10"],
    "switss/prism/prism.py": ["C09", "C07"],
    "switss/problem/formulations.py": ["C03", "C21", "C04", "C12", "C15", "C11"],
    "switss/problem/milpexact.py": ["C04", "C12", "C11"],
    "switss/problem/problemform.py": ["C03", "C04", "C11", "C08", "C13"],
    "switss/problem/qsheur.py": ["C03", "C21", "C12", "C11"],
    "switss/problem/qsheurparams.py": ["C21", "C03", "C11", "C12", "C08"],
    "switss/problem/subsystem.py": ["C03", "C05", "C19"],
    "switss/solver/milp.py": ["C12", "C15", "C05", "C03"],
    "switss/utils/invertible_dict.py": ["C16", "C07"],
    "switss/utils/graph_utils.py": ["C10", "C05", "C03"],
    "switss/utils/graphviz_utils.py": ["C19"],
    "switss/utils/graph.pyx": ["C10", "C20", "C01", "C14"],
    "switss/utils/treaps.pyx": ["C10", "C14"],
    "switss/utils/stack.pyx": ["C10"],
}


def spans_of(tree):
    """Things not worth mutating: docstrings, assertion messages, prints, __repr__."""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(range(n.body[0].lineno, n.body[0].end_lineno + 1))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            skip.update(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "print":
            skip.update(range(n.lineno, n.end_lineno + 1))
    return skip


def py_mutants(text):
    tree = ast.parse(text)
    lines = text.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()
    skip = spans_of(tree)

    def pos(l, c): return starts[l - 1] + c

    def seg(n): return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []

    def sub(n, new, why):
        if n.lineno not in skip:
            a, b = seg(n)
            out.append((a, b, new.encode() if isinstance(new, str) else new, n.lineno, why))
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.MatMult: None, ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&"}
    asserted = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Assert):
            for x in ast.walk(n):
                asserted.add(id(x))
    for n in ast.walk(tree):
        if id(n) in asserted:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = seg(n.left)[1]; b = seg(n.comparators[0])[0]
            new = CMP[type(n.ops[0])]
            mid = raw[a:b]
            k = re.sub(rb"(<=|>=|==|!=|<|>|not\s+in|in|is\s+not|is)", lambda m: new.encode(), mid, count=1)
            if n.lineno not in skip:
                out.append((a, b, k, n.lineno, "compare"))
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.op, ast.Mod):
                continue
            a = seg(n.left)[1]; b = seg(n.right)[0]
            mid = raw[a:b]
            k = re.sub(rb"(//|\+|-|\*|/|&|\|)", lambda m: BIN[type(n.op)].encode(), mid, count=1)
            if n.lineno not in skip:
                out.append((a, b, k, n.lineno, "arith"))
        elif isinstance(n, ast.BoolOp):
            a = seg(n.values[0])[1]; b = seg(n.values[1])[0]
            mid = raw[a:b]
            k = mid.replace(b"and", b"OR").replace(b"or", b"and").replace(b"OR", b"or")
            if n.lineno not in skip:
                out.append((a, b, k, n.lineno, "and/or"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            a, b = seg(n)
            sub(n, raw[seg(n.operand)[0]:b], "unary dropped")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True: sub(n, "False", "const")
            elif v is False: sub(n, "True", "const")
            elif v is None: pass
            elif isinstance(v, int): sub(n, str(v + 1), "const+1"); v > 0 and sub(n, str(v - 1), "const-1")
            elif isinstance(v, float): sub(n, repr(v * 2 if v else 0.5), "const*2")
            elif isinstance(v, str) and v in ("min", "max"): sub(n, repr("max" if v == "min" else "min"), "min/max")
            elif isinstance(v, str) and v in ("above", "below"): sub(n, repr("below" if v == "above" else "above"), "above/below")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, b = seg(n.test)
            isinstance(n, ast.If) or sub(n.test, b"(not (" + raw[a:b] + b"))", "negated")
            if isinstance(n, ast.If):
                sub(n.test, "True", "always"); sub(n.test, "False", "never")
        elif isinstance(n, ast.Break): sub(n, "continue", "break")
        elif isinstance(n, ast.Continue): sub(n, "break", "continue")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): sub(n, "pass", "call dropped")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)): sub(n, "pass", "assignment dropped")
        elif isinstance(n, ast.AugAssign): sub(n, "pass", "update dropped")
        elif isinstance(n, ast.Raise): sub(n, "pass", "raise dropped")
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg and len(n.keywords) + len(n.args) > 1:
                    a, b = pos(kw.lineno, kw.col_offset), pos(kw.end_lineno, kw.end_col_offset)
                    # remove with the comma before it
                    c = raw.rfind(b",", 0, a)
                    if c > seg(n)[0] and raw[c + 1:a].strip() == b"" and kw.lineno not in skip:
                        out.append((c, b, b"", kw.lineno, "keyword " + kw.arg))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "tocsr", "tocsc", "sort", "todense", "flatten", "strip", "round"):
                a, b = seg(n.func.value)
                if n.func.attr == "copy" and not n.args:
                    sub(n, raw[a:b], "copy dropped")
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "dict", "deepcopy", "copy", "abs", "int", "float") and len(n.args) == 1 and not n.keywords:
                a, b = seg(n.args[0])
                sub(n, raw[a:b], n.func.id + " dropped")
            if isinstance(n.func, ast.Name) and n.func.id in ("max", "min"):
                sub(n.func, "min" if n.func.id == "max" else "max", "max/min")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("max", "min", "all", "any") and not n.args:
                a = seg(n.func.value)[1]
                new = {"max": "min", "min": "max", "all": "any", "any": "all"}[n.func.attr]
                if n.lineno not in skip:
                    out.append((a, seg(n.func)[1], b"." + new.encode(), n.lineno, "any/all"))
    res = []
    for a, b, new, line, why in out:
        t = raw[:a] + new + raw[b:]
        if t == raw:
            continue
        try:
            compile(t.decode(), "m", "exec")
        except SyntaxError:
            continue
        res.append((line, why, t.decode()))
    return res


def pyx_mutants(text):
    lines = text.splitlines(True)
    res, doc = [], False
    rules = [(r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"(?<![<\w])<(?![<=\w])", "<="), (r"(?<![->])>(?![>=])", ">="), (r"\+ ?1\b", "+ 2"), (r"- ?1\b", "- 2"),
             (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"= 0\b", "= 1"), (r"= 1\b", "= 0"), (r"\+=", "-="),
             (r"\.left\b", ".right"), (r"\.right\b", ".left"), (r"\bbreak\b", "continue")]
    for i, l in enumerate(lines):
        if l.count('"""') % 2:
            doc = not doc
            continue
        code = l.split("#")[0]
        s = code.strip()
        if doc or not s or s.startswith(("import", "from", "cimport", "print", "@", "cdef extern", "assert")):
            continue
        for a, b in rules:
            for m in re.finditer(a, code):
                res.append((i + 1, a + "->" + b, "".join(lines[:i]) + l[:m.start()] + b + l[m.end():] + "".join(lines[i + 1:])))
        if re.match(r"^[\w.\[\]]+(\(.*\)| [-+]?= .*)$", s) and not s.startswith(("def", "cdef", "cpdef", "return")):
            ind = l[:len(l) - len(l.lstrip())]
            res.append((i + 1, "dropped", "".join(lines[:i]) + ind + "pass\n" + "".join(lines[i + 1:])))
    return res


def main():
    outp, slots, runs, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    jobs = []
    for arg in sys.argv[5:]:
        f, _, per = arg.partition("#")
        text = open(os.path.join(REPO, f)).read()
        ms = pyx_mutants(text) if f.endswith(".pyx") else py_mutants(text)
        random.Random(seed + f).shuffle(ms)
        if per:
            ms = ms[:int(per)]
        jobs += [(f, m) for m in ms]
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["id"] for l in open(outp)}
    random.Random(seed).shuffle(jobs)
    q, lock = queue.Queue(), threading.Lock()
    for f, (line, why, text) in jobs:
        mid = "%s:%d:%s:%s" % (f, line, why, hashlib.sha1(text.encode()).hexdigest()[:8])
        if mid not in done:
            q.put((mid, f, text))
    print(q.qsize(), "mutants")

    def slot(k):
        root = "/tmp/mut%d" % k
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        shutil.copytree(os.path.join(HERE, "..", "sim"), root + "/v/sim")
        kf = os.path.join(HERE, "..", "known_findings.json")
        if os.path.exists(kf):
            shutil.copy(kf, root + "/v/")
        meta = json.load(open(root + "/v/sim/meta.json"))
        for p, d in meta.items():
            for t in ("quick", "thorough"):
                if t in d:
                    d[t]["runs"] = max(runs * d[t]["runs"] // 2400, 50) if t == "quick" else d[t]["runs"]
            d["shrink_s"] = 0
            if "cross" in d:
                d["cross"]["quick"] = {"runs": max(20, runs // 4), "envs": 2}
        json.dump(meta, open(root + "/v/sim/meta.json", "w"))
        shutil.copytree(os.environ.get("MUT_BASE", REPO), root + "/r", symlinks=True)
        while True:
            try:
                mid, f, text = q.get_nowait()
            except queue.Empty:
                break
            path = root + "/r/" + f
            orig = open(path).read()
            open(path, "w").write(text)
            res, t0 = {"id": mid, "file": f, "caught": None}, time.time()
            env = dict(os.environ, SWITSS_SIM_REPO=root + "/r", SIM_JOBS="1", VERIF_SEED=seed, VERIF_TIER="quick", SIM_RUN_LIMIT="30")
            order = FIRST.get(f, ALL)
            for p in order:
                try:
                    r = subprocess.run([PY, "-W", "ignore", root + "/v/sim/driver.py", "check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                    rc, txt = r.returncode, r.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    rc, txt = 124, "timeout"
                if rc != 0:
                    res["caught"], res["rc"], res["how"] = p, rc, txt.strip().splitlines()[:1]
                    if rc == 1 or "building" in txt:
                        break
                    res.setdefault("errors", []).append([p, rc, txt[-300:]])
            else:
                if "rc" in res and res["rc"] != 1:
                    pass
            res["secs"] = round(time.time() - t0)
            open(path, "w").write(orig)
            with lock:
                with open(outp, "a") as fh:
                    import difflib
                    res["diff"] = [x for x in difflib.unified_diff(orig.splitlines(), text.splitlines(), n=0, lineterm="") if not x.startswith(("---", "+++", "@@"))]
                    fh.write(json.dumps(res) + "\n")
        shutil.rmtree(root, ignore_errors=True)
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
