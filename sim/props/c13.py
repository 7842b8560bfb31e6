import json, math, os
import models
from common import *
from minim import *


def script(rng, last_unsolved):
    """One threshold of a scripted method: results with the time each of them took."""
    rs = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        rs.append({"status": "success", "value": rng.choice((rng.randint(1, 40), float(rng.randint(1, 9)), 0)),
                   "wall": rng.choice((0.0, 0.002, 1.5, 3601.0, 90000.0)), "cpu": rng.choice((0.0, 0.25, 7.0)), "jump": rng.choice((0, 0, 0, 3600, -7200, -0.5, 86400 * 400))})
    if last_unsolved:
        rs[-1]["status"] = last_unsolved
    return rs


def gen(rng, i, tier):
    nm = rng.choice((1, 1, 1, 2, 3))
    methods = []
    for _ in range(nm):
        if rng.random() < 0.45:
            d = gen_method(rng, exact=rng.random() < 0.3)
            if d not in methods:
                methods.append(d)
        else:
            rows = [script(rng, rng.choice((None, None, None, None, None, "notsolved", "undefined", "infeasible"))) for _ in range(8)]
            methods.append({"type": "Scripted", "name": "s%d" % len(methods), "rows": rows})
    step = rng.choice((0.1, 0.2, 0.25, 0.05, 0.15, round(rng.uniform(0.06, 0.5), 3)))
    start = rng.choice((0.001, 0.05, 0.1, 0.2, 0.5, round(rng.uniform(0, 0.9), 3)))
    stop = rng.choice((1, 1, 0.5, 0.9, round(rng.uniform(start, 1), 3)))
    stop = min(stop, start + 7 * step)
    m = models.gen(rng, n=rng.randint(3, 7), ecs=rng.random() < 0.3, extra_labels=rng.choice((0, 2)), steps=30.0)
    lab = [l for l in m["labels"] if l.startswith("l")]
    calls = sum(d.get("iterations", 1) * 4 for d in methods if d["type"] != "Scripted")
    js = rng.random() < 0.7
    fs = []
    if rng.random() < 0.45:
        if calls and rng.random() < 0.6:
            fs.append(solver_fault(rng, rng.randrange(calls)))
        elif js:
            fs.append(dict(disk_fault(rng, nm), json=True))
    if rng.random() < 0.1:
        fs.append(line_fault(rng, 3000))
    return {"model": m, "methods": methods, "modes": rng.choice((["min"], ["max"], ["min", "max"], ["max", "min"])), "list": nm > 1 or rng.random() < 0.4,
            "grid": [start, stop, step], "json": js, "debug": rng.random() < 0.3, "timeout": rng.choice((None, None, 3, 60, 0)),
            "labels": lab if lab and rng.random() < 0.5 else None, "stop": rng.random() < 0.6, "default_stop": rng.random() < 0.3, "faults": fs, "render": rng.random() < 0.08,
            "jump": rng.choice((0, 0, 7200, -7200)), "solve_time": rng.choice(((0.01, 2.0), (0.5, 300.0)))}


def valid(sc):
    return bool(sc["methods"]) and bool(sc["modes"])


def shrinks(sc):
    import copy
    for k in range(len(sc["methods"])):
        if len(sc["methods"]) > 1:
            c = copy.deepcopy(sc)
            del c["methods"][k]
            yield c
        if sc["methods"][k]["type"] == "Scripted":
            for j, rs in enumerate(sc["methods"][k]["rows"]):
                if len(rs) > 1:
                    c = copy.deepcopy(sc)
                    c["methods"][k]["rows"][j] = rs[-1:]
                    yield c
    for key in ("json", "debug", "render", "labels", "timeout", "jump"):
        if sc[key]:
            c = copy.deepcopy(sc)
            c[key] = None if key in ("labels", "timeout") else 0 if key == "jump" else False
            yield c


def grid(start, stop, step):
    """-> (thresholds that must come, those that may follow)"""
    must_, may = [], []
    for k in range(10000):
        t = start + k * step
        if t > min(1.0, stop + step) + 1e-9:
            break
        if t <= stop + 1e-9 and t < 1 - 1e-9:
            must_.append(t)
        else:
            may.append(t)
    return must_, may


def run(ctx, sc):
    from switss.benchmarks import run as bench, render
    from switss.problem import ProblemFormulation, ProblemResult
    import switss.problem as P
    m = sc["model"]
    with ctx.world() as w:
        form = Form(ctx, m, False)
        if sc["jump"]:
            w.printed = lambda rec, a: w.jump_wall(sc["jump"])
        seen = []        # what each method instance was asked for and what it produced, in order

        class Scripted(ProblemFormulation):
            def __init__(self, d):
                super().__init__()
                self.d, self.k = d, 0

            @property
            def details(self):
                return {"type": "Scripted", "name": self.d["name"]}

            def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
                rows = self.d["rows"]
                call = [self, float(threshold), mode, labels, timeout, reach_form is form.rf, [], w.mono, w.cpu]
                seen.append(call)
                row_ = rows[self.k % len(rows)]
                self.k += 1
                return self.results(row_, call)

            def results(self, row_, call):
                call[7], call[8] = w.mono, w.cpu
                for r in row_:
                    w.advance(r["wall"], r["cpu"])
                    if r["jump"]:
                        w.fire("clock_jump")
                        w.jump_wall(r["jump"])
                    res = ProblemResult(r["status"], None, r["value"] if r["status"] == "success" else None, None)
                    call[6].append((res.status, res.value, w.mono - call[7], w.cpu - call[8]))
                    yield res

        def watched(base):
            class Watched(base):
                def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
                    call = [self, float(threshold), mode, labels, timeout, reach_form is form.rf, [], w.mono, w.cpu]
                    seen.append(call)
                    inner = base._solveiter(self, reach_form, threshold, mode, labels, timeout)

                    def results():
                        call[7], call[8] = w.mono, w.cpu
                        for res in inner:
                            call[6].append((res.status, res.value, w.mono - call[7], w.cpu - call[8]))
                            yield res
                    return results()
            return Watched

        def make():
            out = []
            for d in sc["methods"]:
                if d["type"] == "Scripted":
                    out.append(Scripted(d))
                elif d["type"] == "MILPExact":
                    out.append(watched(P.MILPExact)(solver=d["solver"]))
                else:
                    from switss.problem import qsheurparams as Q
                    out.append(watched(P.QSHeur)(solver=d["solver"], iterations=d["iterations"], initializertype=getattr(Q, d["init"]), updatertype=getattr(Q, d["upd"])))
            return out

        stopping = True if sc["default_stop"] else sc["stop"]
        want_must, want_may = grid(*sc["grid"])
        shapes = []

        def judge(data, calls, me, mo, what):
            if not isinstance(data, dict) or set(data) != {"method", "mode", "run"} or data["mode"] != mo or data["method"] != me.details:
                ctx.violate("wrong-record", "%s: %s" % (what, {k: data[k] for k in data if k != "run"} if isinstance(data, dict) else data))
            k = 0
            early = None
            thrs = want_must + want_may
            for call in calls:
                _, thr, mode, labels, timeout, same_rf, results, _, _ = call
                if k >= len(thrs) or abs(thr - thrs[k]) > 1e-9:
                    ctx.violate("wrong-threshold", "%s: threshold number %d is %r, grid %s %s" % (what, k, thr, want_must, want_may))
                k += 1
                if mode != mo or labels != sc["labels"] or timeout != sc["timeout"] or not same_rf:
                    ctx.violate("wrong-request", "%s: asked for mode=%s labels=%s timeout=%s" % (what, mode, labels, timeout))
                if early:
                    ctx.violate("went-on", "%s: went on after %s" % (what, early))
                st = [r[0] for r in results]
                if "infeasible" in st:
                    early = "an infeasible threshold"
                elif stopping and any(s != "success" for s in st):
                    early = "an unsolved threshold"
            if not early and k < len(want_must):
                ctx.violate("ended-early", "%s: %d of %d thresholds" % (what, k, len(want_must)))
            expect = [c for c in calls if "infeasible" not in [r[0] for r in c[6]]]
            if len(data["run"]) != len(expect):
                ctx.violate("wrong-record", "%s: %d entries for %d thresholds" % (what, len(data["run"]), len(expect)))
            for e, c in zip(data["run"], expect):
                if set(e) != {"threshold", "value", "wall_times", "proc_times"}:
                    ctx.violate("wrong-record", "%s: entry %s" % (what, e))
                if float(e["threshold"]) != c[1]:
                    ctx.violate("wrong-record", "%s: entry for %r, the method was asked for %r" % (what, e["threshold"], c[1]))
                vals = [r[1] if r[0] == "success" else -1 for r in c[6]]
                if list(e["value"]) != vals:
                    ctx.violate("wrong-record", "%s threshold %.6g: sizes %s, the method produced %s" % (what, c[1], e["value"], vals))
                for name, ix in (("wall_times", 2), ("proc_times", 3)):
                    true = [r[ix] / 1e9 for r in c[6]]
                    got = list(e[name])
                    if len(got) != len(true) or any(abs(a - b) > 1e-3 for a, b in zip(got, true)):
                        ctx.violate("wrong-times", "%s threshold %.6g: %s %s, elapsed %s" % (what, c[1], name, got, true))

        def once(tag, healthy):
            methods = make()
            del seen[:]
            js = None
            if sc["json"]:
                js = os.path.join(w.scratch, "json")
                os.makedirs(js, exist_ok=True)
            lst = sc["list"] or len(methods) > 1
            kw = dict(from_thr=sc["grid"][0], to_thr=sc["grid"][1], step=sc["grid"][2], debug=sc["debug"], json_dir=js, timeout=sc["timeout"], labels=sc["labels"])
            if not sc["default_stop"]:
                kw["stop_on_timeout"] = sc["stop"]
            f0 = fired(w) - w.fired.get("clock_jump", 0)
            modes = list(sc["modes"])
            if lst:
                pairs = [(me, mo) for me in methods for mo in modes]
                r = stopped(ctx, w, bench, form.rf, methods, modes, **kw)
            else:
                pairs = [(methods[0], modes[0])]
                r = stopped(ctx, w, bench, form.rf, methods[0], modes[0], **kw)
            faulty = fired(w) - w.fired.get("clock_jump", 0) > f0
            broke = [k for k in w.fired if k.startswith(("write_eio", "write_enospc", "open_", "close_"))]
            if not r.ok:
                shapes.append("raised")
                if not faulty:
                    exact_ec = form.ecs and isinstance(r.exc, AssertionError) and any(d["type"] == "MILPExact" for d in sc["methods"]) and "max" in modes
                    if not exact_ec:
                        must(ctx, r, "benchmark " + tag)
                return None
            datas = r.value if lst else [r.value]
            if len(datas) != len(pairs):
                ctx.violate("wrong-record", "%s: %d records for %d benchmarks" % (tag, len(datas), len(pairs)))
            pos = 0
            for (me, mo), data in zip(pairs, datas):
                calls = []
                while pos < len(seen) and seen[pos][0] is me and seen[pos][2] == mo:
                    calls.append(seen[pos])
                    pos += 1
                judge(data, calls, me, mo, "%s %s %s" % (tag, me, mo))
                shapes.append([len(data["run"]), len(calls)])
            if pos != len(seen):
                ctx.violate("wrong-request", "%s: requests out of order" % tag)
            if js is not None:
                files = {}
                for fn in sorted(os.listdir(js)):
                    try:
                        files[fn] = json.loads(w.read_bytes(os.path.join(js, fn)).decode())
                    except ValueError:
                        ctx.violate("bad-file", "%s: %s is no JSON although the run succeeded (faults: %s)" % (tag, fn, broke))
                if len(files) != len(pairs):
                    ctx.violate("bad-file", "%s: %d files for %d benchmarks" % (tag, len(files), len(pairs)))
                rest = list(files.values())
                for d in datas:
                    d = {"method": dict(d["method"]), "mode": d["mode"], "run": [dict(e, threshold=float(e["threshold"])) for e in d["run"]]}
                    if d not in rest:
                        ctx.violate("bad-file", "%s: no file holds the record of %s %s" % (tag, d["method"], d["mode"]))
                    rest.remove(d)
            return datas
        once("first run", False)
        heal(w)
        w.hang = False
        datas = once("second run", True)
        if datas and sc["render"]:
            import matplotlib.pyplot as plt
            for d in datas:
                if not d["run"] or len({len(e["value"]) for e in d["run"]}) != 1:
                    continue
                for mode in ("laststates-thr", "states-thr", "wall_time-thr", "proc_time-thr"):
                    fig = plt.figure()
                    ax = must(ctx, ctx.call(render, d, mode=mode, normalize=False, cap_times_below_onesec=False), "render")
                    thr = [float(e["threshold"]) for e in d["run"]]
                    n = len(d["run"][0]["value"])
                    key = {"wall_time-thr": "wall_times", "proc_time-thr": "proc_times"}.get(mode, "value")
                    want = [[float(e[key][j]) for e in d["run"]] for j in (range(n) if mode == "states-thr" else [n - 1])]
                    got = [(list(map(float, l.get_xdata())), list(map(float, l.get_ydata()))) for l in ax.get_lines()]
                    plt.close(fig)
                    if got != [(thr, ys) for ys in want]:
                        ctx.violate("wrong-plot", "%s of %s: plotted %s, recorded %s" % (mode, d, got, want))
        ctx.sig = ["c13", shapes, len(sc["methods"]), sc["modes"], sorted(w.fired)]
        ctx.nontrivial = any(s != "raised" for s in shapes)
