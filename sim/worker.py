"""Runs simulations in this (fresh) interpreter. Modes:
  block <prop> <seed> <start> <count> <tier>   generated scenarios
  exec <file>                                  the scenarios of a JSON file {"prop", "scenarios": [...]}
  shrink <file> <seconds>                      minimise the last scenario of the file
Results go to the file named by SIM_OUT as JSON lines; SIM_SRC is the snapshot of the code under test."""
import sys, os, json, time, signal, importlib, traceback, io, shutil, faulthandler, mmap, resource
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import world as W
import programs
from rng import stream, derive, digest

SRC, OUT, SCRATCH = os.environ["SIM_SRC"], os.environ["SIM_OUT"], os.environ["SIM_SCRATCH"]
RUN_LIMIT = int(os.environ.get("SIM_RUN_LIMIT", "120"))
MEMORY = 3 << 30
REAL_MONO = time.monotonic


class RunLimit(BaseException):
    pass


class Res:
    """Outcome of one call into the code under test."""
    def __init__(self, value=None, exc=None, tb=None):
        self.value, self.exc, self.tb = value, exc, tb
        self.ok = exc is None

    def __repr__(self):
        return "ok" if self.ok else "%s: %s" % (type(self.exc).__name__, str(self.exc)[:200])

    def where(self):
        if getattr(self, "trace", None):
            return self.trace
        fr = traceback.extract_tb(self.exc.__traceback__) if self.exc is not None else []
        for f in reversed(fr):
            if f.filename.startswith(SRC):
                return "%s:%s" % (os.path.relpath(f.filename, SRC), f.name)
        return "?"


class Ctx:
    """What a property's run() gets: worlds, guarded calls, notes (the observable history)."""
    def __init__(self, scenario, base):
        self.sc, self.base = scenario, base
        self.notes, self.worlds = [], []
        self.nontrivial, self.sig = True, None

    def world(self, **over):
        sc = self.sc
        k = dict(seed=sc["seed"], faults=sc.get("faults", ()), rand=tuple(sc.get("rand", (0, 1))))
        share = over.pop("scratch", None)
        k.update(over)
        w = W.World(scratch=share or os.path.join(self.base, "w%d" % len(self.worlds)), **k)
        import programs
        programs.install_solvers(w)
        if "styles" in sc:
            w.styles = tuple(sc["styles"])
        if "solve_time" in sc:
            w.solve_time = tuple(sc["solve_time"])
        self.worlds.append(w)
        return w

    def call(self, fn, *a, **k):
        try:
            return Res(fn(*a, **k))
        except W.Interrupt as e:
            return Res(exc=e)
        except (W.Violation, W.Harness, W.SimCrash, KeyboardInterrupt, RunLimit):
            raise
        except BaseException as e:
            return Res(exc=e)

    def note(self, *a):
        self.notes.append(list(a))

    def violate(self, kind, msg=""):
        raise W.Violation(kind, msg)


def _alarm(*a):
    if programs.reference.depth:
        raise W.Skip("the reference solver did not end in time")
    raise RunLimit("run exceeded its real-time limit")


def run_one(mod, sc):
    """-> result dict (verdict ok | violation | harness | timeout)"""
    base = os.path.join(SCRATCH, "r")
    if os.path.isdir(base):
        shutil.rmtree(base)
    os.makedirs(base)
    ctx = Ctx(sc, base)
    programs.reference.depth = 0
    out, sys.stdout = sys.stdout, io.StringIO()
    err, sys.stderr = sys.stderr, io.StringIO()
    t0 = REAL_MONO()
    cwd = os.getcwd()
    r = {"verdict": "ok"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT)
    try:
        mod.run(ctx, sc)
    except W.Violation as v:
        r = {"verdict": "violation", "kind": v.kind, "msg": v.msg[:2000]}
    except RunLimit as e:
        r = {"verdict": "violation", "kind": "no-progress", "msg": "the run did not end within %d s of real time: %s" %
             (RUN_LIMIT, traceback.format_exc()[-800:])}
    except (W.SimHang, W.SimCrash) as e:
        r = {"verdict": "harness", "msg": "uncaught " + repr(e) + traceback.format_exc()[-1500:]}
    except W.Skip as e:
        ctx.nontrivial = False
        r = {"verdict": "ok", "skipped": str(e)[:200]}
    except W.Harness as e:
        r = {"verdict": "harness", "msg": repr(e) + traceback.format_exc()[-1500:]}
    except (MemoryError, AssertionError):
        r = {"verdict": "harness", "msg": traceback.format_exc()[-3000:]}
    except Exception as e:
        # the judging code fails on what the code under test handed out (wrong type, shape, missing attribute)
        last = traceback.extract_tb(e.__traceback__)[-1]
        r = {"verdict": "violation", "kind": "unusable-result-%s-%s" % (type(e).__name__, last.name), "msg": traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)
        W.CUR = None
        sys.stdout, sys.stderr = out, err
        os.chdir(cwd)
    fired, probes = {}, {}
    sim = 0.0
    for w in ctx.worlds:
        for k, v in w.fired.items():
            fired[k] = fired.get(k, 0) + v
        for k, v in w.probes.items():
            probes[k] = probes.get(k, 0) + v
        sim += w.sim_elapsed()
    r.update(fired=fired, probes=probes, sim=round(sim, 6), nontrivial=bool(ctx.nontrivial),
             trace=digest([[w.log for w in ctx.worlds], ctx.notes, r["verdict"], r.get("kind")]),
             sigtext=ctx.sig if mod.__name__ == "fidelity" else None, shape=digest(ctx.sig) if ctx.sig is not None else None, wall=REAL_MONO() - t0)
    if os.environ.get("SIM_VERBOSE"):
        r["notes"] = ctx.notes
        r["log"] = [w.log for w in ctx.worlds]
    return r


def scenario_for(mod, prop, seed, i, tier):
    s = derive(seed, prop, i)
    rng = stream(s, "gen")
    sc = mod.gen(rng, i, tier)
    sc.setdefault("seed", s % (1 << 48))
    sc.setdefault("rand", [rng.choice((0, 0, 0, 1, 2, 3, 4, 5)), s % 100003])
    sc["prop"] = prop
    return sc


def size(sc):
    return len(json.dumps(sc))


def generic_shrinks(sc, mod):
    """Smaller variants: fewer faults, then whatever the property knows about its scenarios."""
    import copy
    fs = sc.get("faults", [])
    if len(fs) > 1:
        for half in (fs[:len(fs) // 2], fs[len(fs) // 2:]):
            c = copy.deepcopy(sc)
            c["faults"] = copy.deepcopy(half)
            yield c
    for i in range(len(fs)):
        c = copy.deepcopy(sc)
        del c["faults"][i]
        yield c
    for key in ("ops", "steps"):
        ops = sc.get(key)
        if isinstance(ops, list) and len(ops) > 1:
            n = len(ops)
            step = n // 2
            while step >= 1:
                for a in range(0, n, step):
                    c = copy.deepcopy(sc)
                    del c[key][a:a + step]
                    if c[key]:
                        yield c
                step //= 2
    if sc.get("rand", [0, 1])[0] != 0:
        c = copy.deepcopy(sc)
        c["rand"] = [0, 1]
        yield c
    if sc.get("styles") and list(sc["styles"]) != ["plain"]:
        c = copy.deepcopy(sc)
        c["styles"] = ["plain"]
        yield c
    import models
    for mk in [k for k in sc if k.startswith("model") and isinstance(sc[k], dict)]:
        for m in models.shrinks(sc[mk]):
            if not models.valid(m):
                continue
            c = copy.deepcopy(sc)
            c[mk] = m
            yield c
    if hasattr(mod, "shrinks"):
        for c in mod.shrinks(sc):
            yield c


def shrink(mod, sc, kind, budget, emit):
    t0, tried = REAL_MONO(), 0
    best = sc
    progress = True
    while progress and REAL_MONO() - t0 < budget:
        progress = False
        for c in generic_shrinks(best, mod):
            if REAL_MONO() - t0 > budget:
                break
            tried += 1
            if size(c) > size(best) or (hasattr(mod, "valid") and not mod.valid(c)):
                continue
            try:
                r = run_one(mod, c)
            except Exception:
                continue
            if r["verdict"] == "violation" and r["kind"] == kind:
                if size(c) < size(best) or c.get("styles") != best.get("styles") or c.get("rand") != best.get("rand"):
                    best, progress = c, True
                    emit({"best": best, "tried": tried, "result": r})
                    break
    emit({"done": True, "tried": tried})


def main():
    faulthandler.enable()
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))     # code that eats memory dies here, not somebody else
    programs.stubs(os.path.join(SCRATCH, "bin"))
    mode = sys.argv[1]
    f = open(OUT, "a", buffering=1)

    def emit(d):
        f.write(json.dumps(d) + "\n")
        f.flush()
    with open(OUT + ".ref", "wb+") as cell:
        cell.write(b"\0")
        cell.flush()
        programs.reference.cell = mmap.mmap(cell.fileno(), 1)
    W.install(os.environ.get("SIM_SHIM") or None)
    sys.path.insert(0, SRC)
    sys.path.insert(1, os.path.join(HERE, "props"))
    import sched_
    sched_.install(SRC)
    out, sys.stdout = sys.stdout, io.StringIO()      # import-time chatter of the code under test
    import warnings
    warnings.simplefilter("ignore")
    try:
        import gurobi_
        sys.modules["gurobipy"] = gurobi_.module()
        import switss, switss.model, switss.problem, switss.certification
        import pulp, graphviz
        if not os.path.realpath(switss.__file__).startswith(os.path.realpath(SRC)):
            emit({"fatal": "imported switss from " + switss.__file__})
            return 3
    except Exception:
        emit({"import_error": traceback.format_exc()[-2500:]})
        return 4
    finally:
        sys.stdout = out
    try:
        if mode == "block":
            prop, seed, start, count, tier = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
            mod = importlib.import_module(prop.lower())
            for i in range(start, start + count):
                sc = scenario_for(mod, prop, seed, i, tier)
                emit({"begin": i})
                r = run_one(mod, sc)
                r["i"] = i
                if r["verdict"] != "ok" or i == start:
                    r["scenario"] = sc
                emit(r)
                if r["verdict"] != "ok":
                    break
        elif mode == "exec":
            d = json.load(W.REAL["open"](sys.argv[2]))
            mod = importlib.import_module(d["prop"].lower())
            for sc in d["scenarios"]:
                emit({"begin": -1})
                emit(run_one(mod, sc))
        elif mode == "shrink":
            d = json.load(W.REAL["open"](sys.argv[2]))
            mod = importlib.import_module(d["prop"].lower())
            shrink(mod, d["scenarios"][-1], d["kind"], float(sys.argv[3]), emit)
    except Exception:
        emit({"fatal": traceback.format_exc()[-3000:]})
        return 3
    emit({"end": True})
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
