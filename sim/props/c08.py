import os, io, re, sys, json, copy, contextlib, runpy
import models, dot, programs
from common import *
from minim import *
from bounds import Bounds

NAMES = (("init", "target", "rf_target", "rf_fail"), ("init", "target", "rf_target", "rf_fail"), ("start", "goal", "rf_target", "rf_fail"),
         ("init", "target", "done", "lost"), ("s0", "t", "T", "F"))
EXTRA = ("l0", "l1", "A", "big_label", "x.y")


def gen_min(rng, ls):
    o = {"op": "min", "mode": rng.choice(("min", "max")), "method": dict(gen_method(rng, exact=rng.random() < 0.3)), "iter": rng.random() < 0.4,
         "thr": gen_threshold(rng), "labels": rng.sample(ls, rng.randint(1, len(ls))) if ls and rng.random() < 0.4 else None,
         "timeout": rng.choice((None, None, None, 10, 60)), "tol": rng.choice((None, None, 1e-4, 1e-3)), "c": rng.choice((None, None, "c.json")),
         "show": rng.random() < 0.5}
    o["method"]["solver"] = rng.choice(("cbc", "cbc", "cbc", "glpk"))
    if o["method"].get("init") == "InverseCombinedInitializer":
        o["method"]["init"] = "InverseFrequencyInitializer"
    return o


def gen(rng, i, tier):
    nm = rng.choice((1, 1, 1, 2))
    names = list(rng.choice(NAMES))
    ls = rng.sample(EXTRA, rng.randint(0, 3))
    sc = {"names": names, "nm": nm, "extra": ls}
    for k in range(nm):
        m = models.gen(rng, n=rng.randint(2, 8), steps=40.0, form="dok")
        m["labels"] = {names[0]: m["labels"]["init"], names[1]: m["labels"]["target"],
                       **{l: sorted(s for s in range(m["n"]) if rng.random() < rng.choice((0.3, 0.6, 0.9))) for l in ls}}
        m["rewards"], m["alabels"] = None, {}
        sc["model%d" % k] = m
    ops, last = [], {}
    for _ in range(rng.choice((1, 1, 1, 2))):
        k = rng.randrange(nm)
        slot = rng.choice((None, None, "out")) if nm == 1 else rng.choice((None, "out", "out"))
        ops.append({"op": "rf", "m": k, "slot": slot})
        for _ in range(rng.randint(0, 5)):
            r = rng.choice(("min", "min", "min", "certify", "certify", "subsys", "subsys", "tamper", "info", "render", "bad", "rf"))
            if r in ("certify", "subsys", "tamper") and not last and rng.random() < 0.9:
                r = "min"
            if r == "min":
                o = gen_min(rng, ls)
                last = {"c": o["c"]}
            elif r == "certify":
                o = {"op": "certify", "c": last.get("c", rng.choice((None, "c.json"))), "tol": rng.choice((None, None, 1e-4, 1e-3))}
            elif r == "subsys":
                o = {"op": "subsys", "c": last.get("c", rng.choice((None, "c.json"))), "o": rng.choice((None, None, "sub")),
                     "sl": rng.choice((None, None, "W", "sub system", "COLLIDE"))}
            elif r == "tamper":
                o = {"op": "tamper", "c": last.get("c"), "how": rng.choice(("threshold", "threshold", "entry", "scale")), "x": rng.choice((0.001, 0.01, 0.2)), "i": rng.randrange(100)}
            elif r == "info":
                o = {"op": "info", "of": rng.choice(("in", "rf", "rf"))}
            elif r == "render":
                o = {"op": "render", "of": rng.choice(("in", "rf", "rf", "sub")), "o": rng.choice((None, "pic")), "col": rng.choice((None, None, [names[0]], ls[:2] + [names[1]]))}
            elif r == "bad":
                o = {"op": "bad", "what": rng.choice(("nofile", "nocert", "nomethod", "nosolve", "notarget", "kind"))}
            else:
                o = {"op": "rf", "m": rng.randrange(nm), "slot": slot}
            if o["op"] not in ("rf",):
                o["slot"], o["m"] = slot, k
            ops.append(o)
    sc["ops"] = ops
    mins = sum(o["op"] == "min" for o in ops)
    fs = []
    if rng.random() < 0.55:
        for _ in range(rng.choice((1, 1, 2))):
            r = rng.random()
            if r < 0.4:
                fs.append(crash_fault(rng, 4 * len(ops), 3 * len(ops)))
            elif r < 0.5 and mins:
                fs.append({"at": ["spawn", rng.randrange(2 * mins)], "kind": "crash"})
            elif r < 0.75 and mins:
                fs.append(solver_fault(rng, rng.randrange(3 * mins), site="spawn"))
            else:
                fs.append(disk_fault(rng, 4 * len(ops), 4 * len(ops)))
    if rng.random() < 0.2:
        fs.append(line_fault(rng, 600 * len(ops)))
    sc["faults"] = fs
    sc["buf"] = rng.choice((8192, 8192, 200, 1000))
    return sc


def valid(sc):
    return bool(sc["ops"]) and all("model%d" % o["m"] in sc for o in sc["ops"] if "m" in o)


def run(ctx, sc):
    import worker
    from switss.model import DTMC, MDP, ReachabilityForm
    script = os.path.join(worker.SRC, "bin", "switss")
    names = tuple(sc["names"])
    stats = []
    with ctx.world() as w:
        w.bufsize = sc["buf"]
        dot.install_dot(w)
        cls = {"dtmc": DTMC, "mdp": MDP}

        @contextlib.contextmanager
        def quiet():
            """The judge looks at the disk: no faults, nothing counted."""
            saved = (w.faults, dict(w.counts), w.enospc_on, w.read_faults)
            w.faults, w.enospc_on, w.read_faults = {}, False, False
            try:
                yield
            finally:
                w.faults, w.counts, w.enospc_on, w.read_faults = saved

        def p(name):
            return os.path.join(w.scratch, name)

        def load(kind, base):
            with quiet():
                r = ctx.call(cls[kind].from_file, base + ".lab", base + ".tra")
                return r.value if r.ok else None

        def parts(model):
            """A real system as a plain model (row order and all)."""
            inv = {i: sa for sa, i in dict(model.index_by_state_action).items()}
            return {"kind": "mdp" if isinstance(model, MDP) else "dtmc", "n": model.N, "rewards": None, "alabels": {},
                    "choices": [[inv[i][0], inv[i][1], sorted(row(model.P, i).items())] for i in range(model.C)],
                    "labels": {l: sorted(model.states_by_label[l]) for l in model.states_by_label.keys()}}
        M, forms, spec = {}, {}, {}
        for k in range(sc["nm"]):
            m = M[k] = sc["model%d" % k]
            tra, lab = programs.prism_text(m, m["labels"], 17)
            for e, v in ((".tra", tra), (".lab", lab)):
                with quiet():
                    w.write_bytes(p("in%d" % k) + e, v)
            with quiet():
                real = must(ctx, ctx.call(cls[m["kind"]].from_file, p("in%d.lab" % k), p("in%d.tra" % k)), "reading the model")
                forms[k] = Form(ctx, m, False, model=real, names=names)
            check_reduction(ctx, m, forms[k].ref, forms[k].rf, forms[k].cols, forms[k].rows, names[2], names[3])
            spec[k] = parts(forms[k].rf.system)
        w.counts.clear()
        slots = {}       # path of a reachability form -> (clean?, [model numbers that may be there])
        subs = {}        # path of a subsystem -> its expected content, as a successful run stored it

        def base_of(o):
            return p("out") if o["slot"] else p("in%d-rf" % o["m"])

        def cli(argv):
            """One run of the command line tool: (exit status or None if killed, output, disturbed?)"""
            f0, out = fired(w), io.StringIO()
            old, oo = sys.argv, sys.stdout
            sys.argv, sys.stdout = ["switss"] + argv, out
            ctx.note("$ switss " + " ".join(a.replace(w.scratch + "/", "") for a in argv))
            try:
                r = crashable(ctx, w, runpy.run_path, script, run_name="__main__")
            finally:
                sys.argv, sys.stdout = old, oo
            faulty = fired(w) > f0 or w.enospc_on
            w.enospc_on = False
            if r is None:
                st = None
            elif r.ok:
                st = 0
            elif isinstance(r.exc, SystemExit):
                st = r.exc.code if isinstance(r.exc.code, int) else 0 if r.exc.code is None else 1
            else:
                st = 1
                r.trace = r.where()
                r.exc.__traceback__ = None
            ctx.note("exit", st, "faults" if faulty else "")
            err = "" if r is None or r.ok else "%r at %s" % (r, r.where())
            return st, out.getvalue(), faulty, err

        def opts(*pairs):
            a = []
            for flag, v, default in pairs:
                if v is not None and v != default:
                    a += [flag] + ([str(x) for x in v] if isinstance(v, (list, tuple)) else [str(v)])
            return a

        def rfnames(o):
            return opts(("-i", names[0], "init"), ("-trf", names[2], "rf_target"), ("-frf", names[3], "rf_fail"))

        def at(o):
            """What is on the disk under the reachability form's path: (kind to read it as, form with the loaded system, number)."""
            base = base_of(o)
            clean, ks = slots.get(base, (False, []))
            kind = M[o["m"]]["kind"]
            if not ks:
                return base, kind, None, None, False
            real = load(kind, base)
            if real is None:
                if clean and M[ks[0]]["kind"] == kind:
                    ctx.violate("unloadable", "the stored reachability form %s cannot be loaded" % os.path.basename(base))
                return base, kind, None, None, False
            for k in ks:
                if equals_model(spec[k], real, 0.0 if clean else 1e-8) is None:
                    fm = copy.copy(forms[k])
                    with quiet():
                        fm.rf = must(ctx, ctx.call(ReachabilityForm, real, *([names[0]] + list(names[2:]))), "reachability form read back")
                    return base, kind, fm, k, clean
            ctx.violate("wrong-form", "the stored reachability form %s: %s" % (os.path.basename(base), "; ".join(str(equals_model(spec[k], real)) for k in ks)[:1500]))

        def cpath(o, base):
            return p(o["c"]) if o["c"] else base + ".certificates.json"

        def stored(path):
            try:
                with quiet():
                    with open(path) as f:
                        return json.load(f)
            except (OSError, ValueError):
                return None

        def verdict(fm, mode, thr, v, tol):
            """Do the conditions hold: True, False or None when it is close."""
            B = Bounds(fm)
            low, bad = min(list(v) + [0.0]), B.violation(mode, ">=", thr, v)
            if B.fixed_ok(mode, ">=", v) and low >= 0.0 and bad <= tol / 2:
                return True
            if low < -2 * tol or bad > 2 * tol + 1e-9 or B.margin(mode, ">=", thr) < -B.error(mode, ">=", tol) - 1e-9:
                return False
            return None

        def compare(fm, mode, thr, cert, tol, said, what):
            v = np.asarray(cert, dtype=float)
            if v.shape != (fm.N if mode == "min" else fm.C,):
                if said == "VALID":
                    ctx.violate("false-VALID", "%s: certificate of length %s is called valid" % (what, v.shape))
                return
            ok = verdict(fm, mode, thr, v, tol)
            if ok is not None and said != ("VALID" if ok else "INVALID"):
                ctx.violate("false-" + said, "%s: %s for threshold %.9g (value %.9g): largest violation %.3g, tolerance %g" %
                            (what, said, thr, fm.value(mode), Bounds(fm).violation(mode, ">=", thr, v), tol))

        def step(o, healthy=False):
            op = o["op"]
            if op == "rf":
                m, base = M[o["m"]], base_of(o)
                argv = ["rf", m["kind"], p("in%d" % o["m"])] + rfnames(o) + opts(("-t", names[1], "target"), ("-o", base if o["slot"] else None, None))
                st, out, faulty, err = cli(argv)
                if st == 0:
                    slots[base] = (True, [o["m"]])
                    at(o)
                    mp = stored(base + ".mapping.json")
                    try:
                        got = list(zip(mp["states"], mp["actions"], mp["rfstates"], mp["rfactions"], strict=True))
                    except (TypeError, KeyError, ValueError):
                        got = mp
                    want = sorted((s, a, t, b) for (s, a), (t, b) in dict(forms[o["m"]].rows).items())
                    if not isinstance(got, list) or sorted(got) != want:
                        ctx.violate("wrong-mapping", "stored mapping %s, expected %s" % (mp, want))
                else:
                    slots[base] = (False, [o["m"]] + slots.get(base, (0, []))[1])
                    if not faulty:
                        ctx.violate("failed", "switss %s exits with %s: %s" % (" ".join(argv), st, err))
                stats.append(["rf", st])
                return st
            if op == "bad":
                base = base_of(o)
                kind = M[o["m"]]["kind"]
                argv = {"nofile": ["info", kind, p("nothing")], "nocert": ["certify", kind, base] + rfnames(o), "nomethod": ["minimize", kind, base, "-s", "threshold=0.5"] + rfnames(o),
                        "nosolve": ["minimize", kind, base, "-m", "QSHeur", "mode=min"] + rfnames(o),
                        "notarget": ["rf", kind, p("in%d" % o["m"]), "-t", "no_such_label", "-o", p("nirvana")] + opts(("-i", names[0], "init")),
                        "kind": ["info", "mdp", p("in%d" % o["m"] if kind == "dtmc" else "nothing")]}[o["what"]]
                st, out, faulty, err = cli(argv)
                if st == 0:
                    ctx.violate("wrong-success", "switss %s exits with success" % " ".join(argv))
                stats.append(["bad", o["what"]])
                return st
            base, kind, fm, k, clean = at(o)
            if op == "info":
                src = p("in%d" % o["m"]) if o["of"] == "in" else base
                st, out, faulty, err = cli(["info", kind, src])
                real = load(kind, src)
                if st == 0 and (real is None or "C=%d," % real.C not in out or "N=%d," % real.N not in out):
                    ctx.violate("wrong-info", "switss info on %s prints %r" % (os.path.basename(src), out))
                if st != 0 and not faulty and real is not None:
                    ctx.violate("failed", "switss info exits with %s: %s" % (st, err))
                stats.append(["info", st])
                return st
            if op == "render":
                src = {"in": p("in%d" % o["m"]), "rf": base, "sub": p("sub-0")}[o["of"]]
                real = load(kind, src)
                dest = p("pic") if o["o"] else src + "-render"
                n0 = len(w.dots)
                old = ctx.call(w.read_bytes, dest + ".svg")
                st, out, faulty, err = cli(["render", kind, src] + opts(("-o", dest if o["o"] else None, None), ("-col", ",".join(o["col"]) if o["col"] else None, None)))
                if st == 0:
                    rec = w.dots[-1] if len(w.dots) > n0 else None
                    if real is None or rec is None or "graph" not in rec:
                        ctx.violate("wrong-picture", "switss render of %s exits with success: %s" % (os.path.basename(src), rec))
                    bad = dot.shows(rec["graph"], real)
                    if bad:
                        ctx.violate("wrong-picture", "switss render: %s" % bad)
                    if o["col"]:
                        seen = {}
                        for s in range(real.N):
                            c = rec["graph"][0].get(str(s), {}).get("color")
                            seen.setdefault(frozenset(set(o["col"]) & set(real.labels_by_state[s])), set()).add(c)
                        if any(len(x - {None}) > 1 for x in seen.values()):
                            ctx.violate("wrong-picture", "colours by %s: %s" % (o["col"], seen))
                    new = ctx.call(w.read_bytes, dest + ".svg")
                    if not new.ok or new.value != dot.picture(rec["text"]):
                        ctx.violate("wrong-picture", "%s.svg holds %r" % (os.path.basename(dest), new))
                elif not faulty and real is not None:
                    ctx.violate("failed", "switss render exits with %s: %s" % (st, err))
                stats.append(["render", st])
                return st
            cf = cpath(o, base)
            if op == "min":
                d, mode = o["method"], o["mode"]
                thr = (fm or forms[o["m"]]).threshold(o["thr"], mode)
                mp = [d["type"], "mode=" + mode] + (["solver=" + d["solver"]] if d["solver"] != "cbc" or o["show"] else [])
                if d["type"] == "QSHeur":
                    mp += ["iterations=%d" % d["iterations"], "initializertype=" + d["init"]] + (["updatertype=" + d["upd"]] if o["show"] and d["upd"] == "InverseResultUpdater" else [])
                sp = ["threshold=%r" % thr] + (["labels=" + ",".join(o["labels"])] if o["labels"] else []) + (["timeout=%d" % o["timeout"]] if o["timeout"] else [])
                argv = ["minimize", kind, base] + rfnames(o) + opts(("-c", cf if o["c"] else None, None), ("-tol", o["tol"], None)) + ["-m"] + mp + ["-si" if o["iter"] else "-s"] + sp
                what = "switss minimize (%s %s, threshold %.9g%s)" % (d["type"], mode, thr, ", labels %s" % o["labels"] if o["labels"] else "")
                st, out, faulty, err = cli(argv)
                stats.append(["min", st])
                if st != 0:
                    if fm is not None and not faulty:
                        v, tol = fm.value(mode), 20 * fm.tol(mode) * (1 + fm.T)
                        exact_ec = d["type"] == "MILPExact" and mode == "max" and fm.ecs
                        if thr < v - tol and not exact_ec and not o["timeout"]:
                            ctx.violate("failed", "%s (value %.9g) exits with %s: %s" % (what, v, st, err))
                    return st
                if fm is None:
                    ctx.violate("wrong-success", "%s succeeds on an unusable model" % what)
                info = stored(cf)
                try:
                    inst = info["instances"]
                    head = info["method"]["mode"]
                except (TypeError, KeyError):
                    ctx.violate("not-stored", "%s succeeds, but %s holds %r" % (what, os.path.basename(cf), info))
                if head != mode or not inst or [x["iteration"] for x in inst] != list(range(len(inst))) or any(x["threshold"] != thr for x in inst) or not o["iter"] and len(inst) != 1:
                    ctx.violate("wrong-record", "%s stores %s" % (what, info))
                said = re.findall(r"certificate (VALID|INVALID)", out)
                counts = [int(float(x)) for x in re.findall(r"with (\S+) remaining states", out)]
                if len(said) != len(inst) or len(counts) != len(inst):
                    ctx.violate("wrong-output", "%s stores %d results and prints %r" % (what, len(inst), out))
                for x, y, c in zip(inst, said, counts):
                    cert = vector(ctx, x["certificate"], fm.N if mode == "min" else fm.C, what)
                    digits = 2e-5 * (float(np.abs(cert).max()) if len(cert) else 0.0)
                    bad = certificate_conditions(fm, mode, thr, cert, fm.tol(mode) * (1 + fm.T) + digits * (1 + sum(fm.fan) / max(1, fm.N)))
                    mask = mask_of(fm, mode, cert)
                    if bad:
                        ctx.violate("bad-certificate", "%s: stored certificate %s: %s" % (what, cert, bad))
                    if fm.value(mode, mask) < thr - fm.tol(mode) * (1 + fm.T):
                        ctx.violate("not-a-witness", "%s: the stored witness achieves %.9g" % (what, fm.value(mode, mask)))
                    if c != sum(mask):
                        ctx.violate("wrong-output", "%s: %d states remain, printed %d" % (what, sum(mask), c))
                    compare(fm, mode, thr, cert, o["tol"] or 1e-5, y, what)
                stats.append([len(inst), said])
                return st
            info = stored(cf)
            if op == "tamper":
                # somebody else's certificate file: what it claims need not hold
                for x in (info or {}).get("instances", []):
                    if o["how"] == "threshold":
                        x["threshold"] = min(1.0, x["threshold"] + o["x"])
                    elif o["how"] == "scale":
                        x["certificate"] = [v * (1 + o["x"]) for v in x["certificate"]]
                    elif x["certificate"]:
                        x["certificate"][o["i"] % len(x["certificate"])] += o["x"]
                if info is not None:
                    w.write_bytes(cf, json.dumps(info).encode())
                return None
            usable = fm is not None and info is not None
            if usable:
                mode = info["method"]["mode"]
                fits = all(len(x["certificate"]) == (fm.N if mode == "min" else fm.C) for x in info["instances"])
            if op == "certify":
                argv = ["certify", kind, base] + rfnames(o) + opts(("-c", cf, None), ("-tol", o["tol"], None))
                st, out, faulty, err = cli(argv)
                stats.append(["certify", st])
                if st == 0:
                    said = re.findall(r" - (VALID|INVALID)\s*$", out, re.M)
                    if not usable or len(said) != len(info["instances"]):
                        ctx.violate("wrong-success", "switss certify succeeds with output %r on certificates %s" % (out, info))
                    for x, y in zip(info["instances"], said):
                        compare(fm, mode, x["threshold"], x["certificate"], o["tol"] or 1e-5, y, "switss certify")
                elif not faulty and usable and fits:
                    ctx.violate("failed", "switss certify exits with %s: %s" % (st, err))
                elif "VALID" in out.replace("INVALID", ""):
                    for x, y in zip(info["instances"] if usable else [], re.findall(r" - (VALID|INVALID)\s*$", out, re.M)):
                        compare(fm, mode, x["threshold"], x["certificate"], o["tol"] or 1e-5, y, "switss certify (failing later)")
                return st
            sl = {None: "subsystem", "COLLIDE": names[0]}.get(o["sl"], o["sl"])
            dest = p(o["o"]) if o["o"] else base + "-subsys"
            argv = ["subsystem", kind, base] + rfnames(o) + opts(("-c", cf, None), ("-o", dest if o["o"] else None, None), ("-sl", sl if o["sl"] else None, None))
            st, out, faulty, err = cli(argv)
            stats.append(["subsys", st])
            if o["sl"] == "COLLIDE":
                if st == 0:
                    ctx.violate("wrong-success", "the label %s is in use, but switss subsystem succeeds" % sl)
                return st
            if st == 0:
                if not usable or not fits:
                    ctx.violate("wrong-success", "switss subsystem succeeds on certificates %s" % info)
                for x in info["instances"]:
                    b = "%s-%s" % (dest, x["iteration"])
                    mask = mask_of(fm, mode, np.asarray(x["certificate"], dtype=float))
                    want = parts(fm.rf.system)
                    if any(mask):
                        want["labels"][sl] = [s for s in range(fm.N) if mask[s]]
                    real = load(kind, b)
                    bad = "it cannot be loaded" if real is None else equals_model(want, real)
                    if bad:
                        ctx.violate("wrong-subsystem", "switss subsystem stored %s: %s" % (os.path.basename(b), bad))
            elif not faulty and usable and fits:
                ctx.violate("failed", "switss subsystem exits with %s: %s" % (st, err))
            return st
        for o in sc["ops"]:
            step(o)
            # whatever happened: nothing unusual is left under any path
            for q in sc["ops"]:
                if q["op"] == "rf":
                    at(q)
        heal(w)
        w.hang = False
        done = stats[:]
        for o in sc["ops"]:
            step(o, True)
        ctx.sig = ["c08", [[o["op"] for o in sc["ops"]]], done, sorted(w.fired)]
        ctx.nontrivial = any(x[0] in ("min", "rf") and x[1] == 0 for x in done if isinstance(x, list))
