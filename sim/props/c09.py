import gc, os
import models, programs
from common import *

KINDS = ("exit", "exit", "signal", "signal", "nofile", "torn", "torn", "tornline", "tornline", "zeroed", "empty", "missing", "noexec", "eagain", "slow", "stall")
CN = ("N", "K", "max_runs", "p1")
BASES = ("module M\n s : [0..{n}] init {i};\n [a] s=0 -> (s'=1);\nendmodule\n", "// a comment\nmodule M // the module\n s : [0..{n}] init {i};\nendmodule\n\n",
         "module Größe\n  s : [0..{n}] init {i};\nendmodule\n")
TAILS = ("", "", "\n", "// end", "\n// no newline at the end", "   ")


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.randint(1, 4)):
        m = models.gen(rng, n=rng.randint(20, 60) if rng.random() < 0.05 else None, steps=1e9)
        m["alabels"] = {}
        if m["kind"] == "mdp":
            m["choices"].sort()
            # PRISM numbers the choices of a state from zero
            cnt = {}
            for c in m["choices"]:
                c[1] = cnt.get(c[0], 0)
                cnt[c[0]] = c[1] + 1
            for c in m["choices"]:
                if rng.random() < 0.5:
                    m["alabels"].setdefault(rng.choice(("go", "stop", "a_1")), []).append([c[0], c[1]])
        m["labels"] = {"init": m["labels"]["init"], "target": m["labels"]["target"]}
        consts = {c: rng.randint(0, m["n"]) for c in rng.sample(CN, rng.choice((0, 0, 1, 2, 3)))}

        if rng.random() < 0.2:
            consts["big"] = rng.choice((10 ** 6, 1234567, 2147483646, -99999))
        reals = {c: rng.choice((0.5, 0.1, 1 / 3, 0.123456789012345, 1e-7, 2.5e10, 1 - 1e-9)) for c in rng.sample(("p", "eps"), rng.choice((0, 0, 1, 2)))}

        def expr():
            r = rng.random()
            if r < 0.15:
                return rng.choice(("true", "false"))
            parts = []
            for _ in range(rng.randint(1, 3)):
                parts.append("s=%s" % (rng.choice(list(consts)) if consts and rng.random() < 0.5 else rng.randrange(m["n"])))
            return " | ".join(parts)
        own = {l: expr() for l in rng.sample(("own1", "own2", "B"), rng.choice((0, 1, 2)))}
        extra = {l: expr() for l in rng.sample(("x1", "goal", "C", "x_2"), rng.choice((0, 1, 2, 3)))}
        wrong = rng.random() < 0.08
        ops.append({"model": m, "consts": consts, "reals": reals, "own": own, "extra": extra, "how": rng.choice(("dict", "dict", "pairs", "omit")),
                    "base": rng.randrange(len(BASES)), "tail": rng.choice(TAILS), "digits": rng.choice((17, 17, 11)), "wrong": wrong})
    fs = []
    if rng.random() < 0.6:
        for _ in range(rng.choice((1, 1, 2))):
            if rng.random() < 0.7:
                f = solver_fault(rng, rng.randrange(len(ops)), "spawn:prism", KINDS)
                if f["kind"] in ("exit", "signal") and rng.random() < 0.5:
                    f["left"] = 1.0         # everything is written before it fails
                if f["kind"] == "nofile":
                    f["drop"] = rng.choice(("tra", "lab"))
                fs.append(f)
            else:
                fs.append(disk_fault(rng, len(ops) * 2, len(ops) * 3))
    if rng.random() < 0.15:
        fs.append(line_fault(rng, 150 * len(ops)))
    return {"ops": ops, "faults": fs}


def shrinks(sc):
    import copy
    for k, o in enumerate(sc["ops"]):
        for key, v in (("own", {}), ("extra", {}), ("tail", ""), ("base", 0), ("how", "dict"), ("digits", 17), ("reals", {})):
            if o[key] != v:
                c = copy.deepcopy(sc)
                c["ops"][k][key] = v
                yield c
        for m in models.shrinks(o["model"]):
            if models.valid(m):
                c = copy.deepcopy(sc)
                c["ops"][k]["model"] = m
                yield c


def valid(sc):
    for o in sc["ops"]:
        m = o["model"]
        if m["kind"] == "mdp":
            per = {}
            for s, a, _ in m["choices"]:
                per.setdefault(s, []).append(a)
            if any(sorted(v) != list(range(len(v))) for v in per.values()):
                return False
        elif [c[0] for c in sorted(m["choices"])] != list(range(m["n"])):
            return False
    return True


def run(ctx, sc):
    from switss.model import DTMC, MDP
    with ctx.world() as w:
        stats = []

        def request(k, o, healthy):
            m = o["model"]
            consts = dict(o["consts"], **o["reals"])
            if o["wrong"]:
                consts["unknown"] = 1
            spec = {"model": m, "consts": o["consts"], "reals": o["reals"], "digits": o["digits"]}
            programs.install_prism(w, spec)
            text = m["kind"] + "\n" + "".join("const int %s;\n" % c for c in o["consts"]) + "".join("const double %s;\n" % c for c in o["reals"]) + \
                BASES[o["base"]].format(n=m["n"] - 1, i=m["labels"]["init"][0]) + \
                "\n".join('label "%s" = %s;' % kv for kv in o["own"].items()) + o["tail"]
            path = os.path.join(w.scratch, "model%d.nm" % k)
            w.write_bytes(path, text.encode())
            before = sorted(os.listdir(w.tmp))
            kw = {}
            if consts or o["how"] != "omit":
                kw["prism_constants"] = list(consts.items()) if o["how"] == "pairs" else consts
            if o["extra"] or o["how"] != "omit":
                kw["extra_labels"] = list(o["extra"].items()) if o["how"] == "pairs" else dict(o["extra"])
            keep = {a: list(v) if isinstance(v, list) else dict(v) for a, v in kw.items()}
            cls = DTMC if m["kind"] == "dtmc" else MDP
            f0 = fired(w)
            r = stopped(ctx, w, cls.from_prism_model, path, **kw)
            faulty = fired(w) > f0 or w.enospc_on
            w.enospc_on = False
            if not r.ok:         # the caller has dealt with the exception: what its frames kept alive goes away
                r.trace = r.where()
                r.exc.__traceback__ = r.exc.__context__ = r.exc.__cause__ = None
                gc.collect()
            call = w.prism_calls[-1] if w.prism_calls else None
            what = "import %d" % k
            if w.read_bytes(path) != text.encode():
                ctx.violate("model-file-changed", "%s changed the PRISM file" % what)
            if kw != keep:
                ctx.violate("arguments-changed", "%s changed the caller's constants or labels" % what)
            if not w.hang and not (isinstance(r.exc, INJECTED) and faulty):     # an interruption can hit the cleaning up itself
                left = sorted(set(os.listdir(w.tmp)) - set(before))
                if left:
                    ctx.violate("temporary-files-left", "%s left %d temporary files" % (what, len(left)))
            w.hang = False
            if not r.ok:
                stats.append("raised")
                if not o["wrong"] and (healthy or not faulty):
                    must(ctx, r, what + " (prism said: %s)" % (call and call.get("failed")))
                return
            stats.append("ok")
            if call is None or call.get("failed") or o["wrong"]:
                ctx.violate("import-without-prism", "%s returned a model although PRISM failed: %s" % (what, call and call.get("failed")))
            if {c: float(v) for c, v in call["consts"].items()} != consts:
                ctx.violate("wrong-constants", "%s passed %s, wanted %s" % (what, call["consts"], consts))
            want = dict(m)
            want["labels"] = {"init": m["labels"]["init"], "deadlock": []}
            for l, e in list(o["own"].items()) + list(o["extra"].items()):
                want["labels"][l] = sorted(programs._prism_eval(e, o["consts"], m["n"]))
            d = equals_model(want, r.value, 0.0 if o["digits"] == 17 and not call.get("damaged") else 1e-8)
            if d:
                ctx.violate("wrong-model", "%s (PRISM output damaged: %s): %s" % (what, bool(call.get("damaged")), d))
            if m["kind"] == "mdp" and not call.get("damaged"):
                for l in set(m["alabels"]) | set(r.value.actions_by_label.keys()):
                    if {tuple(x) for x in r.value.actions_by_label[l]} != {tuple(x) for x in m["alabels"].get(l, [])}:
                        ctx.violate("wrong-action-labels", "%s: action label %s marks %s" % (what, l, r.value.actions_by_label[l]))
        for k, o in enumerate(sc["ops"]):
            request(k, o, False)
            ctx.note(stats[-1])
        heal(w)
        request(len(sc["ops"]), sc["ops"][-1], True)
        ctx.sig = ["c09", [(o["model"]["kind"], o["model"]["n"], len(o["extra"]), len(o["consts"]), o["how"]) for o in sc["ops"]], stats, sorted(w.fired)]
        ctx.nontrivial = True
