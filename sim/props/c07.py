import os, copy
import models
from common import *

NAMES = ("l0", "done_1", "two words", "x=1", "A", "goal2", "0")


def gen(rng, i, tier):
    ms = []
    for _ in range(rng.randint(1, 3)):
        big = rng.random() < 0.06
        m = models.gen(rng, n=rng.randint(30, 80) if big else None, kind=rng.choice(("dtmc", "mdp")), steps=1e9, extra_labels=0)
        for l in rng.sample(NAMES, rng.randint(0, 4)):
            m["labels"][l] = sorted(s for s in range(m["n"]) if rng.random() < rng.choice((0.0, 0.3, 0.9)))
        ms.append(m)
    ops, saves = [], 0
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < 0.5 or not saves:
            ops.append(["save", rng.randrange(len(ms)), rng.randrange(2)])
            saves += 1
        elif r < 0.9:
            ops.append(["load", 0, rng.randrange(2)])
        else:
            ops.append(["label", rng.randrange(len(ms)), rng.randrange(1000), rng.choice(NAMES)])
    buf = rng.choice((8192, 8192, 64, 256, 1000))
    nw = saves * (2 if buf == 8192 else 8)
    fs = []
    if rng.random() < 0.7:
        for _ in range(rng.choice((1, 1, 2, 3))):
            r = rng.random()
            fs.append(crash_fault(rng, nw, saves * 2) if r < 0.5 else disk_fault(rng, nw, saves * 2))
    if rng.random() < 0.25:
        fs.append(line_fault(rng, 200 * len(ops)))
    sc = {"ops": ops, "faults": fs, "buf": buf}
    for k, m in enumerate(ms):
        sc["model%d" % k] = m
    return sc


def valid(sc):
    return all("model%d" % o[1] in sc for o in sc["ops"])


def run(ctx, sc):
    from switss.model import DTMC, MDP
    with ctx.world() as w:
        w.bufsize = sc["buf"]
        spec = {k: copy.deepcopy(sc[k]) for k in sc if k.startswith("model") and isinstance(sc[k], dict)}
        real = {k: models.build(m) for k, m in spec.items()}
        disk = {0: (), 1: ()}          # path -> (clean?, possible contents as (kind, model))
        cls = {"dtmc": DTMC, "mdp": MDP}
        stats = []
        # results of earlier processes live on the disk only; the models are rebuilt after a crash
        def base(j):
            return os.path.join(w.scratch, "out%d" % j)

        def save(k, j, healthy):
            f0 = fired(w)
            r = crashable(ctx, w, real[k].save, base(j))
            now = copy.deepcopy(spec[k])
            if r is None:
                stats.append("crash")
                disk[j] = (False, [now] + list(disk[j][1] if disk[j] else []))
                for x in spec:
                    real[x] = models.build(spec[x])
            elif not r.ok:
                stats.append("raised")
                if healthy or fired(w) == f0 and not w.enospc_on:
                    must(ctx, r, "save")
                if not isinstance(r.exc, (OSError,) + INJECTED):
                    ctx.violate("unexpected-error", "a failing write surfaced as %r" % r)
                disk[j] = (False, [now] + list(disk[j][1] if disk[j] else []))
                w.enospc_on = False    # somebody frees space
            else:
                stats.append("saved")
                if tuple(r.value) != (base(j) + ".tra", base(j) + ".lab"):
                    ctx.violate("wrong-path", "save returned %r" % (r.value,))
                disk[j] = (True, [now])
            d = equals_model(spec[k], real[k])
            if d:
                ctx.violate("model-changed", "saving changed the model: %s" % d)

        def load(j, healthy):
            if not disk[j]:
                for c in cls.values():
                    r = ctx.call(c.from_file, base(j) + ".lab", base(j) + ".tra")
                    if r.ok:
                        ctx.violate("loaded-nothing", "loading a file that was never written succeeded")
                return
            clean, cands = disk[j]
            for kind in sorted({m["kind"] for m in cands}):
                f0 = fired(w)
                r = crashable(ctx, w, cls[kind].from_file, base(j) + ".lab", base(j) + ".tra")
                if r is None:
                    return
                if not r.ok:
                    stats.append("rejected")
                    if clean and (healthy or fired(w) == f0):
                        must(ctx, r, "loading what a successful save wrote")
                    continue
                diffs = [equals_model(m, r.value, 0.0 if clean else 1e-8) for m in cands if m["kind"] == kind]
                stats.append("loaded")
                if not any(d is None for d in diffs):
                    ctx.violate("wrong-model" if clean else "mixed-model", "loaded model differs from %s: %s" %
                                ("the saved one" if clean else "everything that was ever saved there", "; ".join(map(str, diffs))[:1500]))
        for o in sc["ops"]:
            if o[0] == "save":
                save("model%d" % o[1], o[2], False)
            elif o[0] == "load":
                load(o[2], False)
            else:
                k = "model%d" % o[1]
                s = o[2] % spec[k]["n"]
                must(ctx, ctx.call(real[k].add_label, s, o[3]), "add_label")
                ls = spec[k]["labels"].setdefault(o[3], [])
                if s not in ls:
                    ls.append(s)
            ctx.note(*stats)
        for j in (0, 1):
            if disk[j]:
                load(j, False)
        heal(w)
        last = [o for o in sc["ops"] if o[0] == "save"]
        if last:
            save("model%d" % last[-1][1], last[-1][2], True)
            load(last[-1][2], True)
        ctx.sig = ["c07", [(m["kind"], m["n"], len(m["choices"])) for m in spec.values()], stats]
        ctx.nontrivial = any(x in stats for x in ("saved", "crash", "raised"))
