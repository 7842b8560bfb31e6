import json, os
import numpy as np
import models
from common import *
from minim import Form
from bounds import Bounds, SENSES
from rng import stream

VECS = ("value", "value", "best", "best", "best_drop_sign", "best_drop_fixed", "best_drop_row", "noise", "scale", "shift", "swap", "flip", "negate",
        "zero_entry", "zeros", "ones", "other", "constant", "nan", "inf", "ec_poison", "ec_poison", "edge", "neg_poison")


def gen(rng, i, tier):
    m = models.gen(rng, n=rng.randint(11, 22) if rng.random() < 0.05 else None, ecs=rng.random() < 0.75, steps=40.0)
    ops = []
    for _ in range(rng.randint(4, 10)):
        r = rng.random()
        spec = ["above", rng.choice((1e-4, 1e-3, 0.02, 0.2))] if r < 0.4 else ["below", rng.choice((1e-4, 1e-3, 0.02, 0.2))] if r < 0.8 else \
            ["abs", rng.choice((0.0, 0.5, 1.0))] if r < 0.9 else ["exact", 0]
        ops.append({"mode": rng.choice(("min", "max")), "sense": rng.choice(SENSES), "thr": spec, "vec": rng.choice(VECS),
                    "tol": rng.choice((None, None, 1e-8, 1e-6, 1e-5, 1e-3)),
                    "store": rng.choice((None, None, None, "plain", "digit", "torn", "swaplines"))})
    fs = []
    if rng.random() < 0.4:
        fs = [disk_fault(rng, len(ops), len(ops)) for _ in range(rng.randint(1, 2))]
    return {"model": m, "ops": ops, "faults": fs, "styles": ["plain"]}


def make(B, o, mode, sense, thr, tol, rng):
    """The vector under test."""
    form, n, k = B.form, B.dim(mode, sense), o["vec"]

    def good():
        if B.kind(mode, sense) == "z" and rng.random() < 0.5:
            s = form.sys
            return np.array(s.pr(mode))
        x = B.best(mode, sense, 0.0, low=0.0)
        return np.maximum(x, 0.0) if x is not None else np.zeros(n)
    if k == "best":
        x = B.best(mode, sense, tol * rng.choice((0.2, 0.45, 1.0, 3.0, 30.0, 1000.0)))
        return x if x is not None else good()
    if k.startswith("best_drop_"):
        x = B.best(mode, sense, 0.0, rng, k[10:], low=0.0)
        return x if x is not None else good()
    x = good()
    if k == "edge":            # conditions just inside or just outside the tolerance
        x = np.maximum(x + tol * rng.choice((0.05, 0.1, -0.1, 0.3)), 0.0)
        x[B.system(mode, sense, 0.0)[2]] = 0.0
    elif k == "noise":
        a = tol * rng.choice((0.05, 0.5, 5.0, 100.0))
        x = x + np.array([rng.uniform(-a, a) for _ in range(n)])
    elif k == "scale":
        x = x * rng.choice((1 - tol / 2, 1 + tol / 2, 0.5, 2.0, 10.0, 1 - 1e-4, 1 + 1e-4))
    elif k == "shift":
        x = x + rng.choice((tol, -tol, 0.01, -0.01, 1.0, -1.0))
    elif k == "swap" and n > 1:
        i, j = rng.sample(range(n), 2)
        x[i], x[j] = x[j], x[i]
    elif k == "flip":
        i = rng.randrange(n)
        x[i] = -x[i]
    elif k == "negate":
        x = -x
    elif k == "zero_entry":
        x[rng.randrange(n)] = 0.0
    elif k == "zeros":
        x = np.zeros(n)
    elif k == "ones":
        x = np.ones(n)
    elif k == "other":         # a certificate of another kind, cut or padded
        mode2, sense2 = rng.choice(("min", "max")), rng.choice(SENSES)
        y = B.best(mode2, sense2, 0.0, low=0.0)
        if y is not None:
            x = np.resize(np.maximum(y, 0.0), n)
    elif k == "constant":
        x = np.full(n, rng.choice((thr, 1.0, 0.5, 100.0)))
    elif k == "nan":
        x[rng.randrange(n)] = np.nan
    elif k == "inf":
        x[rng.randrange(n)] = rng.choice((np.inf, -np.inf))
    elif k == "ec_poison":
        own = B.ec if n == B.N and B.kind(mode, sense) == "z" else B.ec[B.owner]
        x = x.copy()
        x[own] = rng.choice((1.0, 0.5, 10.0, 1e-3))
    elif k == "neg_poison":
        i = rng.randrange(n)
        x[i] -= rng.choice((1.0, 0.1, 1e-3, 2 * tol))
    return np.asarray(x, dtype=float)


def stored(w, x, how, k, rng):
    """The vector after a trip through a file that may get damaged; None if it does not come back."""
    path = os.path.join(w.scratch, "cert%d.json" % k)
    try:
        with open(path, "w") as f:
            json.dump([float(v) for v in x], f)
    except OSError:
        pass
    if not os.path.exists(path):
        return None
    data = bytearray(w.read_bytes(path))
    if how == "digit" and data:
        at = [i for i, c in enumerate(data) if chr(c).isdigit()]
        if at:
            data[rng.choice(at)] = ord(rng.choice("0123456789"))
        w.fire("stored_digit_flipped")
    elif how == "torn":
        data = data[:int(len(data) * rng.random())]
        w.fire("stored_vector_torn")
    elif how == "swaplines" and b"," in data:
        parts = bytes(data).strip(b"[]").split(b",")
        i = rng.randrange(len(parts) - 1)
        parts[i], parts[i + 1] = parts[i + 1], parts[i]
        data = b"[" + b",".join(parts) + b"]"
        w.fire("stored_entries_swapped")
    w.write_bytes(path, bytes(data))
    try:
        with open(path) as f:
            return np.array(json.load(f), dtype=float)
    except (ValueError, OSError):
        return None


def run(ctx, sc):
    from switss.certification import check_farkas_certificate
    m = sc["model"]
    with ctx.world() as w:
        form = Form(ctx, m, False)
        B = Bounds(form)
        done = []
        for k, o in enumerate(sc["ops"]):
            mode, sense = o["mode"], o["sense"]
            thr = form.threshold(o["thr"], mode)
            tol = 1e-8 if o["tol"] is None else o["tol"]
            rng = stream(sc["seed"], "vec", k)
            x = make(B, o, mode, sense, thr, tol, rng)
            if o["store"]:
                x = stored(w, x, o["store"], k, rng)
                if x is None:
                    ctx.note("lost")
                    continue
            kw = {} if o["tol"] is None else {"tol": tol}
            what = "check of %s (%s) for Pr%s %s %.9g (value %.9g, tol %g)" % (np.array2string(x, max_line_width=10000), o["vec"], mode, sense, thr, form.value(mode), tol)
            keep = x.copy()
            r = ctx.call(check_farkas_certificate, form.rf, mode, sense, thr, x, **kw)
            if x.tobytes() != keep.tobytes():
                ctx.violate("vector-changed", "%s changed the vector" % what)
            if x.shape != (B.dim(mode, sense),):
                if r.ok and r.value:
                    ctx.violate("accepted-bogus", "%s: wrong length accepted" % what)
                continue
            verdict = bool(must(ctx, r, what))
            done.append((o, thr, x, kw, verdict))
            finite = np.isfinite(x).all()
            mar = B.margin(mode, sense, thr)
            if verdict:
                if mar < -B.error(mode, sense, tol) * 1.5 - 1e-12:
                    ctx.violate("accepted-false", "%s: accepted, but the bound is wrong by %.3g" % (what, -mar))
            elif finite and (x >= 0).all() and B.fixed_ok(mode, sense, x) and B.violation(mode, sense, thr, x) < 0.5 * tol - 1e-12 * (1 + np.abs(x).max()):
                ctx.violate("rejected-proof", "%s: rejected, although all conditions hold up to %.3g" % (what, B.violation(mode, sense, thr, x)))
            ctx.note(o["vec"], mode, sense, verdict)
        for o, thr, x, kw, verdict in reversed(done):
            r = ctx.call(check_farkas_certificate, form.rf, o["mode"], o["sense"], thr, x, **kw)
            if bool(must(ctx, r, "repeated check")) != verdict:
                ctx.violate("verdict-changed", "the same check (%s %s %.9g) first said %s, later %s" % (o["mode"], o["sense"], thr, verdict, not verdict))
        check_unchanged(ctx, m, form.model)
        ctx.sig = ["c06", form.N, form.C, [(o["mode"], o["sense"], o["vec"], v) for o, _, _, _, v in done]]
        ctx.nontrivial = form.N > 1
