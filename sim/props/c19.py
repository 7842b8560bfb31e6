import os
import models, dot
from common import *
from minim import *
from rng import stream

LABELS = ("l0", "two words", "a=b", "x;y", "{q}", "ü", "->")


def gen(rng, i, tier):
    rewards = rng.random() < 0.2
    m = models.gen(rng, n=rng.randint(2, 8), rewards=rewards, proper_target=rewards, extra_labels=0, steps=1e6 if not rewards else 40.0)
    for l in rng.sample(LABELS, rng.randint(0, 3)):
        m["labels"][l] = sorted(s for s in range(m["n"]) if rng.random() < rng.choice((0.3, 0.6)))
    ops = []
    for _ in range(rng.randint(1, 6)):
        o = {"op": rng.choice(("model", "model", "form", "form", "sub", "sub", "sub", "style")), "render": rng.random() < 0.5, "maps": rng.choice((None, None, None, "state", "trans", "action", "all"))}
        if o["op"] == "sub":
            o["mode"], o["weights"], o["small"] = rng.choice(("min", "max")), rng.choice((True, True, False)), rng.random() < 0.2
            o["cert"], o["init"], o["again"] = rng.getrandbits(40), rng.random() < 0.9, rng.random() < 0.2
            subs = [p for p in ops if p["op"] == "sub"]
            if subs and rng.random() < 0.4:       # the same Subsystem once more, perhaps with other arguments
                o.update((k, subs[-1][k]) for k in ("mode", "cert", "init"))
        if o["op"] == "style":
            o["of"], o["tag"] = rng.choice(("target", "fail")), "style%d" % rng.randrange(3)
        o["spoil"] = rng.random() < 0.3           # the caller adds to the graph he was given
        ops.append(o)
    renders = sum(o["render"] for o in ops)
    fs = []
    if renders and rng.random() < 0.6:
        for _ in range(rng.choice((1, 1, 2))):
            r = rng.random()
            if r < 0.5:
                k = rng.choice(("exit", "signal", "missing", "noexec", "eagain"))
                f = {"at": ["spawn", rng.randrange(renders)], "kind": k}
                if k in ("exit", "signal"):
                    f["code"] = rng.choice((1, 2)) if k == "exit" else -rng.choice((6, 9, 11))
                    f["left"] = rng.choice((None, 0.0, 0.5))
                fs.append(f)
            elif r < 0.75:
                fs.append(disk_fault(rng, renders))
            else:
                fs.append(crash_fault(rng, renders))
    if rng.random() < 0.2:
        fs.append({"at": ["usermap", int(40 ** rng.random()) - 1], "kind": "raise"})
    if rng.random() < 0.2:
        fs.append(line_fault(rng, 150 * len(ops)))
    return {"model": m, "rewards": rewards, "config": rng.choice((None, None, "user")), "ops": ops, "faults": fs}


def valid(sc):
    return bool(sc["ops"])


def run(ctx, sc):
    from switss.model import DTMC, MDP, ReachabilityForm, RewardReachabilityForm
    from switss.problem import Subsystem
    from switss.utils import VisualizationConfig, DTMCVisualizationConfig
    m = sc["model"]
    mdp = m["kind"] == "mdp"
    stats = []
    with ctx.world() as w:
        dot.install_dot(w)
        calls = []

        # what a user's own functions are asked, and their answers, which are never the same twice
        def answer(kind, *args):
            calls.append((kind,) + args)
            k, f = w.site("usermap")
            if f is not None:
                w.fire("users_function_raises", k)
                raise ArithmeticError("injected")
            return "%s%s" % (kind, "_".join(map(str, args)))

        def smap(s, labels):
            return {"label": "mine:" + answer("s", s, tuple(sorted(labels))), "color": "red"}

        def tmap(*a):
            return {"label": "mine:" + answer("t", *(list(a[:-1]) + [repr(float(a[-1]))]))}

        def amap(s, a, labels):
            return {"node": {"label": "mine:" + answer("a", s, a, tuple(sorted(labels))), "shape": "box"}, "edge": {"dir": "none"}}
        real = models.build(m)
        if sc["config"]:
            real.visualization = DTMCVisualizationConfig(state_map=smap, trans_map=tmap) if not mdp else VisualizationConfig(state_map=smap, trans_map=tmap, action_map=amap)
        form = Form(ctx, m, sc["rewards"], model=real)
        system = form.rf.system
        N, C = form.N, form.C
        back = {j: s for s, j in form.cols.items()}
        rback = {tuple(v): tuple(k) for k, v in dict(form.rows).items()}
        style = {"target": None, "fail": None}
        P = {(s, a): dict(tr) for s, a, tr in m["choices"]}
        slabels = lambda s: tuple(sorted(l for l, ss in m["labels"].items() if s in ss))
        alabels = lambda s, a: tuple(sorted(l for l, ps in m["alabels"].items() if [s, a] in [list(x) for x in ps])) if mdp else ()
        def sname(s):
            return ("State %d" % s, slabels(s))

        def label_of(node):
            return node.get("label", "").replace("\\n", "\n")

        def text(*lines):
            return "\n".join(lines)

        def want_state(s, maps, own):
            """Check of a state's text: own=True if the map passed to digraph is asked"""
            if maps or own:
                return ["mine:s%d_%s" % (s, slabels(s))]
            return None

        def check_state(what, node, s, user):
            got = label_of(node)
            if user:
                want = "mine:s%d_%s" % (s, slabels(s))
                if got != want:
                    ctx.violate("wrong-picture", "%s: state %d is shown as %r, the user's map said %r" % (what, s, got, want))
                return
            lines = got.split("\n", 1)
            if lines[0] != "State %d" % s or tuple(sorted(x for x in (lines[1] if len(lines) > 1 else "").split(",") if x)) != slabels(s):
                ctx.violate("wrong-picture", "%s: state %d with labels %s is shown as %r" % (what, s, slabels(s), got))

        def structure(what, graph, sysm):
            nodes, edges = graph
            want_nodes, want = set(), {}
            for (i, d), p in sysm.P.items():
                s, a = sysm.index_by_state_action.inv[i]
                src = "%s-%s" % (s, a) if mdp else str(s)
                want_nodes |= {str(s), str(d), src}
                want[(src, str(d))] = (s, a, d, p)
                if mdp:
                    want[(str(s), src)] = None
            if set(nodes) != want_nodes or sorted((a, b) for a, b, _ in edges) != sorted(want):
                ctx.violate("wrong-picture", "%s: nodes %s edges %s, expected %s %s" % (what, sorted(nodes), sorted((a, b) for a, b, _ in edges), sorted(want_nodes), sorted(want)))
            return nodes, [(want[(a, b)], d) for a, b, d in edges if want[(a, b)] is not None]

        def prob(what, s, a, d, p, attrs, user, sep):
            got = attrs.get("label", "")
            if user:
                args = [s, a, d] if mdp else [s, d]
                want = "mine:t%s_" % "_".join(map(str, args))
                ok = got.startswith(want)
                num = got[len(want):]
            else:
                ok, num = True, got
            try:
                ok = ok and abs(float(num) - p) < 1e-9
            except ValueError:
                ok = False
            if not ok:
                ctx.violate("wrong-picture", "%s: transition %s-%s->%s with probability %.12g is shown as %r" % (what, s, a, d, p, got))

        def act_text(what, node, s, a, user):
            got = label_of(node)
            if user:
                want = "mine:a%d_%d_%s" % (s, a, alabels(s, a))
                if got != want:
                    ctx.violate("wrong-picture", "%s: action %s of state %s is shown as %r, the user's map said %r" % (what, a, s, got, want))
                return
            lines = got.split("\n", 1)
            rest = lines[1] if len(lines) > 1 else ""
            if lines[0] != str(a) or len(rest) != sum(map(len, alabels(s, a))) or not all(l in rest for l in alabels(s, a)):
                ctx.violate("wrong-picture", "%s: action %s of state %s with labels %s is shown as %r" % (what, a, s, alabels(s, a), got))

        def read(what, dg):
            try:
                return dot.parse(dg.source)
            except dot.BadDot as e:
                ctx.violate("broken-picture", "%s: %s in %s" % (what, e, dg.source))

        def drawn(what, fn, **kw):
            """The picture, or None if its making was cut short."""
            f0 = fired(w)
            r = stopped(ctx, w, fn, **kw)
            if not r.ok and fired(w) > f0:
                stats.append("cut")
                return None
            return must(ctx, r, what)

        def rendered(what, dg, name):
            f0 = fired(w)
            dg.format = "svg"
            path = os.path.join(w.scratch, name)
            r = crashable(ctx, w, dg.render, path, cleanup=True)
            faulty = fired(w) > f0 or w.enospc_on
            w.enospc_on = False
            if r is None:
                return
            if not r.ok:
                if not faulty:
                    must(ctx, r, what + " render")
                return
            f = ctx.call(w.read_bytes, path + ".svg")
            if not f.ok or f.value != dot.picture(dg.source.encode()) and f.value != dot.picture(w.dots[-1]["text"]):
                ctx.violate("wrong-picture", "%s: render succeeded, but the file holds %r" % (what, f))
            stats.append("rendered")

        def special(what, nodes, which, idx):
            """target and fail states of a form"""
            node = nodes.get(str(idx))
            if node is None:
                return
            tag = style[which]
            label = tag or (form.rf.target_label if which == "target" else form.rf.fail_label)
            color = "blue" if tag else ("green" if which == "target" else "red")
            if label_of(node) != label or node.get("color") != color:
                ctx.violate("wrong-picture", "%s: the %s state is shown as %s, expected %r in %s" % (what, which, node, label, color))

        kept = {}

        def do(k, o):
            what = "picture %d (%s)" % (k, o)
            if o["op"] == "style":
                if sc["rewards"]:
                    return
                sm = lambda s, ls: {"label": o["tag"], "color": "blue"}
                st = DTMCVisualizationConfig(state_map=sm) if not mdp else VisualizationConfig(state_map=sm, action_map=lambda s, a, ls: {"node": {"shape": "point"}, "edge": {"dir": "none"}})
                must(ctx, ctx.call(form.rf.set_target_visualization_style if o["of"] == "target" else form.rf.set_fail_visualization_style, st), what)
                style[o["of"]] = o["tag"]
                stats.append("style")
                return
            user = bool(sc["config"])
            if o["op"] in ("model", "form"):
                sysm = real if o["op"] == "model" else system
                kw = {}
                if o["maps"] in ("state", "all"):
                    kw["state_map"] = smap
                if o["maps"] in ("trans", "all"):
                    kw["trans_map"] = tmap
                if o["maps"] in ("action", "all") and mdp:
                    kw["action_map"] = amap
                if o["op"] == "form" and kw:
                    kw = {}         # maps passed here get the form's own numbers: covered by the model's pictures
                dg = drawn(what, sysm.digraph, **kw)
                if dg is None:
                    return
                nodes, edges = structure(what, read(what, dg), sysm)
                model = o["op"] == "model"
                for s in range(sysm.N):
                    if str(s) not in nodes or not model and s >= N:
                        continue
                    check_state(what, nodes[str(s)], s if model else back[s], user or "state_map" in kw)
                if not model:
                    special(what, nodes, "target", N)
                    special(what, nodes, "fail", N + 1)
                for (s, a, d, p), attrs in edges:
                    if model:
                        prob(what, s, a, d, p, attrs, user or "trans_map" in kw, "")
                    elif d < N and s < N:
                        s2, a2 = rback[(s, a)]
                        prob(what, s2, a2, back[d], p, attrs, user, "")
                    else:
                        prob(what, s, a, d, p, attrs, False, "")
                if mdp:
                    for (s, a) in dict(sysm.index_by_state_action):
                        if model:
                            act_text(what, nodes["%s-%s" % (s, a)], s, a, user or "action_map" in kw)
                        elif s < N:
                            act_text(what, nodes["%s-%s" % (s, a)], *(rback[(s, a)] + (user,)))
                stats.append(o["op"])
            else:
                rng = stream(o["cert"], "cert")
                n = N if o["mode"] == "min" else C
                cert = np.array([rng.choice((0.0, 1e-7, 0.25, 1.0, round(rng.random(), 5), 7.5)) for _ in range(n)])
                if o["init"]:
                    if o["mode"] == "min":
                        cert[form.sys.init] = 0.5
                    else:
                        cert[[i for (s, a), i in dict(system.index_by_state_action).items() if s == form.sys.init]] = 0.5
                key = (o["mode"], o["cert"], o["init"])
                if key not in kept:
                    kept[key] = must(ctx, ctx.call(Subsystem, form.rf, cert, o["mode"], ignore_consistency_checks=True), what)
                ss = kept[key]
                dg = drawn(what, ss.digraph, show_weights=o["weights"], small=o["small"])
                if dg is None:
                    dg = drawn(what + " again", ss.digraph, show_weights=o["weights"], small=o["small"])
                if dg is None:
                    return
                if o["again"]:
                    dg2 = drawn(what + " again", ss.digraph, show_weights=o["weights"], small=o["small"])
                    if dg2 is not None and dg2.source != dg.source:
                        ctx.violate("wrong-picture", "%s: the second picture differs: %s, %s" % (what, dg.source, dg2.source))
                nodes, edges = structure(what, read(what, dg), system)
                mask = mask_of(form, o["mode"], cert)
                idx = dict(system.index_by_state_action)

                def weight(node, base, want, where):
                    """the text ends with the certificate's value"""
                    t = label_of(node)
                    tail = t.rsplit("\n", 1)[-1]
                    ok = tail.startswith("c[") and tail.endswith("]=%.5f" % want)
                    if not ok:
                        ctx.violate("wrong-picture", "%s: %s has weight %.5f and is shown as %r" % (what, where, want, t))
                    return {**node, "label": t[:-len(tail)].rstrip("\n")}
                for s in range(N):
                    node = nodes.get(str(s))
                    if node is None:
                        continue
                    if not mask[s]:
                        if label_of(node) != "":
                            ctx.violate("wrong-picture", "%s: state %d is not in the subsystem and shown as %s" % (what, s, node))
                        continue
                    if o["weights"] and (o["mode"] == "min" or not mdp):
                        node = weight(node, None, cert[s] if o["mode"] == "min" else cert[idx[(s, 0)]], "state %d" % s)
                    check_state(what, node, back[s], user)
                grey = {nodes[str(s)].get("color") for s in range(N) if str(s) in nodes and not mask[s]}
                inside = {nodes[str(s)].get("color") for s in range(N) if str(s) in nodes and mask[s]} if user else set()
                if len(grey) > 1 or grey & inside:
                    ctx.violate("wrong-picture", "%s: colours outside %s, inside %s" % (what, grey, inside))
                special(what, nodes, "target", N)
                special(what, nodes, "fail", N + 1)
                if mdp:
                    for (s, a), i in idx.items():
                        if s >= N:
                            continue
                        node = nodes["%s-%s" % (s, a)]
                        if mask[s] and o["weights"] and o["mode"] == "max":
                            node = weight(node, None, cert[i], "action %s of state %s" % (a, s))
                        act_text(what, node, *(rback[(s, a)] + (user,)))
                stats.append("sub")
            if o["render"]:
                rendered(what, dg, "pic%d" % k)
            if o.get("spoil"):
                dg.node("added by the caller")
        for k, o in enumerate(sc["ops"]):
            do(k, o)
        heal(w)
        for k, o in enumerate(sc["ops"]):
            do(k, dict(o, render=True))
        check_unchanged(ctx, m, real)
        ctx.sig = ["c19", m["kind"], form.N, form.C, bool(sc["config"]), [o["op"] for o in sc["ops"]], stats, sorted(w.fired)]
        ctx.nontrivial = "sub" in stats or "form" in stats
