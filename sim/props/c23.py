"""Interrupted requests: the users of C11, with Ctrl-C or a failing allocation at any source line or child process event of
a request. Afterwards everybody goes on with the same objects."""
import c11
from minim import *
from c11 import valid, shrinks, run


def gen(rng, i, tier):
    sc = c11.gen(rng, i, tier)
    one = rng.random() < 0.7
    if one:
        sc["users"] = sc["users"][:1]
    if rng.random() < 0.7:
        sc["faults"] = []
    ls = [l for l in sc["model"]["labels"] if l.startswith("l")]
    for ops in sc["users"]:
        if rng.random() < 0.6:          # the same request again, or others, after the one that was interrupted
            ops.append(dict(rng.choice(ops)))
        while len(ops) < (4 if one else 2):
            ops.append(c11.gen_op(rng, sc["model"], sc["rewards"], ls, [dict(gen_method(rng, exact=False), solver="cbc")]))
    if rng.random() < 0.2:              # a lazily built part, stopped anywhere while it is built, and asked for again
        part = rng.choice(("subsys", "subsys", "subsys", "fark", "labels", "query"))
        while part == "subsys" and not sc["rewards"] and rng.random() < 0.9:
            sc = c11.gen(rng, i, tier)
        ls = [l for l in sc["model"]["labels"] if l.startswith("l")]
        o = None
        while o is None or o["op"] != part:
            o = c11.gen_op(rng, sc["model"], sc["rewards"], ls, [dict(gen_method(rng, exact=False), solver="cbc")])
        sc["users"] = [[o, dict(o)]]
        sc["faults"] = []
        sc["stops"] = [[0, 0, rng.randrange(rng.choice((200, 600, 1200, 2000))), rng.choice(("interrupt", "memory"))]]
        return sc
    stops = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        u = rng.randrange(len(sc["users"]))
        k = 0 if rng.random() < 0.4 else rng.randrange(len(sc["users"][u]))
        stops.append([u, k, int(10 ** rng.uniform(0, rng.choice((1.0, 2.0, 3.0)))) - 1, rng.choice(("interrupt", "memory"))])
    sc["stops"] = stops
    return sc
