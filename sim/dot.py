"""DOT text as the graphviz package writes it: a small reader, the `dot` stand-in, and what a picture of a model must show."""
import os, re
import hashlib
from programs import Outcome

TOK = re.compile(r'\s+|//[^\n]*|("(?:[^"\\]|\\.)*")|(->)|([A-Za-z_\x80-\uffff][\w\x80-\uffff]*|-?(?:\.\d+|\d+(?:\.\d*)?))|([{}\[\];=,])', re.S)


class BadDot(Exception):
    pass


def tokens(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise BadDot("cannot read %r" % text[pos:pos + 40])
        pos = m.end()
        if m.group(1) is not None:
            out.append(("id", re.sub(r'\\"', '"', m.group(1)[1:-1])))
        elif m.group(2):
            out.append(("->", None))
        elif m.group(3) is not None:
            out.append(("id", m.group(3)))
        elif m.group(4):
            out.append((m.group(4), None))
    return out


def parse(text):
    """-> (nodes {name: attributes}, edges [(from, to, attributes)])"""
    T, nodes, edges, i = tokens(text), {}, [], 0
    if len(T) < 3 or T[0] != ("id", "digraph"):
        raise BadDot("not a digraph")
    i = 1
    if T[i][0] == "id":
        i += 1
    if T[i][0] != "{":
        raise BadDot("no body")
    i += 1

    def attrs(i):
        d = {}
        while i < len(T) and T[i][0] == "[":
            i += 1
            while T[i][0] != "]":
                if T[i][0] in (",", ";"):
                    i += 1
                    continue
                if T[i][0] != "id" or T[i + 1][0] != "=" or T[i + 2][0] != "id":
                    raise BadDot("attributes")
                d[T[i][1]] = T[i + 2][1]
                i += 3
            i += 1
        return d, i
    try:
        while T[i][0] != "}":
            if T[i][0] == ";":
                i += 1
                continue
            if T[i][0] != "id":
                raise BadDot("statement %r" % (T[i],))
            a = T[i][1]
            i += 1
            if T[i][0] == "=":
                i += 2
                continue
            if T[i][0] == "->":
                b = T[i + 1][1]
                d, i = attrs(i + 2)
                edges.append((a, b, d))
                for x in (a, b):
                    nodes.setdefault(x, {})
                continue
            d, i = attrs(i)
            if a not in ("graph", "node", "edge"):
                nodes.setdefault(a, {}).update(d)
    except IndexError:
        raise BadDot("the text ends early")
    if i != len(T) - 1:
        raise BadDot("text after the end")
    return nodes, edges


def install_dot(world):
    world.dots = []
    world.programs["dot"] = dot


def picture(text):
    return b"<svg>" + hashlib.sha256(text).hexdigest().encode() + b"</svg>\n"


def dot(world, popen, argv, f):
    """dot -Kdot -Tsvg -O FILE (also -Tpdf/-Tpng, -o FILE)"""
    base = popen._cwd or os.getcwd()
    fmt, dest, name_out, files, i = None, None, False, [], 1
    while i < len(argv):
        a = argv[i]
        if a.startswith("-T"):
            fmt = a[2:].split(":")[0]
        elif a.startswith("-K"):
            if a[2:] not in ("dot", "neato", "fdp", "sfdp", "circo", "twopi"):
                return Outcome(exit=1, stderr=b"There is no layout engine support\n")
        elif a == "-O":
            name_out = True
        elif a.startswith("-o"):
            dest = a[2:] or argv[i + 1]
            i += 0 if a[2:] else 1
        elif a.startswith("-"):
            return Outcome(exit=1, stderr=b"Error: dot: option unrecognized\n")
        else:
            files.append(os.path.join(base, a))
        i += 1
    if len(files) != 1 or not os.path.isfile(files[0]):
        return Outcome(exit=2, stderr=b"Error: dot: can't open file\n")
    text = world.read_bytes(files[0])
    rec = {"text": text, "fmt": fmt}
    world.dots.append(rec)
    try:
        rec["graph"] = parse(text.decode())
    except (BadDot, UnicodeDecodeError) as e:
        rec["bad"] = str(e)
        return Outcome(exit=1, stderr=b"Error: syntax error\n")
    target = os.path.join(base, dest) if dest else files[0] + "." + fmt
    rec["target"] = target
    data, code, duration = picture(text), 0, 0.1
    if f is not None:
        k = f["kind"]
        if k == "stall":
            world.fire("dot_stalls")
            duration = None
        elif k in ("exit", "signal"):
            world.fire("dot_" + k)
            code = int(f["code"])
            data = data[:int(len(data) * f["left"])] if f.get("left") is not None else None
        else:
            world.fire("dot_killed")
            code, data = -9, None

    def effect():
        if data is not None:
            world.write_bytes(target, data)
    return Outcome(exit=code, duration=duration, effect=effect)


def same_text(a, b):
    """Attribute text up to the two spellings of a line break."""
    return a.replace("\\n", "\n") == b.replace("\\n", "\n")


def shows(graph, system, labels=True):
    """None if the picture shows exactly the system's states, actions, transitions and state labels, else what differs."""
    nodes, edges = graph
    inv = {i: sa for sa, i in dict(system.index_by_state_action).items()}
    mdp = type(system).__name__ == "MDP"
    want_nodes, want_edges = set(), {}
    for (i, d), p in system.P.items():
        s, a = inv[i]
        want_nodes |= {str(s), str(d)}
        src = str(s)
        if mdp:
            src = "%s-%s" % (s, a)
            want_nodes.add(src)
            want_edges[(str(s), src)] = None
        want_edges[(src, str(d))] = p
    if set(nodes) != want_nodes:
        return "nodes %s, expected %s" % (sorted(nodes), sorted(want_nodes))
    got = [(a, b) for a, b, _ in edges]
    if sorted(got) != sorted(want_edges):
        return "edges %s, expected %s" % (sorted(got), sorted(want_edges))
    for a, b, d in edges:
        p = want_edges[(a, b)]
        if p is not None:
            try:
                if abs(float(d.get("label", "")) - p) > 1e-9:
                    return "edge %s->%s shows %s, probability %.12g" % (a, b, d.get("label"), p)
            except ValueError:
                return "edge %s->%s shows %r" % (a, b, d.get("label"))
    if labels:
        for s in range(system.N):
            if str(s) not in nodes:
                continue
            lines = nodes[str(s)].get("label", "").replace("\\n", "\n").split("\n", 1)
            have = set(system.labels_by_state[s])
            if lines[0] != "State %d" % s or len(lines) < 2 or (set(lines[1].split(",")) if lines[1] else set()) != have:
                return "state %d is shown as %r, labels %s" % (s, nodes[str(s)].get("label"), sorted(have))
    return None
