"""C27: drawings show exactly the diagram."""
import collections
import os
import subprocess

from .. import core, dotparse, objview, ops, sources, text, xmlwork

RULE = ("Diagrams of every origin with hostile names and ids are drawn; the DOT file and the graph handed to graphviz for the PNG (taken "
        "at the call of the renderer) are read by an independent DOT reader and compared with the diagram node by node and flow by "
        "flow; a sample is also read and rendered by the real graphviz program. Non-trivial: at least two nodes; distinct by content.")
ASSUMPTIONS = ["what graphviz paints for a correct input graph is not examined"]
COUNT = {"quick": 2700, "thorough": 130000}
MIN = {"cases": 300, "drawings": 1000, "drawn_nodes": 5000, "drawn_flows": 2000, "graphviz_runs": 20, "real_png": 8,
       "tasks_as_box": 200, "exclusive_as_diamond": 100, "replaced_drawings": 100}
HOSTILE = ['"quoted"', "<b>", "<b", "b>", "graph", "node", "Edge", "strict", "x:y", "a\\", "\\", '"', '"a" and "b"', 'a\\"b', "a\\nb", "{a|b}",
           "//x", "/*x*/", "#c", "a -> b", "[x=y]", ";", "1.5", "1a", "-", "digraph { a }", "subgraph", "a%s", "\\N", "a]; b [", "'"]


def names(rng):
    return rng.choice(HOSTILE) if rng.random() < 0.4 else text.name(rng)


def shown(v, name, absent=False):
    """Does attribute value v show the text name?"""
    if name is None or name == "":
        return v in (None, "") or (name is None and absent)
    return v is not None and (v == name or dotparse.unescape(v) == name)


def flow_name(v, d):
    C = objview.consts()
    return shown(v, d.get(C.name))


def compare(ctx, g, src, what, png):
    C = objview.consts()
    try:
        p = dotparse.parse(src)
    except dotparse.DotError as ex:
        raise core.Violation("%s cannot be read as DOT: %s" % (what, ex))
    ctx.check(p.directed or not g.diagram_graph.number_of_edges(), "%s is not a directed graph", what)
    want = {str(i): d for i, d in g.diagram_graph.nodes(data=True)}
    have = {}
    for i, a in p.nodes.items():
        i = i if i in want else dotparse.unescape(i)
        ctx.check(i in want, "%s draws a node %r that the diagram does not have", what, i)
        ctx.check(i not in have, "%s draws node %r twice", what, i)
        have[i] = a
    for i, d in want.items():
        ctx.check(i in have, "%s lacks node %r", what, i)
        a = have[i]
        ctx.count("drawn_nodes")
        name = d.get(C.node_name)
        if png:
            v = a.get("label")
            ctx.check(name is None or (v is not None and shown(v, name)), "%s: label of node %s is %r, its name is %r", what, i, v, name)
            if d.get(C.type) == C.task:
                ctx.count("tasks_as_box")
                ctx.check(a.get("shape") in ("box", "rect", "rectangle"), "%s: task %s has shape %r", what, i, a.get("shape"))
            if d.get(C.type) == C.exclusive_gateway:
                ctx.count("exclusive_as_diamond")
                ctx.equal("diamond", a.get("shape"), "%s: shape of exclusive gateway %s" % (what, i))
        else:
            vs = [a.get(k) for k in (C.node_name, "label", C.name)]
            ctx.check(not name or any(shown(v, name) for v in vs), "%s: node %s carries %r, its name is %r", what, i, vs, name)
            ctx.check(a.get(C.type) == d.get(C.type), "%s: kind of node %s is %r", what, i, a.get(C.type))
    flows = collections.Counter((str(a), str(b)) for a, b in g.diagram_graph.edges())
    got = collections.Counter()
    for a, b, at in p.edges:
        a, b = (a if a in want else dotparse.unescape(a)), (b if b in want else dotparse.unescape(b))
        got[(a, b)] += 1
        ctx.check((a, b) in flows, "%s draws a line %s -> %s that is no flow", what, a, b)
        d = g.diagram_graph[a][b] if g.diagram_graph.has_node(a) else {}
        vs = [at.get("label")] if png else [at.get(k) for k in (C.name, "label")]
        ctx.count("drawn_flows")
        ctx.check(any(flow_name(v, d) for v in vs) or d.get(C.name) is None, "%s: flow %s -> %s carries %r, its name is %r", what, a, b, vs,
                  d.get(C.name))
    ctx.equal(sorted(flows.items()), sorted(got.items()), "%s: lines drawn" % what)
    ctx.count("drawings")
    return p


PROG = ('N{printf("N%d:%s\\n", length($.name), $.name);} '
        'E{printf("E%d:%s%d:%s\\n", length($.tail.name), $.tail.name, length($.head.name), $.head.name);}')


def graphviz(ctx, g, src, p, what):
    """The real graphviz reads the drawing (without laying it out) and sees the same nodes and lines."""
    r = subprocess.run(["gvpr", PROG], input=src.encode("utf-8"), capture_output=True, timeout=60)
    ctx.check(r.returncode == 0 and b"rror" not in r.stderr, "%s is refused by graphviz: %s", what, r.stderr[:300])
    nodes, lines = sorted(p.nodes), []

    def item(n):
        b = n.encode("utf-8")
        return b"%d:%s" % (len(b), b)
    exp = sorted([b"N" + item(n) for n in nodes] + [b"E" + item(a) + item(b) for a, b, _ in p.edges])
    out, i, got = r.stdout, 0, []

    def read():
        nonlocal i
        j = out.index(b":", i)
        n = int(out[i:j])
        i = j + 1 + n
        return b"%d:%s" % (n, out[j + 1:i])
    while i < len(out):
        k = out[i:i + 1]
        i += 1
        got.append(k + (read() if k == b"N" else read() + read()))
        ctx.check(out[i:i + 1] == b"\n", "graphviz reader out of step")
        i += 1
    ctx.equal(exp, sorted(set(got) if p.strict else got), "%s: nodes and lines seen by graphviz" % what)
    ctx.count("graphviz_runs")


def draw(ctx, rng, g, real=False):
    from bpmn_python import bpmn_diagram_visualizer as vis
    d = ctx.dir()
    name = rng.choice(["diagram", "a.b", "with space", "x.dot", "y.png", "żółć", " lead", "trail ", "dot.", "a%b", "$x", "X"])
    if rng.random() < 0.3:
        # an older and mostly longer drawing of the same name is replaced
        with open(d + name + ".dot", "w") as f:
            f.write("digraph { old -> drawing }\n" * rng.choice([1, 40, 4000]))
        ctx.count("replaced_drawings")
    ctx.run("bpmn_diagram_to_dot_file", vis.bpmn_diagram_to_dot_file, g, d + name)
    ctx.equal([name + ".dot"], os.listdir(d), "files written by the DOT export")
    with open(d + name + ".dot", encoding="utf-8") as f:
        src = f.read()
    p = compare(ctx, g, src, "DOT file", False)
    d2 = ctx.dir()
    tap = ops.PngTap()
    if rng.random() < 0.3:
        with open(d2 + name + ".png", "wb") as f:
            f.write(b"old picture\n" * rng.choice([1, 40, 4000]))
    try:
        ctx.run("bpmn_diagram_to_png", vis.bpmn_diagram_to_png, g, d2 + name)
    finally:
        tap.close()
    ctx.equal([name + ".png"], os.listdir(d2), "files written by the PNG export")
    ctx.check(len(tap.graphs) == 1 and tap.graphs[0][0] == "png", "renderer calls: %s", [x[0] for x in tap.graphs])
    with open(d2 + name + ".png", "rb") as f:
        b = f.read()
        ctx.check(b.startswith(b"\x89PNG-STUB") and b"old picture" not in b, "the PNG file is not what the renderer returned")
    q = compare(ctx, g, tap.graphs[0][1], "PNG graph", True)
    if real and len(g.diagram_graph):
        graphviz(ctx, g, src, p, "DOT file")
        graphviz(ctx, g, tap.graphs[0][1], q, "PNG graph")
    if real and len(g.diagram_graph) <= 12 and len(src) < 12000:
        d3 = ctx.dir()
        ctx.run("bpmn_diagram_to_png", vis.bpmn_diagram_to_png, g, d3 + name)
        ctx.equal([name + ".png"], os.listdir(d3), "files written by the PNG export")
        with open(d3 + name + ".png", "rb") as f:
            b = f.read()
        ctx.check(b.startswith(b"\x89PNG\r\n\x1a\n") and b.rstrip().endswith(b"IEND\xaeB`\x82"), "not a complete PNG file")
        ctx.count("real_png")


def case(ctx, i, rng):
    r = rng.random()
    if r < 0.5:
        b = sources.built(ctx, rng, names=lambda: names(rng))
        b2 = {}
        if rng.random() < 0.5:
            # further nodes with hostile ids
            cs = list(b.sh.processes)
            for h in rng.sample(HOSTILE, 4):
                if h in b.sh.ids:
                    continue
                b.sh.ids.add(h)
                n, _ = ctx.run("add_task_to_diagram", b.g.add_task_to_diagram, rng.choice(cs), names(rng), h)
                b2[h] = n
            hs = list(b2)
            for _ in range(4):
                a, c = rng.choice(hs), rng.choice(hs)
                if not b.g.diagram_graph.has_edge(a, c):
                    ctx.run("add_sequence_flow_to_diagram", b.g.add_sequence_flow_to_diagram, cs[0], a, c, names(rng))
            ctx.count("hostile_ids")
        g = b.g
        ctx.seen((b.fingerprint(), sorted(b2)), len(g.diagram_graph) > 1)
        ctx.sample({"nodes": [(n, d.get("node_name")) for n, d in list(g.diagram_graph.nodes(data=True))[:8]]})
    else:
        g, _ = sources.any_diagram(ctx, rng)
    ctx.input("diagram", {"nodes": [[n, d.get("type"), d.get("node_name")] for n, d in g.diagram_graph.nodes(data=True)],
                          "flows": [[a, b, d.get("name")] for a, b, d in g.diagram_graph.edges(data=True)]})
    draw(ctx, rng, g, real=i % 25 == 3)


def FIXED():
    return xmlwork.corpus()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    draw(ctx, rng, xmlwork.load(ctx, path), real=True)
