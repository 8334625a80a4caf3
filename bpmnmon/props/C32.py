"""C32: the drawing on screen shows exactly the diagram."""
import collections
import collections.abc

from .. import core, objview, sources, text, xmlwork

RULE = ("Diagrams of every origin are shown with visualize_diagram under monitors on the drawing functions of networkx and on "
        "pyplot.show: the markers, labels and lines that reach the library are compared with the diagram; in a sample the real "
        "library draws on an off-screen canvas, and the artists found there are compared. Non-trivial: at least two nodes; distinct "
        "by content.")
ASSUMPTIONS = ["the installed networkx needs two names that newer Python and matplotlib removed (collections.Iterable, "
               "cbook.iterable); the check supplies them", "every node has a position"]
COUNT = {"quick": 4500, "thorough": 200000}
MIN = {"cases": 300, "views": 1000, "markers": 5000, "labels": 8000, "lines": 2000, "real_views": 60, "shapes:activity": 500,
       "shapes:gateway": 500, "shapes:event": 500, "second_views": 100}
SQUARE, DIAMOND, ROUND = ("task", "subProcess"), ("complexGateway", "inclusiveGateway", "exclusiveGateway", "parallelGateway"), \
    ("startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent")
DRAWN = SQUARE + DIAMOND + ROUND + ("eventBasedGateway",)


class Tap:
    """Persistent wrappers around the drawing functions, installed before the visualizer is imported."""

    def __init__(self):
        import os
        os.environ.setdefault("MPLBACKEND", "Agg")
        if not hasattr(collections, "Iterable"):
            collections.Iterable = collections.abc.Iterable
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.cbook as cb
        import matplotlib.pyplot as plt
        import networkx as nx
        import networkx.drawing.nx_pylab as pl
        import numpy as np
        if not hasattr(cb, "iterable"):
            cb.iterable = np.iterable
        self.plt, self.calls, self.real, self.where = plt, [], False, None
        for n, f in (("draw_networkx_nodes", self.nodes), ("draw_networkx_labels", self.labels),
                     ("draw_networkx_edges", self.edges), ("draw_networkx_edge_labels", self.edge_labels)):
            w = self.wrap(n, getattr(pl, n), f)
            setattr(pl, n, w)
            setattr(nx, n, w)
        plt.show = lambda *a, **k: self.show()

    def wrap(self, name, orig, rec):
        def wrapper(G, pos, *a, **k):
            a = [x if isinstance(x, (str, dict)) or not hasattr(x, "__next__") else list(x) for x in a]
            k = {n: list(x) if hasattr(x, "__next__") else x for n, x in k.items()}
            rec(G, dict(pos), *a, **k)
            if self.real:
                return orig(G, pos, *a, **k)
            return {} if "labels" in name else []
        return wrapper

    def nodes(self, G, pos, nodelist=None, node_size=300, node_color="r", node_shape="o", *a, **k):
        for n in (list(G) if nodelist is None else nodelist):
            self.calls.append(("marker", n, pos.get(n), node_shape))

    def labels(self, G, pos, labels=None, *a, **k):
        for n, t in ({n: n for n in G} if labels is None else labels).items():
            self.calls.append(("label", n, pos.get(n), t))

    def edges(self, G, pos, edgelist=None, *a, **k):
        for e in (list(G.edges()) if edgelist is None else edgelist):
            self.calls.append(("line", tuple(e)[:2], (pos.get(e[0]), pos.get(e[1])), None))

    def edge_labels(self, G, pos, edge_labels=None, label_pos=0.5, *a, **k):
        if edge_labels is None:
            edge_labels = {(u, v): d for u, v, d in G.edges(data=True)}
        for e, t in edge_labels.items():
            self.calls.append(("flow label", tuple(e), (pos.get(e[0]), pos.get(e[1])), t))

    def show(self):
        self.calls.append(("show", None, None, None))
        if self.real:
            f = self.plt.gcf()
            self.where = [(list(map(tuple, c.get_offsets())) if hasattr(c, "get_offsets") else []) for ax in f.axes for c in ax.collections], \
                [(t.get_text(), t.get_position()) for ax in f.axes for t in ax.texts]


def setup(ctx):
    ctx.tap = Tap()
    import bpmn_python.bpmn_diagram_visualizer  # noqa: F401


def same(v, name):
    return (v or "") == (name or "") or (name is None and v == "None")


def view(ctx, rng, g, real=False):
    from bpmn_python import bpmn_diagram_visualizer as vis
    C = objview.consts()
    nodes = {i: d for i, d in g.diagram_graph.nodes(data=True)}
    if any(C.x not in d or C.y not in d for d in nodes.values()):
        ctx.count("not_placed")
        return
    tap = ctx.tap
    tap.calls, tap.real, tap.where = [], real, None
    before = core.snapshot(g)
    try:
        ctx.run("visualize_diagram", vis.visualize_diagram, g)
    finally:
        tap.plt.close("all")
    d = core.snapdiff(before, core.snapshot(g))
    ctx.check(d is None, "visualize_diagram changed the diagram: %s", d)
    calls = tap.calls
    at = {i: (float(d[C.x]), float(d[C.y])) for i, d in nodes.items()}
    by = collections.defaultdict(list)
    for k, who, pos, what in calls:
        by[k].append((who, pos, what))
    ctx.equal(1, len(by["show"]), "number of views opened")
    ctx.check(calls[-1][0] == "show", "the view is opened before the drawing is complete: %s follows", calls[-1][0])
    # markers
    n = collections.Counter(w for w, _, _ in by["marker"])
    for i, d in nodes.items():
        if d.get(C.type) in DRAWN:
            ctx.check(n[i] == 1, "node %s (%s) is drawn %d times", i, d.get(C.type), n[i])
    for who, pos, shape in by["marker"]:
        ctx.check(who in nodes, "node %r is drawn, but is not in the diagram", who)
        ctx.check(pos is not None and tuple(map(float, pos)) == at[who], "node %s is drawn at %s, its position is %s", who, pos, at[who])
        k = nodes[who].get(C.type)
        for name, kinds, sh in (("activity", SQUARE, "s"), ("gateway", DIAMOND, "dD"), ("event", ROUND, "o")):
            if k in kinds:
                ctx.count("shapes:" + name)
                ctx.check(shape in sh, "%s %s is drawn with marker %r", k, who, shape)
        ctx.count("markers")
    # labels of nodes
    n = collections.Counter(w for w, _, _ in by["label"])
    for who, pos, what in by["label"]:
        ctx.check(who in nodes, "a label is drawn for %r, which is not in the diagram", who)
        ctx.check(pos is not None and tuple(map(float, pos)) == at[who], "the label of %s is drawn at %s, its position is %s", who, pos, at[who])
        ctx.check(same(what, nodes[who].get(C.node_name)), "label of node %s is %r, its name is %r", who, what, nodes[who].get(C.node_name))
        ctx.count("labels")
    for i, d in nodes.items():
        ctx.check(n[i] == 1 or (n[i] == 0 and not d.get(C.node_name)), "the label of node %s is drawn %d times", i, n[i])
    # lines
    flows = {(a, b): d for a, b, d in g.diagram_graph.edges(data=True)}
    n = collections.Counter(w for w, _, _ in by["line"])
    ctx.equal(sorted((list(map(str, e)), 1) for e in flows), sorted((list(map(str, e)), c) for e, c in n.items()), "lines drawn")
    for e, (p, q), _ in by["line"]:
        ctx.check(p is not None and q is not None and (tuple(map(float, p)), tuple(map(float, q))) == (at[e[0]], at[e[1]]),
                  "line %s is drawn from %s to %s", e, p, q)
        ctx.count("lines")
    n = collections.Counter(w for w, _, _ in by["flow label"])
    for e, (p, q), what in by["flow label"]:
        ctx.check(e in flows, "a label is drawn for %s, which is no flow", e)
        ctx.check(same(what, flows[e].get(C.name)), "label of flow %s is %r, its name is %r", e, what, flows[e].get(C.name))
        ctx.check(p is not None and q is not None and (tuple(map(float, p)), tuple(map(float, q))) == (at[e[0]], at[e[1]]),
                  "label of flow %s is drawn between %s and %s", e, p, q)
    for e, d in flows.items():
        ctx.check(n[e] == 1 or (n[e] == 0 and not d.get(C.name)), "the label of flow %s is drawn %d times", e, n[e])
    ctx.count("views")
    if real:
        offs, texts = tap.where
        flat = {o for c in offs for o in c}
        for i, d in nodes.items():
            if d.get(C.type) in DRAWN:
                ctx.check(any(abs(x - at[i][0]) < 1e-6 * (1 + abs(x)) and abs(y - at[i][1]) < 1e-6 * (1 + abs(y)) for x, y in flat),
                          "no marker on the canvas at %s for node %s", at[i], i)
        have = collections.Counter(t for t, _ in texts)
        want = collections.Counter([str(d[C.node_name]) for d in nodes.values() if d.get(C.node_name)] +
                                   [str(d[C.name]) for d in flows.values() if d.get(C.name)])
        for t, c in want.items():
            ctx.check(have[t] >= c, "the text %r is on the canvas %d times, %d elements have this name", t, have[t], c)
        ctx.count("real_views")


def place(ctx, rng, g):
    C = objview.consts()
    for i, d in g.diagram_graph.nodes(data=True):
        if C.x not in d or rng.random() < 0.8:
            d[C.x], d[C.y] = (rng.choice([str(rng.randint(-50, 900)), repr(rng.random() * 500), "0", "7.5", "1e3", "-0.25"]) for _ in "xy")
            d.setdefault(C.width, "100")
            d.setdefault(C.height, "80")


def case(ctx, i, rng):
    if rng.random() < 0.4:
        b = sources.built(ctx, rng, names=lambda: text.name(rng))
        g = b.g
        ctx.seen(b.fingerprint(), len(g.diagram_graph) > 1)
        ctx.sample({"nodes": [(n, d.get("node_name")) for n, d in list(g.diagram_graph.nodes(data=True))[:8]]})
    else:
        g, _ = sources.any_diagram(ctx, rng)
    if rng.random() < 0.75:
        place(ctx, rng, g)
    C = objview.consts()
    ctx.input("diagram", {"nodes": [[n, d.get("type"), d.get("node_name"), d.get(C.x), d.get(C.y)] for n, d in g.diagram_graph.nodes(data=True)],
                          "flows": [[a, b, d.get("name")] for a, b, d in g.diagram_graph.edges(data=True)]})
    view(ctx, rng, g, real=i % 40 == 3)
    if rng.random() < 0.2:
        # the same diagram is shown again, after further nodes were added
        sources.extend(ctx, rng, g)
        ctx.count("second_views")
        view(ctx, rng, g)


def FIXED():
    return xmlwork.corpus()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    view(ctx, rng, xmlwork.load(ctx, path), real=True)
