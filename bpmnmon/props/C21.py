"""C21: automatic layout draws flows left to right between their end nodes."""
from .. import laywork, objview, xmlwork

RULE = ("The diagrams of C20 (two thirds of them acyclic) are laid out, some again after an extension; for every flow the positions of its end nodes, the number of its "
        "waypoints and the boxes its first and last waypoint lie in are checked. Non-trivial: at least two nodes; distinct by topology "
        "and order.")
ASSUMPTIONS = ["node boxes have the default size of 100 x 100"]
COUNT = {"quick": 22000, "thorough": 1000000}
MIN = {"cases": 400, "flows_checked": 4000, "acyclic": 200, "cyclic": 100, "flows_added_after_layout": 30, "nodes_added_after_layout": 30, "reused_objects": 30, "large_diagrams": 3, "with_pools": 60}


def oracle(ctx, g):
    C = objview.consts()
    pos = laywork.places(ctx, g)
    dag = laywork.acyclic(g)
    ctx.count("acyclic" if dag else "cyclic")
    for a, b, d in g.diagram_graph.edges(data=True):
        if dag:
            ctx.check(pos[b][0] > pos[a][0], "flow %s -> %s does not lead to the right (x %s -> %s)", a, b, pos[a][0],
                      pos[b][0])
        w = d.get(C.waypoints)
        ctx.check(w is not None and len(w) >= 2, "flow %s -> %s has waypoints %s", a, b, w)
        for k, (p, n) in enumerate(((w[0], a), (w[-1], b))):
            ctx.check(len(p) == 2, "waypoint %s of flow %s -> %s", p, a, b)
            x, y = (laywork.number(ctx, v, "waypoint of %s -> %s" % (a, b)) for v in p)
            ctx.check(pos[n][0] <= x <= pos[n][0] + laywork.SIZE and pos[n][1] <= y <= pos[n][1] + laywork.SIZE,
                      "%s waypoint (%s, %s) of flow %s -> %s is outside the box of %s at %s", "last" if k else "first", x, y,
                      a, b, n, pos[n])
        for p in w[1:-1]:
            for v in p:
                laywork.number(ctx, v, "waypoint of %s -> %s" % (a, b))
        ctx.count("flows_checked")


def case(ctx, i, rng):
    g = laywork.diagram(ctx, rng, rng.random() < 0.67)
    laywork.layout(ctx, g)
    oracle(ctx, g)
    if rng.random() < 0.15:
        laywork.more(ctx, rng, g)
        laywork.layout(ctx, g)
        oracle(ctx, g)
    if rng.random() < 0.1:
        got = xmlwork.read(ctx, xmlwork.export(ctx, g))
        C = objview.consts()
        for a, b, d in g.diagram_graph.edges(data=True):
            ctx.equal([[(objview.dec(x), objview.dec(y)) for x, y in d[C.waypoints]]],
                      [list(map(tuple, e)) for e in got["edges"].get(d[C.id], [])], "exported edge of %s -> %s" % (a, b))
            ctx.count("exported_edges")


def FIXED():
    return laywork.LARGE + xmlwork.corpus()


def fixed_case(ctx, path, rng):
    if isinstance(path, tuple):
        g = laywork.large(*path)
        ctx.seen(path)
        laywork.layout(ctx, g)
        oracle(ctx, g)
        ctx.count("large_diagrams")
        return
    ctx.input("file", path)
    ctx.seen(path)
    g = xmlwork.load(ctx, path)
    laywork.layout(ctx, g)
    oracle(ctx, g)
