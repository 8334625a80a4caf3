"""C22: automatic layout changes nothing but positions and waypoints."""
import copy

from .. import core, laywork, objview, xmlwork

RULE = ("The diagrams of C20 are laid out; deep snapshots before and after, with node coordinates and flow waypoints left out, must be "
        "equal (order of nodes, flows and list entries included); a second layout must change nothing at all, and laying out a copy "
        "whose coordinates were scrambled must give the same result. Non-trivial: at least two nodes; distinct by topology and order.")
ASSUMPTIONS = []
COUNT = {"quick": 7000, "thorough": 350000}
MIN = {"cases": 300, "snapshots": 900, "cyclic": 80, "relayouts": 300, "flows_added_after_layout": 30, "nodes_added_after_layout": 30, "reused_objects": 30, "large_diagrams": 3, "with_pools": 60}


def strip(g):
    C = objview.consts()
    s = core.snapshot(g)

    def drop(fr, keys):
        return tuple(x for x in fr if not (isinstance(x, tuple) and len(x) == 2 and x[0] in keys))
    s["nodes"] = tuple((n, drop(d, (C.x, C.y))) for n, d in s["nodes"])
    s["edges"] = tuple((a, b, drop(d, (C.waypoints,))) for a, b, d in s["edges"])
    return s


def exercise(ctx, rng, g):
    C = objview.consts()
    before = strip(g)
    other = copy.deepcopy(g)
    laywork.layout(ctx, g)
    d = core.snapdiff(before, strip(g))
    ctx.check(d is None, "layout changed more than positions and waypoints: %s", d)
    first = core.snapshot(g)
    laywork.layout(ctx, g)
    d = core.snapdiff(first, core.snapshot(g))
    ctx.check(d is None, "a second layout changed the diagram: %s", d)
    ctx.count("relayouts")
    for _, n in other.diagram_graph.nodes(data=True):
        n[C.x], n[C.y] = str(rng.randint(-500, 500)), str(rng.randint(-500, 500))
    laywork.layout(ctx, other)
    pos = laywork.places(ctx, g)
    ctx.equal(pos, laywork.places(ctx, other), "positions of a copy whose old positions differ")
    ctx.count("snapshots", 4)


def case(ctx, i, rng):
    g = laywork.diagram(ctx, rng)
    if not laywork.acyclic(g):
        ctx.count("cyclic")
    exercise(ctx, rng, g)
    if rng.random() < 0.15:
        laywork.more(ctx, rng, g)
        exercise(ctx, rng, g)


def FIXED():
    return laywork.LARGE + xmlwork.corpus()


def fixed_case(ctx, path, rng):
    if isinstance(path, tuple):
        g = laywork.large(*path)
        ctx.seen(path)
        exercise(ctx, rng, g)
        ctx.count("large_diagrams")
        return
    ctx.input("file", path)
    ctx.seen(path)
    exercise(ctx, rng, xmlwork.load(ctx, path))
