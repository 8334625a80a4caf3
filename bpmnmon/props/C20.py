"""C20: automatic layout terminates and gives every node its own place."""
from .. import laywork, xmlwork

RULE = ("Diagrams of ten families of topologies (chains, trees, in-trees, dense and layered DAGs, hubs, ladders, disjoint parts, with back "
        "edges, self-loops and two-way flows in half of the cases), block-structured processes, imported documents (half of them with pools) and sheets, all node "
        "kinds, nodes and flows added in any order, are laid out under a step budget - some extended by flows and nodes and laid out "
        "again, some on objects that held another diagram before -; all pairs of node boxes are checked. Non-trivial: "
        "at least two nodes; distinct by topology and order.")
ASSUMPTIONS = ["node boxes have the default size of 100 x 100",
               "termination is judged by a budget of 60 million executed lines after 30 s of CPU time"]
COUNT = {"quick": 12000, "thorough": 600000}
MIN = {"cases": 400, "layouts": 400, "pairs_checked": 20000, "cyclic": 100, "topology:block": 30, "topology:document": 30,
       "topology:sheet": 30, "flows_added_after_layout": 30, "nodes_added_after_layout": 30, "reused_objects": 30, "large_diagrams": 3, "with_pools": 60}


def oracle(ctx, g):
    pos = laywork.places(ctx, g)
    items = sorted(pos.items(), key=lambda t: t[1])
    for k, (i, (x, y)) in enumerate(items):
        for j, (u, v) in items[k + 1:]:
            ctx.counters["pairs_checked"] += 1
            if u - x >= laywork.SIZE:
                break
            ctx.check((x, y) != (u, v), "nodes %s and %s share position (%s, %s)", i, j, x, y)
            ctx.check(abs(v - y) >= laywork.SIZE, "boxes of nodes %s (%s, %s) and %s (%s, %s) overlap", i, x, y, j, u, v)


def case(ctx, i, rng):
    g = laywork.diagram(ctx, rng)
    if not laywork.acyclic(g):
        ctx.count("cyclic")
    laywork.layout(ctx, g)
    oracle(ctx, g)
    if rng.random() < 0.15:
        # the laid out diagram can be extended and laid out again
        laywork.more(ctx, rng, g)
        laywork.layout(ctx, g)
        oracle(ctx, g)


def FIXED():
    return laywork.LARGE + ["deep"] + xmlwork.corpus()


def fixed_case(ctx, path, rng):
    if path == "deep":
        # the placement of a split places its successors recursively (known finding)
        from bpmn_python import bpmn_diagram_layouter as lay
        g = laywork.large("splits", 1100)
        try:
            lay.generate_layout(g)
        except RecursionError:
            ctx.known("deep-recursion", "a chain of 1100 exclusive splits cannot be laid out (RecursionError)")
            return
        oracle(ctx, g)
        return
    if isinstance(path, tuple):
        g = laywork.large(*path)
        ctx.seen(path)
        laywork.layout(ctx, g)
        oracle(ctx, g)
        ctx.count("large_diagrams")
        return
    ctx.input("file", path)
    ctx.seen(path)
    g = xmlwork.load(ctx, path)
    laywork.layout(ctx, g)
    oracle(ctx, g)
