"""C09: diagram-building calls add exactly what was asked for."""
from .. import build, compare, objview, sources

RULE = ("Random histories of building calls with every combination of arguments; after each call the difference between the "
        "diagram before and after must be exactly the requested element, and the whole diagram must equal the shadow model. "
        "Non-trivial: at least two nodes; distinct by call sequence and names.")
ASSUMPTIONS = ["explicit node ids are new", "at most one flow between two given nodes in one direction"]
COUNT = {"quick": 4500, "thorough": 240000}
MIN = {"cases": 200, "ops": 4000, "nodes_compared": 5000, "built:flow": 500, "built:start": 100, "built:gateway": 100}


MANY = {"quick": 80000, "thorough": 300000}


def FIXED():
    return list(range(8))


def fixed_case(ctx, k, rng):
    """Very many generated ids: all different, and all nodes there."""
    g = objview.new()
    g.create_new_diagram_graph("many")
    ids = set()

    def new(i, what):
        ctx.check(i not in ids, "generated id %r of a %s has been used before", i, what)
        ids.add(i)
    p = ctx.run("add_process_to_diagram", g.add_process_to_diagram, "p")
    new(p, "process")
    n, prev, flows = MANY[ctx.tier], None, 0
    for j in range(n):
        c = j % 40
        if c == 0:
            p = g.add_process_to_diagram("p")
            new(p, "process")
        if c == 7:
            i, _ = g.add_exclusive_gateway_to_diagram(p, "x")
        elif c == 13:
            i, _ = g.add_subprocess_to_diagram(p, "x")
        else:
            i, _ = g.add_task_to_diagram(p, "x")
        new(i, "node")
        if prev is not None and c % 2 == 1:
            f, _ = g.add_sequence_flow_to_diagram(p, prev, i, "f")
            new(f, "flow")
            flows += 1
        prev = i
    ctx.equal(n, len(g.diagram_graph), "number of nodes")
    ctx.equal(flows, len(g.sequence_flows), "number of flows in the table")
    ctx.equal(flows, g.diagram_graph.number_of_edges(), "number of edges")
    ctx.count("generated_ids", len(ids))
    ctx.seen(("many", k))


def whole(ctx, b):
    exp, got = b.sh.norm(), objview.view(b.g)
    compare.nodes(ctx, exp, got, "diagram")
    for i, n in exp["nodes"].items():
        ctx.equal(n["name"], got["nodes"][i]["name"], "name of node %s" % i)
    compare.flows(ctx, exp, got, "diagram", cond_as_name=False)
    compare.containers(ctx, exp, got, "diagram")
    for i, n in exp["nodes"].items():
        if n["kind"] == "subProcess" and i in b.sh.shapes:
            ctx.equal(b.sh.shapes[i][0]["isExpanded"], got["shapes"][i][0]["isExpanded"], "isExpanded of %s" % i)
    ctx.equal(b.sh.diagram_name, got["diagram"]["name"], "name of the diagram")
    ctx.equal(list(exp["nodes"]), list(got["nodes"]), "order of nodes")
    ctx.equal(list(exp["flows"]), list(b.g.sequence_flows), "order of the flow table")


def case(ctx, i, rng):
    r, g = rng.random(), None
    if r < 0.25:
        g, _ = sources.any_diagram(ctx, rng)
    b = build.Builder(ctx, rng, g=g, strict=True, explicit=rng.choice([0, 0.4, 1]))
    if g is not None and b.g.process_elements and rng.random() < 0.6:
        b.adopt()
        ctx.count("histories_on_imported_diagrams")
    else:
        b.start()
        if g is not None:
            ctx.count("new_diagrams_on_used_objects")
    n = rng.choice([4, 10, 20])
    b.history(n // 2, p_new=0.02)
    whole(ctx, b)
    b.history(n - n // 2, p_new=0.02)
    whole(ctx, b)
    ctx.seen(b.fingerprint(), len(b.sh.nodes) >= 2)
    ctx.sample(b.describe())
