"""Workloads and oracles for automatic layout."""
from . import blockproc, core, csvwork, objview, sources, text, xmlmodel, xmlwork

SIZE = 100      # default width and height of a node


def shape(rng, acyclic):
    """(number of nodes, set of edges) of a random topology."""
    n = rng.choice([1, 2, 3, 5, 8, 12, 18]) if rng.random() < 0.95 else rng.randint(30, 70)
    kind = rng.choice(["chain", "tree", "dag", "layers", "dense", "hub", "parts", "intree", "ladder", "sparse"])
    e = set()
    if kind == "chain":
        e = {(i, i + 1) for i in range(n - 1)}
    elif kind == "tree":
        e = {(rng.randrange(max(0, i - 4), i), i) for i in range(1, n)}
    elif kind == "intree":
        e = {(i, rng.randrange(i + 1, min(n, i + 5))) for i in range(n - 1)}
    elif kind == "dag":
        for i in range(1, n):
            for j in rng.sample(range(i), min(i, rng.choice([1, 1, 2, 3]))):
                e.add((j, i))
    elif kind == "sparse":
        for _ in range(n):
            i, j = rng.randrange(n), rng.randrange(n)
            if i < j:
                e.add((i, j))
    elif kind == "layers":
        w = rng.randint(1, 4)
        for i in range(n):
            for j in range((i // w + 1) * w, min(n, (i // w + 2) * w)):
                if rng.random() < 0.6:
                    e.add((i, j))
    elif kind == "dense":
        n = min(n, 9)
        e = {(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < 0.7}
    elif kind == "hub":
        h = rng.randrange(n)
        e = {(h, i) for i in range(h + 1, n)} | {(i, h) for i in range(h)}
        if rng.random() < 0.5:
            e |= {(i, i + 1) for i in range(n - 1) if rng.random() < 0.4}
    elif kind == "ladder":
        e = {(i, i + d) for i in range(n) for d in (1, 2, 3) if i + d < n and rng.random() < 0.7}
    else:
        k = rng.randint(1, 4)
        e = {(i, i + k) for i in range(n - k)}
    if not acyclic:
        for _ in range(rng.choice([1, 1, 2, 4])):
            i, j = rng.randrange(n), rng.randrange(n)
            if i <= j:
                e.add((j, i))
            else:
                e.add((i, j))
            if rng.random() < 0.3:
                e.add((i, i))
            if rng.random() < 0.3 and n > 1:
                e.add((n - 1, 0))
    e = list(e)
    e.sort()
    if rng.random() < 0.7:
        rng.shuffle(e)
    return n, e, kind


ADD = [("add_task_to_diagram", "task"), ("add_task_to_diagram", "task"), ("add_subprocess_to_diagram", "subProcess"),
       ("add_start_event_to_diagram", "startEvent"), ("add_end_event_to_diagram", "endEvent"),
       ("add_exclusive_gateway_to_diagram", "exclusiveGateway"), ("add_inclusive_gateway_to_diagram", "inclusiveGateway"),
       ("add_parallel_gateway_to_diagram", "parallelGateway")]


def node(g, rng, p, i, cycle, perm):
    r = rng.random()
    nid = perm(i)
    if r < 0.75:
        return getattr(g, rng.choice(ADD)[0])(p, text.name(rng), node_id=nid)[0]
    if r < 0.9:
        return g.add_gateway_to_diagram(p, rng.choice(xmlmodel.GATEWAYS), text.name(rng), node_id=nid)[0]
    return g.add_flow_node_to_diagram(p, rng.choice(["userTask", "serviceTask", "manualTask"]), text.name(rng), nid)[0]


def graph(ctx, rng, acyclic):
    n, e, kind = shape(rng, acyclic)
    g = objview.obj(ctx)
    g.create_new_diagram_graph("layout")
    p = g.add_process_to_diagram("p")
    order = list(range(n))
    if rng.random() < 0.6:
        rng.shuffle(order)
    style = rng.choice([lambda i: None, lambda i: "n%d" % i, lambda i: str(i)])
    ids = {}
    for i in order:
        ids[i] = node(g, rng, p, i, not acyclic, style)
    for a, b in e:
        g.add_sequence_flow_to_diagram(p, ids[a], ids[b], text.name(rng) if rng.random() < 0.3 else "")
    ctx.count("topology:" + kind)
    ctx.seen((n, tuple(sorted(e)), tuple(order)), n >= 2)
    ctx.sample({"nodes": n, "topology": kind, "flows": sorted(e)[:25], "acyclic": acyclic})
    return g


def diagram(ctx, rng, acyclic=None):
    """A diagram to lay out, of any origin."""
    if acyclic is None:
        acyclic = rng.random() < 0.5
    r = rng.random()
    if r < 0.65:
        g = graph(ctx, rng, acyclic)
    elif r < 0.78:
        g = objview.obj(ctx)
        p = blockproc.process(rng, size=rng.choice([3, 8, 14]))
        p.build(g)
        ctx.seen(p.fingerprint())
        ctx.count("topology:block")
    elif r < 0.9:
        g, m, _ = sources.from_xml(ctx, rng, collab=rng.random() < 0.5, size=rng.choice([2, 5, 9]))
        ctx.seen(tuple(g.diagram_graph.nodes()), len(g.diagram_graph) > 1)
        ctx.count("topology:document")
        if g.collaboration:
            ctx.count("with_pools")
    else:
        g, sh, _ = sources.from_csv(ctx, rng)
        ctx.seen(sh.fingerprint())
        ctx.count("topology:sheet")
    ctx.input("diagram", {"nodes": [[i, d.get("type")] for i, d in g.diagram_graph.nodes(data=True)],
                          "flows": [[a, b] for a, b in g.diagram_graph.edges()]})
    return g


def layout(ctx, g):
    from bpmn_python import bpmn_diagram_layouter as lay
    ctx.run("generate_layout", lay.generate_layout, g)
    ctx.count("layouts")


def more(ctx, rng, g):
    """Extends a diagram that has been laid out by nodes, by flows between its nodes, or both; an acyclic one mostly stays acyclic."""
    import networkx as nx
    C = objview.consts()
    dag = acyclic(g)
    rank = {n: k for k, n in enumerate(nx.topological_sort(g.diagram_graph))} if dag else {}
    proc = {}
    for n, d in g.diagram_graph.nodes(data=True):
        proc.setdefault(d[C.process], []).append(n)
    how = rng.choice(["flows", "nodes", "both"])
    for _ in range(rng.choice([1, 1, 2, 4])):
        p = rng.choice(sorted(proc))
        a = rng.choice(proc[p])
        if how == "flows" or how == "both" and rng.random() < 0.5:
            b = rng.choice(proc[p])
            if dag and rng.random() < 0.85 and rank[a] > rank[b]:
                a, b = b, a
            if a == b and dag or g.diagram_graph.has_edge(a, b) or g.diagram_graph.nodes[a][C.type] == "dataObject" \
                    or g.diagram_graph.nodes[b][C.type] == "dataObject":
                continue
            ctx.run("add_sequence_flow_to_diagram", g.add_sequence_flow_to_diagram, p, a, b, "")
            ctx.count("flows_added_after_layout")
        else:
            f = rng.choice([g.add_task_to_diagram, g.add_exclusive_gateway_to_diagram, g.add_end_event_to_diagram])
            t, _ = ctx.run(f.__name__, f, p, "more")
            rank[t] = len(rank)
            if g.diagram_graph.nodes[a][C.type] != "dataObject" and rng.random() < 0.9:
                ctx.run("add_sequence_flow_to_diagram", g.add_sequence_flow_to_diagram, p, a, t)
            proc[p].append(t)
            ctx.count("nodes_added_after_layout")
    ctx.input("diagram extended", {"flows": [[a, b] for a, b in g.diagram_graph.edges()]})


def number(ctx, v, what):
    try:
        f = float(v)
    except (TypeError, ValueError):
        raise core.Violation("%s is %r, not a number" % (what, v))
    ctx.check(f == f and abs(f) != float("inf"), "%s is %r", what, v)
    return f


def places(ctx, g):
    C = objview.consts()
    pos = {}
    for i, d in g.diagram_graph.nodes(data=True):
        ctx.check(C.x in d and C.y in d, "node %s has no coordinates", i)
        pos[i] = (number(ctx, d[C.x], "x of %s" % i), number(ctx, d[C.y], "y of %s" % i))
    return pos


def acyclic(g):
    import networkx as nx
    return nx.is_directed_acyclic_graph(g.diagram_graph)


LARGE = [("chain", 700), ("splits", 150), ("star", 120)]


def large(what, n):
    """A diagram far larger than the random ones."""
    g = objview.new()
    g.create_new_diagram_graph("large")
    p = g.add_process_to_diagram("p")
    prev, _ = g.add_start_event_to_diagram(p, "s")
    if what == "star":
        gw, _ = g.add_exclusive_gateway_to_diagram(p, "split")
        jn, _ = g.add_exclusive_gateway_to_diagram(p, "join")
        g.add_sequence_flow_to_diagram(p, prev, gw, "")
        for k in range(n):
            t, _ = g.add_task_to_diagram(p, "t%d" % k)
            g.add_sequence_flow_to_diagram(p, gw, t, "")
            g.add_sequence_flow_to_diagram(p, t, jn, "")
        prev = jn
        n = 0
    for k in range(n):
        if what == "chain":
            x, _ = g.add_task_to_diagram(p, "t%d" % k)
        else:
            x, _ = g.add_exclusive_gateway_to_diagram(p, "x%d" % k)
            e, _ = g.add_end_event_to_diagram(p, "e%d" % k)
            g.add_sequence_flow_to_diagram(p, x, e, "")
        g.add_sequence_flow_to_diagram(p, prev, x, "")
        prev = x
    e, _ = g.add_end_event_to_diagram(p, "e")
    g.add_sequence_flow_to_diagram(p, prev, e, "")
    return g
