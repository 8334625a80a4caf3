"""Diagrams of every origin: built through the API, imported from XML or CSV, imported and then extended."""
from . import build, csvmodel, csvwork, objview, xmlmodel, xmlwork


def built(ctx, rng, size=None, **kw):
    b = build.Builder(ctx, rng, **kw).start()
    b.history(size if size is not None else rng.choice([3, 8, 15, 30]))
    ctx.count("origin:api")
    return b


def from_xml(ctx, rng, focus=None, **kw):
    if kw:
        m = xmlmodel.Gen(rng, **kw).model()
        data = xmlmodel.write(m, xmlmodel.Lex())
    else:
        m, data = xmlwork.document(ctx, rng, focus, lex=0.1)
    ctx.input("document.bpmn", data.decode("utf-8", "replace"))
    p = xmlwork.put(ctx, data)
    ctx.count("origin:xml")
    return xmlwork.load(ctx, p), m, p


def from_csv(ctx, rng):
    sh = csvmodel.sheet(rng, size=rng.choice([4, 8, 15]))
    t = sh.write(plain=True)
    ctx.input("sheet.csv", t)
    p = csvwork.put(ctx, t)
    ctx.count("origin:csv")
    return csvwork.load(ctx, p), sh, p


def extend(ctx, rng, g, n=None):
    """Building calls on an imported diagram. Returns the number of calls made."""
    C = objview.consts()
    procs = list(g.process_elements)
    byc = {}
    for i, d in g.diagram_graph.nodes(data=True):
        if d.get(C.type) in xmlmodel.KINDS and d.get(C.type) != "dataObject":
            byc.setdefault(d[C.process], []).append(i)
    made = 0
    for _ in range(n if n is not None else rng.choice([1, 3, 6])):
        if rng.random() < 0.15:
            procs.append(ctx.run("add_process_to_diagram", g.add_process_to_diagram, "p"))
        p = rng.choice(procs)
        if rng.random() < 0.6 or not byc.get(p):
            f = rng.choice([g.add_task_to_diagram, g.add_exclusive_gateway_to_diagram, g.add_end_event_to_diagram,
                            g.add_start_event_to_diagram])
            i, _ = ctx.run(f.__name__, f, p, "added")
            byc.setdefault(p, []).append(i)
        else:
            a, b = rng.choice(byc[p]), rng.choice(byc[p])
            if not g.diagram_graph.has_edge(a, b):
                ctx.run("add_sequence_flow_to_diagram", g.add_sequence_flow_to_diagram, p, a, b, "f")
                if any(C.x not in g.diagram_graph.node[i] for i in (a, b)):
                    ctx.count("flows_of_unplaced_nodes")
        made += 1
    ctx.count("origin:extended")
    return made


def any_diagram(ctx, rng, collab=None):
    r = rng.random()
    if r < 0.4:
        b = built(ctx, rng)
        g, what = b.g, ("api", b.fingerprint())
        n = len(b.sh.nodes)
    elif r < 0.8:
        g, m, _ = from_xml(ctx, rng) if collab is None else from_xml(ctx, rng, collab=collab)
        n = len(g.diagram_graph)
        what = ("xml", tuple(g.diagram_graph.nodes()))
    else:
        g, sh, _ = from_csv(ctx, rng)
        n = len(g.diagram_graph)
        what = ("csv", sh.fingerprint())
    if rng.random() < 0.3:
        extend(ctx, rng, g)
    ctx.seen((what, g.diagram_graph.number_of_edges()), n >= 2)
    ctx.sample({"origin": what[0], "nodes": list(map(str, g.diagram_graph.nodes()))[:15],
                "edges": [(a, b) for a, b in list(g.diagram_graph.edges())[:15]]})
    return g, what[0]
