"""C33: a diagram exported to XML and imported again is the same diagram."""
import xml.etree.ElementTree as ET

from .. import compare, core, csvmodel, csvwork, objview, sources, text, xmlmodel, xmlwork

RULE = ("Diagrams of every origin (building calls, XML import, process sheets of all shapes, the repository's example files of both "
        "formats) are taken through chains of up to three rounds of: some work on the object (building calls, automatic layout, new "
        "names and conditions, nothing), export to XML, import into another object. After each round a monitor compares the complete "
        "normal forms of the two objects: processes, lanes, pools, nodes with attributes, event definitions and flow lists, flows with "
        "ends, names and conditions, message flows, positions and waypoints, and the ids in the file for uniqueness. Non-trivial: at "
        "least two nodes; distinct by origin and content.")
ASSUMPTIONS = ["at most one flow between two given nodes in one direction", "a flow with a condition but no name may take the condition as its name"]
COUNT = {"quick": 7000, "thorough": 400000}
MIN = {"cases": 300, "origin:api": 100, "origin:xml": 100, "origin:csv": 100, "origin:extended": 60, "laid_out": 100, "rounds": 500,
       "nodes_compared": 5000, "flows_compared": 3000, "edges_compared": 1000, "conditions": 100, "edited": 60}


def unique(ctx, path):
    seen = {}
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as ex:
        raise core.Violation("exported file is not well-formed: %s" % ex)
    for e in root.iter():
        i = e.get("id")
        if i:
            ctx.check(i not in seen, "the exported file has the id %s twice (%s, %s)", i, seen.get(i), e.tag)
            seen[i] = e.tag


def work(ctx, rng, g):
    """Something a user does between two conversions."""
    from bpmn_python import bpmn_diagram_layouter as lay
    C = objview.consts()
    r = rng.random()
    if r < 0.3 and len(g.diagram_graph) <= 60:
        ctx.run("generate_layout", lay.generate_layout, g)
        ctx.count("laid_out")
    elif r < 0.5 and g.process_elements:
        sources.extend(ctx, rng, g)
    elif r < 0.6:
        for _, d in g.diagram_graph.nodes(data=True):
            if rng.random() < 0.3 and d.get(C.type) in xmlmodel.KINDS:
                d[C.node_name] = text.name(rng)
        for a, b, d in g.diagram_graph.edges(data=True):
            if C.process in d and rng.random() < 0.3:
                d[C.condition_expression] = {C.id: "cond_%s" % d[C.id], C.condition_expression: text.name(rng)}
        ctx.count("edited")


def view(g):
    """The object without the ids of message flows in the flow lists, which may or may not be listed there."""
    n = objview.view(g)
    msgs = compare.msgids(n)
    for d in n["nodes"].values():
        for k in ("incoming", "outgoing"):
            d[k] = [x for x in d[k] if x not in msgs]
    for sh in n["shapes"].values():
        for d in sh:
            for k in "wh":
                if d[k] is None:
                    d[k] = objview.dec("100")       # placed by automatic layout: default size
    return n


def rounds(ctx, rng, g):
    for k in range(rng.choice([1, 1, 2, 3])):
        work(ctx, rng, g)
        exp = view(g)
        ctx.count("conditions", sum(1 for f in exp["flows"].values() if f["cond"]))
        path = xmlwork.export(ctx, g)
        unique(ctx, path)
        h = xmlwork.load(ctx, path)
        compare.everything(ctx, exp, objview.view(h), "diagram imported from the exported file" + (" (round %d)" % (k + 1) if k else ""))
        seq = objview.tables(g)[0]
        compare.keys(ctx, seq, objview.tables(h)[0], "entry of the flow table")
        ctx.equal(sorted(map(repr, ((n, x, y) for n, (x, y) in g.get_nodes_positions().items() if n in exp["nodes"]))),
                  sorted(map(repr, ((n, x, y) for n, (x, y) in h.get_nodes_positions().items() if n in exp["nodes"]))), "node positions")
        ctx.count("rounds")
        g = h


def case(ctx, i, rng):
    if i % 3:
        g, _ = sources.any_diagram(ctx, rng)
    else:
        sh = csvmodel.sheet(rng, size=rng.choice([4, 8, 15, 30]))
        t = sh.write()
        ctx.input("sheet.csv", t)
        g = csvwork.load(ctx, csvwork.put(ctx, t))
        ctx.count("origin:csv")
        ctx.seen(("csv", sh.fingerprint()), len(g.diagram_graph) >= 2)
    rounds(ctx, rng, g)


def FIXED():
    return xmlwork.with_stress() + csvwork.corpus()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    if path.endswith(".csv"):
        g = csvwork.load(ctx, path)
    else:
        g = xmlwork.load(ctx, xmlwork.resolve(ctx, path))
    rounds(ctx, rng, g)
