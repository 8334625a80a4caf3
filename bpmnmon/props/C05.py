"""C05: XML import is faithful whatever the lexical form."""
from .. import compare, objview, xmlmodel, xmlwork

RULE = ("Random supported documents are written in several random lexical renderings (namespace prefixes, attribute order "
        "and quoting, indentation, comments, processing instructions, CDATA, character references, extension elements, "
        "artifacts, byte-order marks and encodings, element order) and imported; the diagram object, read through its "
        "documented fields and queries, is compared with the abstract model for every rendering. A document is non-trivial "
        "with at least two nodes; distinct by node ids, kinds and flow ids.")
ASSUMPTIONS = ["the minidom parser of the standard library is correct",
               "at most one flow between two given nodes in one direction; only supported element kinds"]
COUNT = {"quick": 3500, "thorough": 170000}
MIN = {"cases": 200, "renderings_compared": 500, "nodes_compared": 2000, "flows_compared": 1500}
FIXED = xmlwork.with_stress


def examine(ctx, exp, path, where):
    g = xmlwork.load(ctx, path)
    got = objview.view(g)
    compare.everything(ctx, exp, got, where, cond_as_name=False)
    seq, msg = objview.tables(g)
    ctx.equal({i: (f["source"], f["target"], f["name"]) for i, f in exp["flows"].items()}, seq, where + ": flow table")
    ctx.equal({i: (f["source"], f["target"], f["name"]) for i, f in (exp["collab"] or {"msgflows": {}})["msgflows"].items()},
              msg, where + ": message flow table")
    C = objview.consts()
    ctx.equal(sorted(exp["nodes"]), sorted(n for n, d in g.get_nodes() if d[C.type] != C.participant),
              where + ": get_nodes")
    ctx.equal(len(exp["flows"]) + len(msg), len(list(g.get_flows())), where + ": number of get_flows")
    members(ctx, exp, g, where)
    ctx.count("renderings_compared")


def members(ctx, exp, g, where):
    """The documented lists of the flow nodes of each process and sub-process, in document order."""
    C = objview.consts()
    want = {i: [] for i in exp["processes"]}
    want.update({i: [] for i, n in exp["nodes"].items() if n["kind"] == "subProcess"})
    for i, n in exp["nodes"].items():
        want[n["container"]].append(i)
    for i, w in want.items():
        d = g.process_elements[i] if i in g.process_elements else g.diagram_graph.nodes[i]
        if d.get(C.node_ids) is not None:
            ctx.equal(w, list(d[C.node_ids]), "%s: flow nodes of %s" % (where, i))
            ctx.count("member_lists_compared")


def case(ctx, i, rng):
    m = xmlwork.gen(rng, rng.choice([None, "nodes", "flows", "containers", "di"])).model()
    for k in range(3):
        data = xmlmodel.write(m, xmlmodel.Lex(rng))
        exp = xmlwork.note(ctx, m, data)
        examine(ctx, exp, xmlwork.put(ctx, data), "rendering %d" % k)


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    path = xmlwork.resolve(ctx, path)
    examine(ctx, xmlwork.drop_foreign(xmlmodel.read(path)), path, "import")
