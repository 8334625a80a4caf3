"""C15: CSV import turns every row into exactly one element."""
import csv

from .. import core, csvmodel, csvwork, objview

RULE = ("Random well-formed process sheets (sequences, splits of 2 to 26 branches, nesting, gotos, terminations, hostile cell "
        "texts, padded order labels, two quoting styles and line endings) are imported; nodes are compared with the rows. "
        "Non-trivial: at least four rows; distinct by labels, gotos, conditions and marks.")
ASSUMPTIONS = ["well-formed sheets: a split follows an activity row and is followed by an activity or goto row or ends the "
               "sequence; activity names do not start with 'goto'"]
COUNT = {"quick": 17000, "thorough": 800000}
MIN = {"cases": 300, "nodes_compared": 2000, "gotos": 100}
FIXED = csvwork.corpus


def compare(ctx, nodes, g):
    kinds, names, edges = csvwork.flowgraph(g)
    got = {i: (k, names[i]) for i, k in kinds.items() if not csvwork.is_gateway(k)}
    ctx.check(set(nodes) == set(got), "rows %s have no node; nodes %s have no row", sorted(set(nodes) - set(got))[:5],
              sorted(set(got) - set(nodes))[:5])
    for i, (k, n) in nodes.items():
        ctx.equal(k, got[i][0], "kind of row %s" % i)
        ctx.equal(n, got[i][1], "name of row %s" % i)
    ctx.count("nodes_compared", len(nodes))
    # the only other nodes are gateways of the three kinds of a sheet
    for i, k in kinds.items():
        ctx.check(i in nodes or k in ("exclusiveGateway", "inclusiveGateway", "parallelGateway"), "unexpected node %s (%s)",
                  i, k)
    ctx.check(len(kinds) == len(set(kinds)), "node ids are not unique")
    # one process and nothing that belongs to another diagram
    C = objview.consts()
    ctx.check(len(g.process_elements) == 1, "a sheet became the processes %s", sorted(g.process_elements))
    ctx.equal([], sorted(i for i in kinds if g.diagram_graph.nodes[i].get(C.process) not in g.process_elements), "nodes outside the process of the sheet")
    ctx.check(not (g.collaboration or {}).get(C.participants) and not (g.collaboration or {}).get(C.message_flows),
              "a diagram imported from a sheet has pools or message flows: %s", core.short(g.collaboration))


def case(ctx, i, rng):
    sh = csvmodel.sheet(rng)
    t = sh.write(shuffle=rng.random() < 0.1)
    csvwork.note(ctx, sh, t)
    compare(ctx, sh.nodes, csvwork.load(ctx, csvwork.put(ctx, t)))


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    nodes = {}
    with open(path, encoding="utf-8", newline="") as f:
        for r in csv.DictReader(f):
            lab = r["Order"].strip()
            if (r["Activity"] or "").lower().startswith("goto"):
                continue
            k = "startEvent" if lab == "0" else "endEvent" if r["Terminated"] == "yes" else \
                "subProcess" if r["Subprocess"] == "yes" else "task"
            nodes[lab] = (k, r["Activity"])
    compare(ctx, nodes, csvwork.load(ctx, path))
