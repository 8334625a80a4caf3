"""The three representations of flows agree (property C08)."""
from . import objview


def check(ctx, g, when):
    C = objview.consts()
    gr = g.diagram_graph
    seq, msg = objview.tables(g)
    nodes = dict(gr.nodes(data=True))
    lists = {}
    for n, d in nodes.items():
        lists[n] = (list(d.get(C.incoming_flow) or []), list(d.get(C.outgoing_flow) or []))
    edges = {}
    for a, b, d in gr.edges(data=True):
        fid = d.get(C.id)
        ctx.check(fid is not None, "%s: edge %s -> %s has no id", when, a, b)
        ctx.check(fid not in edges, "%s: flow %s has two edges", when, fid)
        edges[fid] = (a, b)
        ctx.check((fid in seq) + (fid in msg) == 1, "%s: edge %s -> %s with id %s belongs to %d listed flows", when, a, b,
                  fid, (fid in seq) + (fid in msg))
        if C.source_ref in d or C.target_ref in d:
            ctx.check((d.get(C.source_ref), d.get(C.target_ref)) == (a, b), "%s: edge %s -> %s says it goes %s -> %s", when,
                      a, b, d.get(C.source_ref), d.get(C.target_ref))
    for fid, (a, b, name) in seq.items():
        ctx.check(a in nodes and b in nodes, "%s: flow %s has an end that is not a node", when, fid)
        ctx.check(edges.get(fid) == (a, b), "%s: flow %s of the table goes %s -> %s, its edge %s", when, fid, a, b,
                  edges.get(fid))
        ctx.check(lists[a][1].count(fid) == 1, "%s: flow %s is listed %d times as outgoing of its source", when, fid,
                  lists[a][1].count(fid))
        ctx.check(lists[b][0].count(fid) == 1, "%s: flow %s is listed %d times as incoming of its target", when, fid,
                  lists[b][0].count(fid))
    for fid, (a, b, name) in msg.items():
        ctx.check(edges.get(fid) == (a, b), "%s: message flow %s goes %s -> %s, its edge %s", when, fid, a, b,
                  edges.get(fid))
    for n, (inc, out) in lists.items():
        for fid in inc:
            f = seq.get(fid) or msg.get(fid)
            ctx.check(f is not None and f[1] == n, "%s: node %s lists incoming flow %s which %s", when, n, fid,
                      "does not exist" if f is None else "ends elsewhere")
        for fid in out:
            f = seq.get(fid) or msg.get(fid)
            ctx.check(f is not None and f[0] == n, "%s: node %s lists outgoing flow %s which %s", when, n, fid,
                      "does not exist" if f is None else "starts elsewhere")
    ctx.count("states_checked")
    ctx.count("flows_checked", len(seq) + len(msg))
