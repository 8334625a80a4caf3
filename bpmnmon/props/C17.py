"""C17: CSV import keeps conditions and picks the matching gateway kind."""
from .. import csvmodel, csvwork

RULE = ("Random well-formed process sheets with all condition styles (none, yes/no, else, some, all, padded, hostile texts) are "
        "imported; the condition of every flow and the kind of every split and join gateway are compared with the sheet. "
        "Non-trivial: at least four rows; distinct by labels, gotos, conditions and marks.")
ASSUMPTIONS = ["well-formed sheets as for C15; only rows that start a branch and goto rows have conditions"]
COUNT = {"quick": 17000, "thorough": 800000}
MIN = {"cases": 300, "split_kinds_compared": 300, "join_kinds_compared": 150, "conditions_compared": 500,
       "kind:exclusiveGateway": 30, "kind:inclusiveGateway": 30, "kind:parallelGateway": 30}


def compare(ctx, sh, g):
    kinds, names, edges = csvwork.flowgraph(g)
    out, inn = {}, {}
    for a, b in edges:
        out.setdefault(a, []).append(b)
        inn.setdefault(b, []).append(a)
    real = {}                      # reference node -> real node
    for i in sh.nodes:
        ctx.check(i in kinds, "row %s has no node", i)
        real[i] = i
    # a split gateway is what the row before the split leads to
    for (a, b), _ in sh.edges.items():
        if isinstance(b, tuple) and b[0] == "split":
            o = out.get(a, [])
            ctx.check(len(o) == 1 and csvwork.is_gateway(kinds[o[0]]), "row %s leads to %s instead of a split gateway", a, o)
            real[b] = o[0]
            ctx.equal(sh.gw[b], kinds[o[0]], "kind of the gateway of split %s" % b[1])
            ctx.count("split_kinds_compared")
            ctx.count("kind:" + sh.gw[b])
    for (a, b), _ in sh.edges.items():
        if isinstance(b, tuple) and b[0] == "join":
            o = out.get(real[a], [])
            ctx.check(len(o) == 1 and csvwork.is_gateway(kinds[o[0]]), "row %s leads to %s instead of a join gateway", a, o)
            ctx.check(real.setdefault(b, o[0]) == o[0], "the branches before row %s join in two gateways", b[1])
            ctx.equal(sh.gw[b], kinds[o[0]], "kind of the gateway that joins before row %s" % b[1])
            ctx.count("join_kinds_compared")
    # join kinds and conditions
    exp = {}
    for (a, b), cond in sh.edges.items():
        exp[(real[a], real[b])] = cond or None
    for e, cond in edges.items():
        ctx.check(e in exp, "unexpected flow %s -> %s", *e)
        ctx.check((cond or None) == exp[e], "condition of flow %s -> %s is %r, expected %r", e[0], e[1], cond, exp[e])
        ctx.count("conditions_compared", 1 if cond else 0)
    ctx.check(len(exp) == len(edges), "flows missing: %s", [e for e in exp if e not in edges][:4])


def case(ctx, i, rng):
    sh = csvmodel.sheet(rng)
    t = sh.write()
    csvwork.note(ctx, sh, t)
    compare(ctx, sh, csvwork.load(ctx, csvwork.put(ctx, t)))
