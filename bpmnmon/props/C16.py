"""C16: CSV import reproduces the control flow of the sheet."""
from .. import csvmodel, csvwork

RULE = ("Random well-formed process sheets are imported; the direct-successor relation between activities (gateways skipped) is "
        "compared with the reference control flow computed from the sheet's block structure; every gateway and node is "
        "checked. Non-trivial: at least four rows; distinct by labels, gotos, conditions and marks.")
ASSUMPTIONS = ["well-formed sheets as for C15; no split has two flows to the same row (the diagram has one edge per node pair)"]
COUNT = {"quick": 17000, "thorough": 800000}
MIN = {"cases": 300, "splits": 300, "joins": 150, "gotos": 100, "rows": 3000, "long_sheets": 2}


def compare(ctx, sh, g):
    kinds, names, edges = csvwork.flowgraph(g)
    acts = [i for i, k in kinds.items() if not csvwork.is_gateway(k)]
    got = csvmodel.collapse(acts, edges, lambda x: csvwork.is_gateway(kinds[x]))
    exp = sh.succ()
    ctx.check(set(exp) == set(got), "activities differ from rows: %s", sorted(set(exp) ^ set(got))[:6])
    for i in exp:
        ctx.check(exp[i] == got[i], "row %s is followed by %s, expected %s", i, sorted(got[i]), sorted(exp[i]))
    inn, out = {}, {}
    for a, b in edges:
        out[a] = out.get(a, 0) + 1
        inn[b] = inn.get(b, 0) + 1
    for i, k in kinds.items():
        if csvwork.is_gateway(k):
            ctx.check(inn.get(i, 0) >= 2 or out.get(i, 0) >= 2, "gateway %s has %d incoming and %d outgoing flows", i,
                      inn.get(i, 0), out.get(i, 0))
            ctx.check(inn.get(i, 0) >= 1 and out.get(i, 0) >= 1, "gateway %s is not connected on both sides", i)
        if i != "0":
            ctx.check(inn.get(i, 0) >= 1 or i not in entered(sh), "node %s is not entered", i)
        if k == "endEvent":
            ctx.check(out.get(i, 0) == 0, "terminated row %s is followed by something", i)
    ctx.count("successors_compared", sum(len(s) for s in exp.values()))


def entered(sh):
    return {b for _, b in sh.edges if isinstance(b, str)}


def case(ctx, i, rng):
    sh = csvmodel.sheet(rng)
    t = sh.write(shuffle=rng.random() < 0.1)
    csvwork.note(ctx, sh, t)
    compare(ctx, sh, csvwork.load(ctx, csvwork.put(ctx, t)))


def FIXED():
    return [(1205, 3), (130, 120)]


def fixed_case(ctx, k, rng):
    """A very long sequence, a split with long branches and a goto far back."""
    n, m = k
    rows = [["0", "start", "", "", "", ""]] + [[str(j), "step %d" % j, "", "", "", ""] for j in range(1, n)]
    exp = {str(j): {str(j + 1)} for j in range(n - 1)}
    exp[str(n - 1)] = {"%d%s1" % (n, b) for b in "ab"} | {"2"}
    for b in "ab":
        for j in range(1, m + 1):
            lab = "%d%s%d" % (n, b, j)
            rows.append([lab, "branch " + lab, "x" if j == 1 else "", "", "", ""])
            exp[lab] = {"%d%s%d" % (n, b, j + 1) if j < m else str(n + 1)}
    rows.append(["%dc1" % n, "goto 2", "back", "", "", ""])
    rows.append([str(n + 1), "end", "", "", "", "yes"])
    exp[str(n + 1)] = set()
    t = "Order,Activity,Condition,Who,Subprocess,Terminated\n" + "".join(",".join(r) + "\n" for r in rows)
    ctx.input("sheet.csv", t)
    ctx.seen(("long", n, m))
    g = csvwork.load(ctx, csvwork.put(ctx, t, "in.csv"))
    kinds, names, edges = csvwork.flowgraph(g)
    got = csvmodel.collapse([i for i, k in kinds.items() if not csvwork.is_gateway(k)], edges, lambda x: csvwork.is_gateway(kinds[x]))
    ctx.check(set(exp) == set(got), "activities differ from rows: %s", sorted(set(exp) ^ set(got))[:6])
    for i in exp:
        ctx.check(exp[i] == got[i], "row %s is followed by %s, expected %s", i, sorted(got[i]), sorted(exp[i]))
    ctx.count("long_sheets")
