"""C19: a process exported to CSV and imported again is the same process."""
import collections

from .. import csvmodel, csvwork
from . import C18

RULE = ("Random block-structured processes in which every split follows and precedes an activity are exported to CSV and imported "
        "again; activities, kinds, names, the direct successor relation (gateways skipped) and the branch conditions are compared with "
        "the process itself; the imported process is exported again and must give the same rows. Non-trivial: at least four rows; "
        "distinct by labels, conditions and marks.")
ASSUMPTIONS = ["start and end events are plain (message and timer events get a prefix in the sheet)",
               "names do not start with 'goto'", "at most one branch of a split is empty"]
COUNT = {"quick": 12000, "thorough": 600000}
MIN = {"cases": 300, "rows_compared": 5000, "splits": 300, "successors_compared": 5000, "skips": 50}


def case(ctx, i, rng):
    p, g, items, rows = C18.make(ctx, rng, sheetlike=True, events=False)
    kinds, names, edges = csvwork.flowgraph(g)
    acts = [n for n, k in kinds.items() if not csvwork.is_gateway(k)]
    exp = csvmodel.collapse(acts, edges, lambda x: csvwork.is_gateway(kinds[x]))
    lab = {n: p.labels[id(items[n])] for n in acts}
    path = csvwork.export(ctx, g)
    C18.read(ctx, path)
    g2 = csvwork.load(ctx, path)
    k2, n2, e2 = csvwork.flowgraph(g2)
    acts2 = [n for n, k in k2.items() if not csvwork.is_gateway(k)]
    ctx.equal(sorted(lab.values()), sorted(acts2), "activities after import")
    got = csvmodel.collapse(acts2, e2, lambda x: csvwork.is_gateway(k2[x]))
    for n in acts:
        ctx.equal(kinds[n], k2[lab[n]], "kind of %s" % lab[n])
        ctx.equal(names[n], n2[lab[n]], "name of %s" % lab[n])
        ctx.equal(sorted(lab[x] for x in exp[n]), sorted(got[lab[n]]), "successors of %s" % lab[n])
        ctx.count("successors_compared", len(exp[n]))
    conds = collections.Counter(r[1] for r in rows.values() if r[1])
    ctx.equal(conds, collections.Counter(c for c in e2.values() if c), "branch conditions after import")
    into = {}
    for (a, b), c in e2.items():
        into.setdefault(b, []).append(c or "")
    for k, r in rows.items():
        if not r[0].startswith("goto ") and r[1]:
            ctx.equal([r[1]], into.get(k), "condition of the flow into %s" % k)
    C18.compare(ctx, rows, C18.read(ctx, csvwork.export(ctx, g2)))
