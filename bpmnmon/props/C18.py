"""C18: CSV export lists every activity exactly once under a unique order label."""
import csv
import io

from .. import blockproc, csvwork, objview, xmlwork

RULE = ("Random block-structured processes (sequences of up to 13 steps, splits of 2 to 26 branches in three kinds, nesting, branches "
        "that end, skip a block, meet in a joining gateway, in the next activity or in the join of the enclosing block, all at once or some before the others; hostile names; "
        "conditions as flow names, condition expressions, default flows; message and timer events) are built through the API - partly "
        "exported to XML and imported again - and exported to CSV; the file is read by Python's csv reader and compared row by row with "
        "the rows computed from the tree, for some again after names changed or after the object was restarted with another process. Non-trivial: at least four rows; distinct by labels, conditions and marks.")
ASSUMPTIONS = ["joining gateways do not split", "at most one branch of a split is empty", "names do not start with 'goto'"]
COUNT = {"quick": 18000, "thorough": 1000000}
MIN = {"cases": 300, "rows_compared": 5000, "splits": 500, "skips": 60, "after_xml": 60, "renamed_after_export": 60, "second_processes": 60, "reused_objects": 60, "staged_joins": 60}


def stats(ctx, rows):
    for r in rows.values():
        if r[0].startswith("goto "):
            ctx.count("skips")
    ctx.count("splits", len({k.rstrip("0123456789")[:-1] for k in rows if not k.isdigit()}))
    ctx.seen(tuple((k, v[1], v[3], v[4]) for k, v in rows.items()), len(rows) >= 4)
    ctx.sample([[k] + v for k, v in list(rows.items())[:14]])


def read(ctx, path):
    with open(path, encoding="utf-8", newline="") as f:
        raw = f.read()
    ctx.input("exported.csv", raw)
    ctx.check(raw.startswith("Order,Activity,Condition,Who,Subprocess,Terminated"), "header is %r", raw[:80])
    rows = list(csv.reader(io.StringIO(raw, newline="")))
    ctx.equal(blockproc.HEADER, rows[0], "header")
    out = {}
    for r in rows[1:]:
        ctx.equal(6, len(r), "number of cells of row %s" % r)
        ctx.check(r[0] not in out, "order label %s occurs twice", r[0])
        out[r[0]] = r[1:]
    return out


def compare(ctx, exp, got):
    ctx.check(set(exp) == set(got), "order labels missing %s, unexpected %s", sorted(set(exp) - set(got))[:6],
              sorted(set(got) - set(exp))[:6])
    for k in exp:
        ctx.equal(exp[k], got[k], "row %s" % k)
    ctx.count("rows_compared", len(exp))


def make(ctx, rng, **kw):
    p = blockproc.process(rng, **kw)
    g = objview.obj(ctx)
    items = p.build(g)
    if p.staged:
        ctx.count("staged_joins")
    rows = p.rows()
    stats(ctx, rows)
    ctx.input("expected rows", {k: v for k, v in list(rows.items())[:200]})
    if rng.random() < 0.3:
        g = xmlwork.load(ctx, xmlwork.export(ctx, g))
        ctx.count("after_xml")
    return p, g, items, rows


def case(ctx, i, rng):
    p, g, items, rows = make(ctx, rng)
    compare(ctx, rows, read(ctx, csvwork.export(ctx, g)))
    r = rng.random()
    if r < 0.08:
        # the sheet of a diagram whose names changed
        C = objview.consts()
        for n, it in items.items():
            if rng.random() < 0.4:
                it["name"] = p.name()
                g.diagram_graph.nodes[n][C.node_name] = it["name"]
                ctx.count("renamed_after_export")
        compare(ctx, p.rows(), read(ctx, csvwork.export(ctx, g)))
    elif r < 0.16:
        # another process in the same object
        q = blockproc.process(rng, size=rng.choice([2, 5, 9]))
        q.build(g)
        ctx.input("expected rows of the second process", {k: v for k, v in list(q.rows().items())[:200]})
        compare(ctx, q.rows(), read(ctx, csvwork.export(ctx, g)))
        ctx.count("second_processes")


def FIXED():
    return ["deep"]


def fixed_case(ctx, what, rng):
    """A sequence of 1500 tasks: the recursion of the export is deeper than the interpreter allows (known finding)."""
    g = objview.new()
    g.create_new_diagram_graph("deep")
    p = g.add_process_to_diagram("p")
    prev, _ = g.add_start_event_to_diagram(p, "s")
    exp = {"0": ["s", "", "", "", ""]}
    for k in range(1, 1501):
        n, _ = g.add_task_to_diagram(p, "t%d" % k)
        g.add_sequence_flow_to_diagram(p, prev, n, "")
        exp[str(k)] = ["t%d" % k, "", "", "", ""]
        prev = n
    n, _ = g.add_end_event_to_diagram(p, "e")
    g.add_sequence_flow_to_diagram(p, prev, n, "")
    exp["1501"] = ["e", "", "", "", "yes"]
    try:
        g.export_csv_file(ctx.dir(), "out.csv")
    except RecursionError:
        ctx.known("deep-recursion", "a sequence of 1500 tasks cannot be exported to CSV (RecursionError)")
        return
    compare(ctx, exp, read(ctx, csvwork.export(ctx, g)))
