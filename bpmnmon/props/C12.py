"""C12: exporting, measuring and drawing never change the diagram."""
import copy

from .. import core, csvwork, ops, sources, xmlwork

RULE = ("Diagrams of every origin; a random sequence of exports (XML, no-DI XML, CSV, DOT, PNG), metrics and queries runs on each, with "
        "repetitions. Around every operation a monitor compares complete deep snapshots of the diagram object (order included), also "
        "if the operation is undefined for the diagram and raises; each result is compared with the result the operation has as the "
        "first one on an untouched deep copy. Non-trivial: at least two nodes; distinct by content.")
ASSUMPTIONS = ["the graphviz process is replaced by a recorder in most PNG exports"]
COUNT = {"quick": 1100, "thorough": 52000}
MIN = {"cases": 150, "snapshots": 8000, "repetitions": 1500, "ok:export_xml_file": 200, "ok:export_xml_file_no_di": 200,
       "ok:bpmn_diagram_to_png": 100, "ok:bpmn_diagram_to_dot_file": 100, "ok:compute_longest_path": 50, "ok:export_csv_file": 60}


def setup(ctx):
    ctx.tap = ops.PngTap()


def exercise(ctx, rng, g):
    t = ops.table(g, rng, ctx.dir())
    names = list(t)
    base = {}
    pristine = copy.deepcopy(g)
    heavy = [n for n in names if n.startswith(("export", "bpmn_", "compute", "count_"))]
    seq = [rng.choice(heavy) if rng.random() < 0.5 else rng.choice(names) for _ in range(rng.choice([6, 15, 30]))]
    before = core.snapshot(g)
    for n in seq:
        if n in base:
            ctx.count("repetitions")
        else:
            base[n] = ops.outcome(t[n], copy.deepcopy(pristine))
        ctx.ev(n)
        got = ops.outcome(t[n], g)
        short = n.split("(")[0]
        ctx.count("%s:%s" % (got[0], short))
        d = core.snapdiff(before, core.snapshot(g))
        ctx.count("snapshots")
        ctx.check(d is None, "%s changed the diagram: %s", n, d)
        if got != base[n]:
            raise core.Violation("%s gives %s, but %s as the first operation (after %s)" % (
                n, core.short(got[1]), core.short(base[n][1]), seq[:seq.index(n)]))


def case(ctx, i, rng):
    ctx.tap.graphs.clear()
    r = rng.random()
    if r < 0.25:
        g, sh, _ = sources.from_csv(ctx, rng)       # these can be exported to CSV
        ctx.seen(sh.fingerprint(), len(g.diagram_graph) > 1)
    elif r < 0.4:
        b = sources.built(ctx, rng, size=rng.choice([4, 7, 10]))
        ctx.seen(b.fingerprint(), len(b.sh.nodes) > 1)
        g = b.g
    else:
        g, _ = sources.any_diagram(ctx, rng)
    if rng.random() < 0.2:
        from bpmn_python import bpmn_diagram_layouter as lay
        ctx.run("generate_layout", lay.generate_layout, g)
    exercise(ctx, rng, g)


def FIXED():
    return xmlwork.corpus() + csvwork.corpus()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    g = csvwork.load(ctx, path) if path.endswith(".csv") else xmlwork.load(ctx, path)
    exercise(ctx, rng, g)
