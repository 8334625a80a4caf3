"""C08: node flow lists, graph edges and the flow table always agree."""
from .. import build, consist, core, objview, sources, xmlmodel, xmlwork

RULE = ("Random histories of building calls, XML imports and CSV imports (also extended by building calls, restarted and reused) "
        "run with a monitor that compares flow table, graph edges and node lists after every step. Non-trivial: at least two "
        "nodes; distinct by call sequence or content.")
ASSUMPTIONS = ["at most one flow between two given nodes in one direction"]
COUNT = {"quick": 11000, "thorough": 600000}
MIN = {"cases": 300, "states_checked": 3000, "flows_checked": 5000, "origin:xml": 50, "origin:csv": 50}


class Watched(build.Builder):
    def call(self, *a):
        res = super().call(*a)
        consist.check(self.ctx, self.g, "after " + a[0])
        return res


def case(ctx, i, rng):
    r = rng.random()
    if r < 0.4:
        b = Watched(ctx, rng).start()
        b.history(rng.choice([5, 15, 30]), p_flow=0.6, p_new=0.02)
        ctx.seen(b.fingerprint(), len(b.sh.nodes) >= 2)
        ctx.sample(b.describe())
        if rng.random() < 0.3:
            # the same object is reused for an import, with or without starting anew
            if rng.random() < 0.5:
                b.g.create_new_diagram_graph()
            m, data = xmlwork.document(ctx, rng, "flows")
            ctx.run("load", b.g.load_diagram_from_xml_file, xmlwork.put(ctx, data))
            consist.check(ctx, b.g, "after import into a used object")
        return
    g, what = sources.any_diagram(ctx, rng)
    consist.check(ctx, g, "after import (%s)" % what)
    for _ in range(rng.choice([0, 2])):
        sources.extend(ctx, rng, g, 1)
        consist.check(ctx, g, "after extending an imported diagram")
    if rng.random() < 0.3:
        g2 = xmlwork.load(ctx, xmlwork.export(ctx, g))
        consist.check(ctx, g2, "after import of an export")


def fixed_case(ctx, path, rng):
    if path == "parallel":
        return parallel(ctx)
    ctx.input("file", path)
    ctx.seen(path)
    path = xmlwork.resolve(ctx, path)
    consist.check(ctx, xmlwork.load(ctx, path), "after import")


def FIXED():
    return ["parallel"] + xmlwork.with_stress()


def parallel(ctx):
    """Two flows with the same source and target: the recorded finding."""
    g = objview.new()
    g.create_new_diagram_graph()
    p = g.add_process_to_diagram()
    a, _ = g.add_exclusive_gateway_to_diagram(p)
    b, _ = g.add_task_to_diagram(p)
    f1, _ = g.add_sequence_flow_to_diagram(p, a, b)
    f2, _ = g.add_sequence_flow_to_diagram(p, a, b)
    C = objview.consts()
    edges = [d.get(C.id) for _, _, d in g.diagram_graph.edges(data=True)]
    if edges == [f2] and set(g.sequence_flows) == {f1, f2}:
        ctx.known("parallel-flows", "of two flows from %s to %s only the later one has an edge" % (a, b))
    else:
        consist.check(ctx, g, "after adding two flows between the same nodes")
