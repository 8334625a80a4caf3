"""C23: counting metrics equal the number of matching elements."""
from .. import metwork, xmlmodel, xmlwork

RULE = ("Diagrams with chosen numbers of elements of every kind (and of every other origin: building histories, random documents, "
        "sheets) are measured; every counting metric is compared with a count over the independent model the diagram was made "
        "from, and counted again after further building calls or a layout. Non-trivial: at least two nodes; distinct by nodes and flows.")
ASSUMPTIONS = ["diagrams with pools are counted over the diagram graph, where a black box pool can be a node"]
COUNT = {"quick": 9500, "thorough": 480000}
MIN = {"cases": 500, "metrics": 20000, "origin:histogram": 200, "measured_again": 100}


def check(ctx, g, ref):
    from bpmn_python import bpmn_diagram_metrics as met

    def eq(exp, fn, *a, **kw):
        ctx.count("metrics")
        got = ctx.run(fn, getattr(met, fn), g, *a, **kw)
        if isinstance(exp, int):
            ctx.check(isinstance(got, int) and not isinstance(got, bool), "%s%r returned %r", fn, a, got)
        ctx.equal(exp, got, "%s%s" % (fn, a or kw or ""))
    n, G, E, A = ref.n, metwork.GATEWAYS, metwork.EVENTS, metwork.ACTIVITIES
    eq(len(ref.kinds), "get_nodes_count")
    eq(len(ref.kinds), "get_nodes_count", None)
    for k in list(xmlmodel.KINDS) + ["participant"]:
        eq(n(k), "get_nodes_count", k)
        eq(n(k), "get_nodes_count", node_type=k)
    for k in ["nosuch", "Task", "gateway", "event"]:
        eq(0, "get_nodes_count", k)
    eq({k: n(k) for k in G}, "get_gateway_counts")
    eq({k: n(k) for k in E}, "get_events_counts")
    eq({k: n(k) for k in A}, "get_activities_counts")
    eq(n(A), "all_activities_count")
    eq(n(G), "all_gateways_count")
    eq(n(G) + n(E), "all_control_flow_elements_count")
    eq(n(E), "all_events_count")
    eq(n("startEvent"), "TNSE_metric")
    eq(n("intermediateCatchEvent") + n("intermediateThrowEvent"), "TNIE_metric")
    eq(n("endEvent"), "TNEE_metric")
    eq(n(E), "TNE_metric")
    eq(n(A), "NOA_metric")
    eq(n(A) + n(G) + n(E), "NOAC_metric")
    eq(n(A) + n(G), "NOAJS_metric")
    eq(n(A) + n(G) + n(E), "NumberOfNodes_metric")
    eq(len({k for k in ref.kinds.values() if k in G}), "GatewayHeterogenity_metric")
    got = sorted(x[0] for x in ctx.run("get_all_gateways", met.get_all_gateways, g))
    ctx.equal(sorted(i for i, k in ref.kinds.items() if k in G), got, "get_all_gateways")


def case(ctx, i, rng):
    metwork.phases(ctx, rng, check)


def FIXED():
    return xmlwork.with_stress()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    path = xmlwork.resolve(ctx, path)
    g = xmlwork.load(ctx, path)
    n = xmlmodel.read(path)
    check(ctx, g, metwork.of_graph(g) if n["collab"] else
          metwork.Ref({i: d["kind"] for i, d in n["nodes"].items()}, []))
