"""C24: structural complexity metrics follow their definitions."""
from fractions import Fraction

from .. import metwork, xmlwork

RULE = ("Diagrams whose numbers of elements per kind lie at and around the values where the square metrics change (and of every other "
        "origin) are measured; network complexity and gateway degree are compared with exact fractions over the independent model, "
        "the two square metrics with a search over all candidates by the definition. Non-trivial: at least two nodes; distinct by nodes and flows.")
ASSUMPTIONS = ["network complexity of an empty diagram and gateway degree of a diagram without gateways are undefined"]
COUNT = {"quick": 9000, "thorough": 460000}
MIN = {"cases": 500, "metrics": 3000, "origin:histogram": 200, "measured_again": 100, "durfee>=3": 50, "perfect>=3": 50,
       "with_gateways": 200}


def check(ctx, g, ref):
    from bpmn_python import bpmn_diagram_metrics as met

    def value(fn):
        ctx.count("metrics")
        return ctx.run(fn, getattr(met, fn), g)

    def ratio(fn, a, b):
        got = value(fn)
        ctx.check(isinstance(got, (int, float)) and abs(Fraction(got) - Fraction(a, b)) <= Fraction(1, 10 ** 9),
                  "%s is %r, by definition %d/%d", fn, got, a, b)
    if ref.kinds:
        ratio("CoefficientOfNetworkComplexity_metric", len(ref.flows), len(ref.kinds))
    gates = {i for i, k in ref.kinds.items() if k in metwork.GATEWAYS}
    if gates:
        ctx.count("with_gateways")
        ratio("AverageGatewayDegree_metric", sum((a in gates) + (b in gates) for a, b in ref.flows), len(gates))
    h = sorted(ref.hist().values(), reverse=True)
    d = max(d for d in range(len(h) + 1) if sum(1 for c in h if c >= d) >= d)
    p = max(p for p in range(len(h) + 1) if sum(h[:p]) >= p * p)
    ctx.equal(d, value("DurfeeSquare_metric"), "Durfee square of %s" % h)
    ctx.equal(p, value("PerfectSquare_metric"), "perfect square of %s" % h)
    ctx.counters["durfee>=3"] += d >= 3
    ctx.counters["perfect>=3"] += p >= 3


def case(ctx, i, rng):
    metwork.phases(ctx, rng, check)


def FIXED():
    return xmlwork.corpus()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    g = xmlwork.load(ctx, path)
    check(ctx, g, metwork.of_graph(g))
