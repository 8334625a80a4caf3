"""Diagrams for the metrics, together with an independent account of their elements."""
from . import objview, sources, xmlmodel, xmlwork

GATEWAYS = {"inclusiveGateway", "exclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway"}
EVENTS = {"startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent"}
ACTIVITIES = {"task", "subProcess"}


class Ref:
    """kinds: {node id: kind}; flows: [(source id, target id)]"""

    def __init__(self, kinds, flows):
        self.kinds, self.flows = kinds, flows

    def n(self, pred):
        return sum(1 for k in self.kinds.values() if (k in pred if not isinstance(pred, str) else k == pred))

    def hist(self):
        h = {}
        for k in self.kinds.values():
            h[k] = h.get(k, 0) + 1
        return h


def of_graph(g):
    C = objview.consts()
    return Ref({i: d.get(C.type) for i, d in g.diagram_graph.nodes(data=True)}, list(g.diagram_graph.edges()))


def counts(rng):
    """Numbers of elements per kind, near the places where the square metrics change their value."""
    k = rng.choice([1, 2, 3, 4, 5, 6, 8, len(xmlmodel.KINDS)])
    r = rng.random()
    if r < 0.3:
        c = [max(1, k + rng.choice([-2, -1, -1, 0, 0, 1, 2])) for _ in range(k)]
    elif r < 0.55:
        d = rng.randint(1, k)          # d kinds with about d elements, the others few
        c = [d + rng.choice([-1, 0, 0, 0, 1]) if j < d else rng.randint(0, d) for j in range(k)]
    elif r < 0.7:
        c = [1] * k
        c[0] = rng.choice([1, k, k * k, k * k - k, k * k - k + 1, max(1, k * k - k - 1)])
    elif r < 0.85:
        p = rng.randint(1, k)          # the top p kinds together have about p squared elements
        total, c = p * p + rng.choice([-1, 0, 0, 1]), [0] * k
        for _ in range(total):
            c[rng.randrange(p)] += 1
        for j in range(p, k):
            c[j] = rng.randint(0, max(c))
    else:
        c = [rng.choice([0, 1, 1, 2, 3, 7]) for _ in range(k)]
    kinds = list(xmlmodel.KINDS)
    rng.shuffle(kinds)
    return [(kinds[j], max(0, x)) for j, x in enumerate(c)]


def histogram(ctx, rng):
    """An imported document with a chosen number of elements per kind."""
    gen = xmlmodel.Gen(rng, size=0, collab=False, lanes=False, subdepth=0)
    m = gen.model()
    m["processes"] = m["processes"][:1]
    nodes = []
    for kind, c in counts(rng):
        nodes += [gen.node(kind) for _ in range(c)]
    rng.shuffle(nodes)
    for n in nodes:
        if n["kind"] == "subProcess":
            n["children"] = []
        if n["kind"] == "boundaryEvent":
            n["attrs"]["attachedToRef"] = nodes[0]["id"]
    subs = [n for n in nodes if n["kind"] == "subProcess"]
    top = []
    for n in nodes:
        s = rng.choice(subs) if subs and rng.random() < 0.2 else None
        (s["children"] if s and n["kind"] != "subProcess" else top).append(n)
    for cont in [top] + [s["children"] for s in subs]:
        ends = [n["id"] for n in cont if n["kind"] != "dataObject"]
        pairs = set()
        for _ in range(rng.choice([0, len(ends), 2 * len(ends)]) if ends else 0):
            a, b = rng.choice(ends), rng.choice(ends)
            if (a, b) not in pairs:
                pairs.add((a, b))
                cont.append({"t": "flow", "id": gen.ids.new("flow"), "source": a, "target": b})
    m["processes"][0]["children"] = top
    m["plane"]["bpmnElement"] = m["processes"][0]["id"]
    gen.make_di(m)
    data = xmlmodel.write(m, xmlmodel.Lex())
    n = xmlwork.note(ctx, m, data)
    g = xmlwork.load(ctx, xmlwork.put(ctx, data))
    ctx.count("origin:histogram")
    return g, Ref({i: d["kind"] for i, d in n["nodes"].items()}, [(f["source"], f["target"]) for f in n["flows"].values()])


def measured(ctx, rng):
    """(diagram, independent account)"""
    r = rng.random()
    if r < 0.45:
        return histogram(ctx, rng)
    if r < 0.7:
        b = sources.built(ctx, rng)
        ctx.seen(b.fingerprint(), len(b.sh.nodes) > 1)
        return b.g, Ref({i: n["kind"] for i, n in b.sh.nodes.items()},
                        [(f["source"], f["target"]) for f in b.sh.flows.values()])
    if r < 0.9:
        m, data = xmlwork.document(ctx, rng, rng.choice(["nodes", "flows"]), lex=0.1)
        n = xmlwork.note(ctx, m, data)
        g = xmlwork.load(ctx, xmlwork.put(ctx, data))
        ctx.count("origin:xml")
        if n["collab"]:
            return g, of_graph(g)
        return g, Ref({i: d["kind"] for i, d in n["nodes"].items()},
                      [(f["source"], f["target"]) for f in n["flows"].values()])
    g, sh, _ = sources.from_csv(ctx, rng)
    ctx.seen(sh.fingerprint())
    return g, of_graph(g)


def phases(ctx, rng, check):
    """Measures a diagram, and again after it was extended, laid out or exported."""
    g, ref = measured(ctx, rng)
    check(ctx, g, ref)
    if rng.random() < 0.35:
        sources.extend(ctx, rng, g)
        check(ctx, g, of_graph(g))
        ctx.count("measured_again")
    elif rng.random() < 0.2 and not g.collaboration:
        from bpmn_python import bpmn_diagram_layouter as lay
        ctx.run("generate_layout", lay.generate_layout, g)
        check(ctx, g, ref)
        ctx.count("measured_again")
