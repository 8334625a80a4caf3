"""C07: the export without diagram data holds the same model and no graphics."""
import xml.etree.ElementTree as ET

from .. import core, sources, xmlmodel, xmlwork

RULE = ("Diagrams of every origin (building calls, XML import, CSV import, imported and extended) are exported with and without "
        "diagram data; the two files are compared element by element, multiplicities included, and the second must contain no "
        "graphics. Non-trivial: at least two nodes; distinct by origin and content.")
ASSUMPTIONS = ["xml.etree.ElementTree reads files correctly"]
COUNT = {"quick": 9000, "thorough": 500000}
MIN = {"cases": 300, "elements_compared": 5000, "origin:api": 50, "origin:xml": 50, "origin:csv": 50}
GRAPHICS = ("BPMNDiagram", "BPMNPlane", "BPMNShape", "BPMNEdge", "Bounds", "waypoint", "BPMNLabel")


def canon(e):
    """Order-insensitive image of a model element (order of children does not carry meaning between containers)."""
    kids = [canon(c) for c in e if xmlmodel.local(c.tag) not in GRAPHICS]
    txt = (e.text or "") if not len(e) else ""
    if xmlmodel.local(e.tag) not in ("conditionExpression",):
        txt = txt.strip()
    return (e.tag, tuple(sorted(e.attrib.items())), txt, tuple(sorted(kids)))


def flat(c, out):
    out[c[:3]] = out.get(c[:3], 0) + 1
    for k in c[3]:
        flat(k, out)
    return out


def parse(path):
    try:
        return ET.parse(path).getroot()
    except ET.ParseError as ex:
        raise core.Violation("exported file %s is not well-formed: %s" % (path, ex))


def pair(ctx, g):
    a, b = parse(xmlwork.export(ctx, g)), parse(xmlwork.export(ctx, g, no_di=True))
    for e in b.iter():
        ctx.check(xmlmodel.local(e.tag) not in GRAPHICS, "export without diagram data contains %s", e.tag)
    ids = {}
    for e in b.iter():
        i = e.get("id")
        if i:
            ctx.check(i not in ids, "element %s occurs twice (%s, %s)", i, ids.get(i), e.tag)
            ids[i] = e.tag
    ca, cb = canon(a), canon(b)
    if ca != cb:
        fa, fb = flat(ca, {}), flat(cb, {})
        only_a = [k for k in fa if fa[k] != fb.get(k, 0)]
        only_b = [k for k in fb if fb[k] != fa.get(k, 0)]
        ctx.check(False, "exports differ: with diagram data only %s, without only %s%s", only_a[:3], only_b[:3],
                  "" if only_a or only_b else " (same elements in different containers)")
    ctx.count("elements_compared", sum(1 for _ in a.iter()))
    ctx.check(True, "")


def case(ctx, i, rng):
    g, what = sources.any_diagram(ctx, rng)
    pair(ctx, g)


FIXED = xmlwork.with_stress


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    path = xmlwork.resolve(ctx, path)
    pair(ctx, xmlwork.load(ctx, path))
