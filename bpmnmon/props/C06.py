"""C06: exporting a diagram built through the API writes all of it as valid XML."""
import re
import xml.etree.ElementTree as ET

from .. import build, compare, core, sources, text, xmlmodel, xmlwork

RULE = ("Random histories of diagram-building calls (all methods, positional and keyword arguments, nested containers, XML-legal "
        "hostile names and ids) are exported; the file is parsed by an independent reader and compared with the shadow model of "
        "the history, and its ids, references and namespaces are checked. Non-trivial: at least two nodes; distinct by call "
        "sequence and names.")
ASSUMPTIONS = ["xml.etree.ElementTree reads files correctly", "at most one flow between two given nodes; carriage returns are not used"]
COUNT = {"quick": 10000, "thorough": 600000}
MIN = {"cases": 300, "nodes_compared": 2000, "flows_compared": 1000, "references_resolved": 3000}

NSURI = xmlmodel.NS
REFATTRS = ("sourceRef", "targetRef", "bpmnElement", "attachedToRef", "default", "processRef")


def legal(rng):
    """Names over the whole range of characters XML allows."""
    r = rng.random()
    if r < 0.75:
        return text.name(rng)
    pool = [chr(rng.randint(0x20, 0x7E)) for _ in range(12)] + \
           [chr(rng.choice([9, 10, 0x85, 0xA0, 0x2028, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x10FFFF, 0x1F600])) for _ in range(3)]
    rng.shuffle(pool)
    return "".join(pool[:rng.randint(1, 15)])


def structure(ctx, path, root):
    """Namespaces, identifiers and references of an exported file."""
    with open(path, "rb") as f:
        head = f.read(4000).decode("utf-8", "replace")
    ctx.check(head.startswith("<?xml"), "no XML declaration")
    for e in root.iter():
        t = e.tag
        ctx.check(t.startswith("{"), "element %s is in no namespace", t)
        uri, name = t[1:].split("}")
        want = {"BPMNDiagram": "di", "BPMNPlane": "di", "BPMNShape": "di", "BPMNEdge": "di", "Bounds": "dc",
                "waypoint": "ddi"}.get(name, "m")
        ctx.check(uri == NSURI[want], "element %s is in namespace %s", name, uri)
    decl = head[head.index("<", 5):]
    for k, u in NSURI.items():
        ctx.check(u in decl, "namespace %s is not declared", u)
    ids = {}
    for e in root.iter():
        i = e.get("id")
        if i is not None:
            ctx.check(i not in ids, "identifier %r occurs twice (%s, %s)", i, e.tag, ids.get(i))
            ids[i] = e.tag
    for e in root.iter():
        for a in REFATTRS:
            v = e.get(a)
            if v:
                ctx.check(v in ids, "%s of %s refers to %r, which is not in the file", a, e.tag, v)
                ctx.count("references_resolved")
        if xmlmodel.local(e.tag) in ("incoming", "outgoing", "flowNodeRef"):
            ctx.check((e.text or "") in ids, "%s refers to %r, which is not in the file", e.tag, e.text)
            ctx.count("references_resolved")


def compare_file(ctx, sh, path):
    try:
        got = xmlmodel.read(path, imply=False)
    except xmlmodel.ReadError as ex:
        raise core.Violation("exported file cannot be read: %s" % ex)
    exp = sh.norm()
    compare.nodes(ctx, exp, got, "export")
    compare.flows(ctx, exp, got, "export")
    compare.containers(ctx, exp, got, "export")
    compare.keys(ctx, exp["nodes"], got["shapes"], "shape of")
    compare.keys(ctx, exp["flows"], got["edges"], "edge of")
    for i, s in got["shapes"].items():
        ctx.check(len(s) == 1, "%d shapes of %s", len(s), i)
        if exp["nodes"][i]["kind"] == "subProcess":
            ctx.equal(sh.shapes[i][0]["isExpanded"], s[0]["isExpanded"], "isExpanded of %s" % i)
    for i, e in got["edges"].items():
        ctx.check(len(e) == 1 and len(e[0]) >= 2, "edge of %s: %s", i, e)
    ctx.equal(sh.diagram_name, got["diagram"]["name"], "name of the diagram")
    structure(ctx, path, got["root"])


def case(ctx, i, rng):
    g = None
    if rng.random() < 0.08:       # an object that held another diagram before
        g, _ = sources.any_diagram(ctx, rng)
        ctx.count("new_diagrams_on_used_objects")
    b = build.Builder(ctx, rng, g=g, names=lambda: legal(rng)).start()
    b.history(rng.choice([0, 2, 5, 10, 20, 40]), p_new=0.01)
    if rng.random() < 0.05:
        b.history(120)
    ctx.seen(b.fingerprint(), len(b.sh.nodes) >= 2)
    ctx.sample(b.describe())
    path = xmlwork.export(ctx, b.g)
    with open(path, encoding="utf-8") as f:
        ctx.input("exported", f.read()[:20000])
    compare_file(ctx, b.sh, path)
    if rng.random() < 0.3:
        # going on after an export
        b.history(4)
        compare_file(ctx, b.sh, xmlwork.export(ctx, b.g))
