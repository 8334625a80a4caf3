"""XML workloads shared by several properties."""
import glob
import os
import zlib

from . import core, objview, stress, xmlmodel


def gen(rng, focus=None):
    """A generator biased towards what a property is about."""
    kw = {}
    if focus == "nodes":
        kw = dict(size=rng.choice([3, 6, 10, 16]), collab=rng.random() < 0.2, lanes=rng.random() < 0.2)
    elif focus == "flows":
        kw = dict(size=rng.choice([3, 5, 8, 14]), collab=rng.random() < 0.6, lanes=False)
    elif focus == "containers":
        kw = dict(size=rng.choice([1, 3, 5]), collab=rng.random() < 0.7, lanes=rng.random() < 0.8)
    elif focus == "di":
        kw = dict(size=rng.choice([2, 4, 8]))
    if rng.random() < 0.02:
        kw["size"] = rng.randint(40, 90)
    if rng.random() < 0.04:
        kw["subdepth"] = rng.randint(4, 8)
    if rng.random() < 0.15:
        kw["kinds"] = rng.sample(xmlmodel.KINDS, rng.randint(1, 4))
    return xmlmodel.Gen(rng, **kw)


def document(ctx, rng, focus=None, lex=0.5):
    m = gen(rng, focus).model()
    data = xmlmodel.write(m, xmlmodel.Lex(rng) if rng.random() < lex else xmlmodel.Lex())
    return m, data


def note(ctx, m, data):
    """Bookkeeping about a generated document."""
    n = xmlmodel.norm(m)
    ctx.input("document.bpmn", data.decode("utf-8", "replace") if data[:2] not in (b"\xff\xfe", b"\xfe\xff")
              else data.decode("utf-16"))
    ctx.seen((sorted((i, d["kind"]) for i, d in n["nodes"].items()), sorted(n["flows"])), len(n["nodes"]) >= 2)
    for d in n["nodes"].values():
        ctx.count("kind:" + d["kind"])
    ctx.sample({"nodes": {i: d["kind"] for i, d in list(n["nodes"].items())[:12]},
                "flows": {i: (f["source"], f["target"]) for i, f in list(n["flows"].items())[:12]},
                "processes": list(n["processes"]), "shapes": len(n["shapes"]), "edges": len(n["edges"])})
    return n


NAMES = ["in.bpmn"] * 12 + ["in.xml", "in", " in.bpmn", "in.bpmn ", "my file.bpmn", "żółć.bpmn", "IN.BPMN", "a%20b.xml", "in.bpmn.xml", "in#1.xml",
                            "in.txt", "in.csv", "sub/../in.bpmn", "./in.bpmn", "$in.bpmn", "in.", ".in", "in?.xml", "[in].xml"]


def filename(data, names):
    """The name of an input file says nothing about its content either; a function of the content, so that it is reproducible."""
    return names[zlib.crc32(data) % len(names)]


def put(ctx, data, name=None):
    d = ctx.dir()
    name = name or filename(data, NAMES)
    if name.startswith("sub/"):
        os.mkdir(os.path.join(d, "sub"))
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    os.utime(p, (1000000, 1000000))     # the date says nothing about the content
    return p


def load(ctx, path, g=None):
    """Import into the given object, or a new or used one."""
    g = objview.obj(ctx, restart=False) if g is None else g
    ctx.run("load_diagram_from_xml_file", g.load_diagram_from_xml_file, path)
    return g


def export(ctx, g, no_di=False):
    d = ctx.dir()
    f = g.export_xml_file_no_di if no_di else g.export_xml_file
    ctx.run("export_xml_file" + ("_no_di" if no_di else ""), f, d, "out.bpmn")
    return d + "out.bpmn"


def read(ctx, path):
    try:
        return xmlmodel.read(path, imply=False)
    except xmlmodel.ReadError as ex:
        raise core.Violation("exported file cannot be read: %s" % ex)
    except OSError as ex:
        raise core.Violation("exported file cannot be opened: %s" % ex)


def corpus():
    """Example documents of the repository that lie in the supported domain."""
    out = []
    for p in sorted(glob.glob(os.path.join(core.REPO, "tests", "**", "*.bpmn"), recursive=True)):
        if os.sep + "output" + os.sep in p:
            continue
        try:
            n = xmlmodel.read(p)
        except Exception:
            continue
        if supported(n):
            out.append(p)
    return out


def with_stress():
    """The example documents and documents of unusual size and depth."""
    return corpus() + stress.listing()


def resolve(ctx, path):
    """Path of a fixed document; stress documents are written to a scratch file."""
    if not path.startswith("stress:"):
        return path
    ctx.count("stress_documents")
    return put(ctx, stress.data(path))


def supported(n):
    if n["dups"] or n["diagram"] is None or n["plane"] is None or not n["processes"]:
        return False
    if [u for u in n["unknown"] if u in CONNECTABLE]:
        return False
    ends = set(n["nodes"])
    pairs = [(f["source"], f["target"]) for f in n["flows"].values()]
    if any(a not in ends or b not in ends for a, b in pairs):
        return False
    if n["collab"]:
        both = ends | set(n["collab"]["participants"])
        mp = [(f["source"], f["target"]) for f in n["collab"]["msgflows"].values()]
        if any(a not in both or b not in both for a, b in mp):
            return False
        pairs += mp
    known = set(n["flows"])
    for d in n["nodes"].values():
        for k in ("incoming", "outgoing"):
            if [x for x in d[k] if x not in known and not (n["collab"] and x in n["collab"]["msgflows"])]:
                return False
        if any(t not in [x + "EventDefinition" for x in xmlmodel.EVDEFS.get(d["kind"], [])] for t, _ in d["evdefs"]):
            return False
    return len(set(pairs)) == len(pairs)


CONNECTABLE = {"scriptTask", "sendTask", "receiveTask", "businessRuleTask", "callActivity", "transaction",
               "adHocSubProcess", "callChoreography"}


def drop_foreign(n):
    """Leaves out diagram interchange data of elements the library does not represent (artifacts and the like)."""
    lanes = set()

    def walk(ls):
        if ls:
            for ln in ls["lanes"]:
                lanes.add(ln["id"])
                walk(ln["child"])
    for p in n["processes"].values():
        walk(p["laneset"])
    parts = set(n["collab"]["participants"]) if n["collab"] else set()
    msgs = set(n["collab"]["msgflows"]) if n["collab"] else set()
    n["shapes"] = {k: v for k, v in n["shapes"].items() if k in n["nodes"] or k in lanes or k in parts}
    n["edges"] = {k: v for k, v in n["edges"].items() if k in n["flows"] or k in msgs}
    n["unknown"] = []
    for d in n["nodes"].values():
        for k in ("incoming", "outgoing"):
            d[k] = [x for x in d[k] if x not in msgs]
    return n


def roundtrip_case(ctx, rng, focus, compare):
    """import -> export -> read; then the exported file goes round once more."""
    m, data = document(ctx, rng, focus, lex=0.35)
    exp = note(ctx, m, data)
    generations(ctx, put(ctx, data), exp, compare, 2 if rng.random() < 0.4 else 1)


def generations(ctx, path, exp, compare, n):
    for k in range(n):
        g = load(ctx, path)
        path = export(ctx, g)
        got = read(ctx, path)
        got["unknown"] = [u for u in got["unknown"]]
        compare(ctx, exp, got, "export" if k == 0 else "second export")
        ctx.count("files_compared")
        if k == 0 and n > 1:
            # a nameless flow may have received its condition as name
            for i, f in exp["flows"].items():
                if not f["name"]:
                    f["name"] = got["flows"].get(i, f)["name"]


def corpus_case(ctx, path, compare):
    ctx.input("file", path)
    ctx.seen(path)
    path = resolve(ctx, path)
    exp = drop_foreign(xmlmodel.read(path))
    ctx.count("corpus_files")
    generations(ctx, path, exp, compare, 2)
