"""One run over a directory of input files in an interpreter of its own: prints everything it produced as JSON (property C13)."""
import hashlib
import json
import os
import random
import sys

from . import core, objview, ops, xmlmodel


def produce(path, scratch, layout):
    """Everything a user can obtain from one input file: {what: text}."""
    g = objview.new()
    if path.endswith(".csv"):
        g.load_diagram_from_csv_file(path)
    else:
        g.load_diagram_from_xml_file(path)
    out = {}
    t = ops.table(g, random.Random(os.path.basename(path)), scratch, png=False)

    def record(tag):
        for name, fn in t.items():
            kind, v = ops.outcome(fn, g)
            out["%s %s" % (tag, name)] = kind + ":" + (v.decode("utf-8", "replace") if isinstance(v, bytes) else repr(v))
    record("imported")
    out["order of nodes"] = repr(list(g.diagram_graph.nodes()))
    out["order of flows"] = repr(list(g.sequence_flows))
    out["snapshot"] = repr(core.snapshot(g))
    if layout:
        from bpmn_python import bpmn_diagram_layouter as lay
        kind, v = ops.outcome(lambda d: lay.generate_layout(d), g)
        out["generate_layout"] = kind + ":" + (str(v) if kind == "error" else "")
        record("laid out")
        out["laid out snapshot"] = repr(core.snapshot(g))
    return out


def digest(out):
    return {k: hashlib.blake2b(v.encode("utf-8", "surrogatepass"), digest_size=16).hexdigest() for k, v in out.items()}


def main():
    """detrun <list.json> <scratch> <out.json>: list of [path, layout]"""
    with open(sys.argv[1]) as f:
        todo = json.load(f)
    sys.path.insert(0, core.REPO)
    res = {}
    for n, (path, layout) in enumerate(todo):
        s = os.path.join(sys.argv[2], "r%d" % n)
        os.mkdir(s)
        try:
            res[path] = produce(path, s, layout)
        except Exception as ex:
            res[path] = {"error": "%s: %s" % (type(ex).__name__, ex)}
    with open(sys.argv[3], "w", errors="surrogatepass") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
