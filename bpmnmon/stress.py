"""Documents of unusual size or depth, named 'stress:<what>'. Used as fixed cases next to the repository's example files."""
import random

from . import text, xmlmodel

NAMES = ["deep-sub", "deep-lanes", "wide", "processes", "evdefs", "waypoints", "names", "star", "lanes-wide", "pools"]


def node(i, kind="task", **kw):
    n = {"t": "node", "kind": kind, "id": i, "name": "n " + i, "attrs": {}, "incoming": [], "outgoing": []}
    if kind in xmlmodel.EVDEFS:
        n["evdefs"] = []
    n.update(kw)
    return n


def flow(i, a, b, **kw):
    return dict({"t": "flow", "id": i, "source": a, "target": b}, **kw)


def chain(prefix, n):
    out = [node("%s%d" % (prefix, k)) for k in range(n)]
    return out + [flow("%sf%d" % (prefix, k), "%s%d" % (prefix, k), "%s%d" % (prefix, k + 1)) for k in range(n - 1)]


def model(name):
    rng = random.Random(name)
    g = xmlmodel.Gen(rng, di="full")
    procs, collab = [], None
    if name == "deep-sub":
        kids = [node("inner"), node("inner2"), flow("fi", "inner", "inner2")]
        for d in range(45, 0, -1):
            kids = [node("t%d" % d), node("s%d" % d, "subProcess", children=kids), flow("f%d" % d, "t%d" % d, "s%d" % d)]
        procs.append({"id": "P", "children": kids})
    elif name == "deep-lanes":
        kids = [node("t%d" % k) for k in range(6)]
        ls = {"id": "ls_end", "lanes": [{"id": "l_end", "name": "x", "refs": ["t%d" % k for k in range(6)]}]}
        for d in range(40, 0, -1):
            ls = {"id": "ls%d" % d, "lanes": [{"id": "la%d" % d, "name": "a%d" % d, "refs": ["t%d" % (d % 6)]},
                                              {"id": "lb%d" % d, "name": "b%d" % d, "refs": ["t1", "t0"], "child": ls}]}
        procs.append({"id": "P", "children": kids, "laneset": ls})
    elif name == "wide":
        procs.append({"id": "P", "children": chain("t", 420)})
    elif name == "processes":
        for k in range(60):
            procs.append({"id": "P%d" % (59 - k), "name": "p%d" % k, "children": chain("p%d_" % k, k % 4 + 1)})
    elif name == "evdefs":
        kinds = ["startEvent", "intermediateCatchEvent", "endEvent", "intermediateThrowEvent"]
        procs.append({"id": "P", "children": [
            node("e%d" % k, kinds[k % 4], evdefs=[{"type": xmlmodel.EVDEFS[kinds[k % 4]][(j * 7 + k) % len(xmlmodel.EVDEFS[kinds[k % 4]])] + "EventDefinition",
                                                   "id": "d%d_%d" % (k, j)} for j in range(40)]) for k in range(8)]})
    elif name == "waypoints":
        procs.append({"id": "P", "children": chain("t", 3)})
    elif name == "names":
        kids = chain("t", 4)
        for k, c in enumerate(kids):
            c["name"] = "".join(rng.choice("abc &<>\"'ąß漢🚀") for _ in range(30000 + k))
        kids[-1]["cond"] = {"id": "c", "text": "x" * 70000 + " & y"}
        procs.append({"id": "P", "name": "long " * 5000, "children": kids})
    elif name == "star":
        kids = [node("hub", "inclusiveGateway")] + [node("t%d" % k) for k in range(150)]
        fl = [flow("o%d" % k, "hub", "t%d" % k) for k in range(150)] + [flow("i%d" % k, "t%d" % k, "hub") for k in range(150)]
        rng.shuffle(fl)
        kids[0]["outgoing"] = ["o%d" % k for k in range(149, -1, -1)]
        kids[0]["attrs"]["default"] = "o77"
        procs.append({"id": "P", "children": kids + fl})
    elif name == "lanes-wide":
        kids = [node("t%d" % k) for k in range(80)]
        procs.append({"id": "P", "children": kids, "laneset": {"id": "ls", "lanes": [
            {"id": "l%d" % k, "name": "lane", "refs": ["t%d" % j for j in range(79, -1, -1) if j % 40 == k]} for k in range(40)]}})
    elif name == "pools":
        parts, msgs = [], []
        for k in range(40):
            procs.append({"id": "P%d" % k, "children": chain("p%d_" % k, 2)})
            parts.append({"id": "pool%d" % k, "name": "pool", "processRef": "P%d" % k})
            parts.append({"id": "box%d" % k, "name": "box %d" % k})
        for k in range(39):
            msgs.append({"id": "m%d" % k, "name": "m", "source": "p%d_1" % k, "target": "p%d_0" % (k + 1)})
            msgs.append({"id": "r%d" % k, "name": "", "source": "box%d" % (k + 1), "target": "p%d_0" % k})
        parts.reverse()
        collab = {"id": "C", "participants": parts, "msgflows": msgs}
    m = {"processes": procs, "collab": collab, "diagram": {"id": "dia", "name": "d"},
         "plane": {"id": "pl", "bpmnElement": "C" if collab else procs[0]["id"]}}
    g.make_di(m)
    if name == "waypoints":
        for e in m["edges"]:
            e["wps"] = [(text.coord(rng), text.coord(rng)) for _ in range(4000)]
    return m


def listing():
    return ["stress:" + n for n in NAMES]


def data(name):
    return xmlmodel.write(model(name.split(":")[1]), xmlmodel.Lex())
