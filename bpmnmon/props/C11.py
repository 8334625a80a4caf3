"""C11: queries return exactly the matching elements."""
import collections

from .. import build, core, objview, sources, text, xmlmodel, xmlwork

RULE = ("Diagrams of every origin (building histories, imported documents and sheets, extended imports, laid out ones) are queried by "
        "every kind, process and id that occurs and by unknown ones (prefixes, suffixes, other case, ids of other element types). "
        "Answers are compared with the graph itself and with the independent model the diagram was made from; element attributes "
        "are changed in between, and queries must show the current values. Non-trivial: at least two nodes; distinct by content.")
ASSUMPTIONS = ["black box pools may appear as nodes of kind participant"]
COUNT = {"quick": 8000, "thorough": 450000}
MIN = {"cases": 200, "queries": 20000, "unknown_queries": 5000, "origin:xml": 50, "origin:csv": 50, "origin:api": 50, "queries_after_restart": 50, "queries_after_change": 50}
KINDS = list(xmlmodel.KINDS) + ["participant"]


def reference(ctx, rng):
    """A diagram and an independent idea of its nodes {id: (kind, container)} and sequence flows {id: (a, b, container)}."""
    r = rng.random()
    if r < 0.45:
        b = sources.built(ctx, rng)
        ctx.seen(b.fingerprint(), len(b.sh.nodes) > 1)
        ctx.sample(b.describe())
        nodes, flows, procs = b.sh.nodes, b.sh.flows, list(b.sh.processes)
        g = b.g
    elif r < 0.8:
        m, data = xmlwork.document(ctx, rng, rng.choice(["nodes", "flows", "containers", "di"]), lex=0.2)
        n = xmlwork.note(ctx, m, data)
        g = xmlwork.load(ctx, xmlwork.put(ctx, data))
        nodes, flows, procs = n["nodes"], n["flows"], list(n["processes"])
        ctx.count("origin:xml")
    else:
        g, sh, _ = sources.from_csv(ctx, rng)
        ctx.seen(sh.fingerprint(), len(g.diagram_graph) > 1)
        return g, None, None, list(g.process_elements)
    return g, {i: (d["kind"], d["container"]) for i, d in nodes.items()}, \
        {i: (f["source"], f["target"], f["container"]) for i, f in flows.items()}, procs


def ids(ctx, res, g, what):
    """Ids of an answer of (id, attributes) pairs, each once and with the current attributes."""
    out = []
    for n in res:
        ctx.check(len(n) == 2, "%s: entry %s is not a pair of id and attributes", what, core.short(n))
        i, d = n
        ctx.check(g.diagram_graph.has_node(i), "%s: %r is not a node", what, i)
        ctx.check(dict(d) == dict(g.diagram_graph.node[i]), "%s: attributes of %s are not the current ones", what, i)
        out.append(i)
    ctx.check(len(set(out)) == len(out), "%s: repeated %s", what, [k for k, c in collections.Counter(out).items() if c > 1])
    return out


def mangle(rng, v):
    return rng.choice([v + " ", " " + v, v[:-1], v[1:], v + "0", v.upper(), v.lower(), v.swapcase(), v * 2])


def queries(ctx, rng, g, nodes, flows, procs):
    C = objview.consts()
    data = dict(g.diagram_graph.nodes(data=True))
    edges = list(g.diagram_graph.edges(data=True))

    def q(what, fn, *a):
        ctx.count("queries")
        return ctx.run(what, fn, *a)
    # by kind
    allids = ids(ctx, q("get_nodes()", g.get_nodes), g, "get_nodes()")
    ctx.equal(sorted(allids), sorted(data), "get_nodes()")
    if nodes is not None:
        ctx.equal(sorted(nodes), sorted(i for i in allids if data[i].get(C.type) != "participant"), "all nodes of the model")
    got = []
    for k in KINDS:
        res = ids(ctx, q("get_nodes(%s)" % k, g.get_nodes, k), g, "get_nodes(%s)" % k)
        exp = [i for i, d in data.items() if d.get(C.type) == k]
        ctx.equal(sorted(exp), sorted(res), "get_nodes(%s)" % k)
        if nodes is not None and k != "participant":
            ctx.equal(sorted(i for i, n in nodes.items() if n[0] == k), sorted(res), "get_nodes(%s) by the model" % k)
        l = q("get_nodes_id_list_by_type(%s)" % k, g.get_nodes_id_list_by_type, k)
        ctx.equal(sorted(exp), sorted(l), "get_nodes_id_list_by_type(%s)" % k)
        got += res
    ctx.equal(sorted(allids), sorted(got), "nodes of all kinds together")
    for k in [mangle(rng, rng.choice(KINDS)) for _ in range(3)] + ["event", "Task", "gateway", "Gateway", "sequenceFlow"]:
        if k in KINDS or k == "":
            continue
        ctx.count("unknown_queries")
        ctx.equal([], list(q("get_nodes(%s)" % k, g.get_nodes, k)), "get_nodes of unknown kind %s" % k)
        ctx.equal([], list(q("get_nodes_id_list_by_type(%s)" % k, g.get_nodes_id_list_by_type, k)),
                  "ids of unknown kind %s" % k)
    # by process
    conts = {d.get(C.process) for d in data.values()} | set(procs) | {e[2][C.process] for e in edges if C.process in e[2]}
    for p in conts:
        res = ids(ctx, q("get_nodes_list_by_process_id", g.get_nodes_list_by_process_id, p), g, "nodes of process %s" % p)
        ctx.equal(sorted(i for i, d in data.items() if d.get(C.process) == p), sorted(res), "nodes of process %s" % p)
        if nodes is not None:
            ctx.equal(sorted(i for i, n in nodes.items() if n[1] == p),
                      sorted(i for i in res if data[i].get(C.type) != "participant"), "nodes of process %s by the model" % p)
        res = list(q("get_flows_list_by_process_id", g.get_flows_list_by_process_id, p))
        check_flows(ctx, g, res, [e for e in edges if e[2].get(C.process) == p], "flows of process %s" % p)
        if flows is not None:
            ctx.equal(sorted(i for i, f in flows.items() if f[2] == p), sorted(e[2].get(C.id) for e in res),
                      "flows of process %s by the model" % p)
    for p in [mangle(rng, rng.choice(sorted(map(str, conts)))) if conts else "x", "", "nosuch"] + list(data)[:2]:
        if p in conts:
            continue
        ctx.count("unknown_queries")
        ctx.equal([], list(q("get_nodes_list_by_process_id", g.get_nodes_list_by_process_id, p)), "nodes of unknown process")
        ctx.equal([], list(q("get_flows_list_by_process_id", g.get_flows_list_by_process_id, p)), "flows of unknown process")
    # by id
    for i in data:
        n = q("get_node_by_id", g.get_node_by_id, i)
        ctx.check(n is not None and n[0] == i and dict(n[1]) == dict(data[i]), "get_node_by_id(%r) returned %s", i,
                  core.short(n))
    fids = {e[2].get(C.id): e for e in edges}
    for i, e in fids.items():
        f = q("get_flow_by_id", g.get_flow_by_id, i)
        ctx.check(f is not None and (f[0], f[1]) == e[:2] and dict(f[2]) == dict(e[2]), "get_flow_by_id(%r) returned %s", i,
                  core.short(f))
        if flows is not None and i in flows:
            ctx.equal(flows[i][:2], (f[0], f[1]), "ends of flow %s" % i)
    if flows is not None:
        for i in flows:
            ctx.check(i in fids, "flow %s of the model cannot be found", i)
    other = ["", "nosuch"] + [mangle(rng, str(rng.choice(list(data)))) for _ in range(4) if data] + \
        [mangle(rng, str(rng.choice(list(fids)))) for _ in range(4) if fids]
    for i in other + list(fids)[:3] + list(procs):
        if i not in data:
            ctx.count("unknown_queries")
            ctx.equal(None, q("get_node_by_id", g.get_node_by_id, i), "get_node_by_id of unknown id %r" % i)
    for i in other + list(data)[:3] + list(procs):
        if i not in fids:
            ctx.count("unknown_queries")
            ctx.equal(None, q("get_flow_by_id", g.get_flow_by_id, i), "get_flow_by_id of unknown id %r" % i)
    # all flows
    check_flows(ctx, g, list(q("get_flows", g.get_flows)), edges, "get_flows()")
    # positions
    pos = q("get_nodes_positions", g.get_nodes_positions)
    ctx.equal(sorted(i for i, d in data.items() if C.x in d), sorted(pos), "nodes with positions")
    for i, p in pos.items():
        ctx.check(len(p) == 2 and all(isinstance(v, (int, float)) for v in p), "position of %s is %r", i, p)
        ctx.equal((float(data[i][C.x]), float(data[i][C.y])), tuple(p), "position of %s" % i)


def check_flows(ctx, g, res, exp, what):
    C = objview.consts()
    ctx.equal(sorted((a, b) for a, b, _ in exp), sorted((a, b) for a, b, _ in res), what)
    for a, b, d in res:
        ctx.check(dict(d) == dict(g.diagram_graph[a][b]), "%s: attributes of %s -> %s are not the current ones", what, a, b)


def case(ctx, i, rng):
    g, nodes, flows, procs = reference(ctx, rng)
    queries(ctx, rng, g, nodes, flows, procs)
    if rng.random() < 0.3:
        sources.extend(ctx, rng, g)
        queries(ctx, rng, g, None, None, list(g.process_elements))
    if rng.random() < 0.3 and len(g.diagram_graph):
        # the user changes attributes of stored elements: later queries show the current values
        C = objview.consts()
        n = rng.choice(list(g.diagram_graph.nodes()))
        d = ctx.run("get_node_by_id", g.get_node_by_id, n)[1]
        d[C.node_name] = text.name(rng)
        d[C.x], d[C.y] = str(rng.randrange(900)), str(rng.randrange(900) / 4.0)
        if d.get(C.type) in ("task", "userTask", "manualTask", "serviceTask"):
            d[C.type] = rng.choice(["task", "userTask", "manualTask", "serviceTask"])
        ctx.equal(d[C.node_name], g.get_node_by_id(n)[1][C.node_name], "name of a renamed node")
        queries(ctx, rng, g, None, None, list(g.process_elements))
        ctx.count("queries_after_change")


    if rng.random() < 0.3:
        # a new diagram in the same object, often with the same ids or as many elements: nothing of the old one is found
        n, old, edges = len(g.diagram_graph), list(g.diagram_graph.nodes()), g.diagram_graph.number_of_edges()
        b = build.Builder(ctx, rng, g=g).start(1)
        while len(g.diagram_graph) < min(n, 25):
            b.add_node()
        for _ in range(4 * min(edges, 25)):
            if g.diagram_graph.number_of_edges() < min(edges, 25):
                b.add_flow()
        sh = b.sh
        queries(ctx, rng, g, {i: (d["kind"], d["container"]) for i, d in sh.nodes.items()},
                {i: (f["source"], f["target"], f["container"]) for i, f in sh.flows.items()}, list(sh.processes))
        for i in old[:5]:
            if i not in sh.nodes:
                ctx.equal(None, ctx.run("get_node_by_id", g.get_node_by_id, i), "node of the discarded diagram")
        ctx.count("queries_after_restart")


def FIXED():
    return xmlwork.with_stress()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    path = xmlwork.resolve(ctx, path)
    n = xmlwork.drop_foreign(xmlmodel.read(path))
    g = xmlwork.load(ctx, path)
    queries(ctx, rng, g, {i: (d["kind"], d["container"]) for i, d in n["nodes"].items()},
            {i: (f["source"], f["target"], f["container"]) for i, f in n["flows"].items()}, list(n["processes"]))
