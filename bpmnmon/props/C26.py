"""C26: longest path metrics return a longest path."""
from .. import blockproc, csvwork, laywork, objview, sources, xmlwork

RULE = ("Small diagrams of every topology (trees, layered, dense, cyclic, several components and processes, no start or no end) and "
        "origin are measured; all simple paths are enumerated over an independent edge list, and the returned path must be one of "
        "them and of the greatest length, its entries the current nodes. Non-trivial: at least two flows; distinct by topology and order.")
ASSUMPTIONS = ["an empty path is returned if no path from a start to an end exists"]
COUNT = {"quick": 6000, "thorough": 290000}
MIN = {"cases": 500, "measured": 1000, "cyclic": 200, "several_starts": 100, "no_path": 30, "paths": 5000}
LIMIT = 600


class Big(Exception):
    pass


def paths(succ, starts):
    """All simple paths from the starts (every prefix), up to LIMIT."""
    out = []

    def walk(p):
        out.append(tuple(p))
        if len(out) > LIMIT:
            raise Big()
        for b in succ[p[-1]]:
            if b not in p:
                walk(p + [b])
    for s in starts:
        walk([s])
    return out


def measure(ctx, g):
    from bpmn_python import diagram_layout_metrics as lm
    C = objview.consts()
    kinds = {i: d.get(C.type) for i, d in g.diagram_graph.nodes(data=True)}
    succ = {i: [] for i in kinds}
    ins = {i: 0 for i in kinds}
    for a, b in g.diagram_graph.edges():
        succ[a].append(b)
        ins[b] += 1
    starts = [i for i in kinds if not ins[i]]
    try:
        allp = paths(succ, starts)
    except Big:
        return False
    ctx.count("paths", len(allp))
    ctx.counters["several_starts"] += len(starts) > 1

    def entries(res, what):
        ctx.check(len(res) == 2, "%s returned %r", what, res)
        path, n = res
        path = list(path)
        ctx.equal(len(path), n, "length returned by " + what)
        for e in path:
            ctx.check(len(e) == 2 and g.diagram_graph.has_node(e[0]), "%s: %r is not a node", what, e)
            ctx.check(dict(e[1]) == dict(g.diagram_graph.node[e[0]]), "%s: attributes of %s are not the current ones", what, e[0])
        return tuple(e[0] for e in path)
    full = [p for p in allp if not succ[p[-1]]]
    got = entries(ctx.run("compute_longest_path", lm.compute_longest_path, g), "compute_longest_path")
    best = max([len(p) for p in full] or [0])
    ctx.equal(best, len(got), "number of nodes of the longest path (%s)" % (got,))
    if full:
        ctx.check(got in set(full), "compute_longest_path: %s is not a path from a start to an end", got)
    else:
        ctx.count("no_path")
    got = entries(ctx.run("compute_longest_path_tasks", lm.compute_longest_path_tasks, g), "compute_longest_path_tasks")
    acts = {tuple(i for i in p if kinds[i] in ("task", "subProcess")) for p in allp}
    best = max([len(p) for p in acts] or [0])
    ctx.equal(best, len(got), "number of tasks on the longest task path (%s)" % (got,))
    if acts:
        ctx.check(got in acts, "compute_longest_path_tasks: %s are not the tasks of a path", got)
    ctx.count("measured")
    return True


def case(ctx, i, rng):
    r = rng.random()
    if r < 0.7:
        n, e, kind = laywork.shape(rng, rng.random() < 0.5)
        if len(e) > 30 or n > 20:
            e = e[:rng.randint(5, 20)]
        g = objview.obj(ctx)
        g.create_new_diagram_graph("paths")
        ps = [g.add_process_to_diagram("p") for _ in range(rng.choice([1, 1, 3]))]
        order = list(range(n))
        rng.shuffle(order)
        style = rng.choice([lambda k: None, lambda k: "n%d" % k])
        few = rng.choice([0, 1, 1])         # several nodes alike
        ids = {}
        for k in order:
            p = rng.choice(ps)
            if few and rng.random() < 0.5:
                ids[k] = g.add_task_to_diagram(p, "", node_id=style(k))[0]
            else:
                ids[k] = laywork.node(g, rng, p, k, False, style)
        for a, b in e:
            g.add_sequence_flow_to_diagram(rng.choice(ps), ids[a], ids[b], "")
        ctx.count("topology:" + kind)
        ctx.seen((n, tuple(e), tuple(order)), len(e) > 1)
        ctx.sample({"nodes": n, "topology": kind, "flows": e[:25]})
    elif r < 0.8:
        g = objview.obj(ctx)
        b = blockproc.process(rng, size=rng.choice([3, 6]))
        b.build(g)
        ctx.seen(b.fingerprint())
    elif r < 0.9:
        g, m, _ = sources.from_xml(ctx, rng, collab=rng.random() < 0.4, size=rng.choice([2, 4, 6]))
        ctx.seen(tuple(g.diagram_graph.nodes()), len(g.diagram_graph.edges()) > 1)
    else:
        g, sh, _ = sources.from_csv(ctx, rng)
        ctx.seen(sh.fingerprint())
    ctx.input("diagram", {"nodes": [[k, d.get("type")] for k, d in g.diagram_graph.nodes(data=True)],
                          "flows": [[a, b] for a, b in g.diagram_graph.edges()]})
    if not laywork.acyclic(g):
        ctx.count("cyclic")
    if not measure(ctx, g):
        ctx.count("too_many_paths")
        return
    if rng.random() < 0.2:
        sources.extend(ctx, rng, g, 3)
        measure(ctx, g)


def FIXED():
    return ["deep"] + xmlwork.corpus()


def deep(ctx):
    """A path of 1001 nodes: the recursion of the search is deeper than the interpreter allows (known finding)."""
    from bpmn_python import diagram_layout_metrics as lm
    g = objview.new()
    g.create_new_diagram_graph("deep")
    p = g.add_process_to_diagram("p")
    ids = [g.add_task_to_diagram(p, "t")[0] for k in range(1001)]
    for a, b in zip(ids, ids[1:]):
        g.add_sequence_flow_to_diagram(p, a, b, "")
    try:
        path, n = lm.compute_longest_path(g)
    except RecursionError:
        ctx.known("deep-recursion", "the longest path of a sequence of 1001 tasks is not found (RecursionError)")
        return
    ctx.equal(ids, [e[0] for e in path], "longest path of a sequence of 1001 tasks")


def fixed_case(ctx, path, rng):
    if path == "deep":
        return deep(ctx)
    ctx.input("file", path)
    ctx.seen(path)
    measure(ctx, xmlwork.load(ctx, path))
