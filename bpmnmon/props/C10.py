"""C10: a rejected call leaves the diagram unchanged."""
import os

from .. import build, compare, core, objview, sources, text, xmlmodel, xmlwork

RULE = ("Random building histories (and imported diagrams) in which calls with an invalid gateway direction, sequence flows with an "
        "unknown source or target, nodes with the id of an existing node, flow or process and CSV exports of diagrams without exactly one start are injected. A monitor compares complete "
        "deep snapshots of the diagram object before and after each rejected call and the bytes of the existing output file; the "
        "history then goes on and the final diagram and export must equal the shadow model, which never saw the rejected calls. "
        "Non-trivial: at least one rejected call on a diagram with two nodes; distinct by call sequence and names.")
ASSUMPTIONS = ["the error may be of any exception type"]
COUNT = {"quick": 8000, "thorough": 450000}
MIN = {"cases": 200, "rejected:direction": 300, "rejected:flow": 300, "rejected:used_id": 200, "rejected:csv": 100, "later_exports": 100}


def guarded(ctx, g, what, fn, *args, **kw):
    """A call that must be refused, with the diagram unchanged afterwards."""
    before = core.snapshot(g)
    ctx.rejected(what, fn, *args, **kw)
    d = core.snapdiff(before, core.snapshot(g))
    ctx.check(d is None, "the rejected call %s changed the diagram: %s", what, d)


def bad_direction(ctx, rng, g, conts):
    d = rng.choice(build.BAD_DIRS)
    name = text.name(rng)
    nid = rng.choice([None, "new%d" % rng.randrange(1000), ""])
    if rng.random() < 0.15 and len(g.diagram_graph):
        nid = rng.choice(list(g.diagram_graph.nodes()))     # rejected although it names an existing node
    c = rng.choice(conts)
    kind = rng.choice(["gateway", "exclusive", "inclusive", "parallel"])
    if kind == "gateway":
        fn, kw = g.add_gateway_to_diagram, {"gateway_type": rng.choice(xmlmodel.GATEWAYS)}
    else:
        fn, kw = getattr(g, "add_%s_gateway_to_diagram" % kind), {}
        if kind != "parallel" and rng.random() < 0.4:
            kw["default"] = "f1"
    kw.update(process_id=c, gateway_name=name, gateway_direction=d)
    if nid is not None:
        kw["node_id"] = nid
    guarded(ctx, g, "%s with direction %r" % (fn.__name__, d), fn, **kw)
    ctx.count("rejected:direction")


def bad_flow(ctx, rng, g, conts):
    nodes = list(g.diagram_graph.nodes())
    unknown = ["nosuch", "", None, "id", 0] + [str(n) + " " for n in nodes[:3]] + [str(n)[:-1] for n in nodes[-3:]] + \
              [str(n).upper() + "x" for n in nodes[:2]] + list(g.sequence_flows)[:2] + list(g.process_elements)[:2]
    unknown = [u for u in unknown if not (u is not None and g.diagram_graph.has_node(u))]
    good = rng.choice(nodes) if nodes else "other"
    u = rng.choice(unknown)
    pair = rng.choice([(u, good), (good, u), (u, u), (u, rng.choice(unknown))])
    args = [rng.choice(conts), pair[0], pair[1]] + ([text.name(rng)] if rng.random() < 0.5 else [])
    guarded(ctx, g, "add_sequence_flow_to_diagram(%r, %r)" % pair, g.add_sequence_flow_to_diagram, *args)
    ctx.count("rejected:flow")


NODES = ["add_task_to_diagram", "add_subprocess_to_diagram", "add_start_event_to_diagram", "add_end_event_to_diagram",
         "add_exclusive_gateway_to_diagram", "add_inclusive_gateway_to_diagram", "add_parallel_gateway_to_diagram",
         "add_gateway_to_diagram", "add_flow_node_to_diagram"]


def used_id(ctx, rng, g, conts):
    """A new node with the id of a node, flow or process of the diagram."""
    pool = [list(g.diagram_graph.nodes()), list(g.sequence_flows), list(g.process_elements)]
    pool = [p for p in pool if p]
    if not pool:
        return False
    nid = rng.choice(rng.choice(pool))
    m = rng.choice(NODES)
    args = [rng.choice(conts)]
    if m == "add_gateway_to_diagram":
        args.append(rng.choice(xmlmodel.GATEWAYS))
    elif m == "add_flow_node_to_diagram":
        args.append(rng.choice(["task", "userTask", "serviceTask", "manualTask"]))
    args.append(text.name(rng))
    kw = {"node_id": nid}
    if m == "add_subprocess_to_diagram":
        kw.update(is_expanded=True, triggered_by_event=True)
    elif m == "add_start_event_to_diagram" and rng.random() < 0.5:
        kw["start_event_definition"] = "message"
    elif m == "add_end_event_to_diagram" and rng.random() < 0.5:
        kw["end_event_definition"] = "terminate"
    guarded(ctx, g, "%s with the used id %r" % (m, nid), getattr(g, m), *args, **kw)
    ctx.count("rejected:used_id")
    return True


def starts(g):
    """Nodes without incoming sequence flow, by the flow table."""
    C = objview.consts()
    targets = {f.get(C.target_ref) for f in g.sequence_flows.values()}
    return [n for n in g.diagram_graph.nodes() if n not in targets]


def bad_csv(ctx, rng, g):
    if len(starts(g)) == 1 or g.collaboration:
        return False
    d = ctx.dir()
    sub = rng.random() < 0.2
    name = "out.csv"
    old = rng.choice([b"", b"precious\n" * 50, b"Order,Activity,Condition,Who,Subprocess,Terminated\n0,a,,,,\n"])
    if sub:
        d = d + "deep" + os.sep
    else:
        with open(d + name, "wb") as f:
            f.write(old)
        st = os.stat(d + name)
    guarded(ctx, g, "export_csv_file with %d starts" % len(starts(g)), g.export_csv_file, d, name)
    if not sub:
        ctx.check(os.path.exists(d + name), "the refused CSV export removed the existing file")
        with open(d + name, "rb") as f:
            ctx.equal(old, f.read(), "existing file after a refused CSV export")
        ctx.equal([name], os.listdir(d), "files in the directory after a refused CSV export")
        ctx.equal(st.st_ino, os.stat(d + name).st_ino, "identity of the existing file after a refused CSV export")
    else:
        ctx.check(not os.path.exists(d + name), "the refused CSV export created a file")
    ctx.count("rejected:csv")
    return True


def inject(ctx, rng, g, conts):
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        if r < 0.4:
            bad_direction(ctx, rng, g, conts)
        elif r < 0.6:
            bad_flow(ctx, rng, g, conts)
        elif r < 0.75:
            if not used_id(ctx, rng, g, conts):
                bad_flow(ctx, rng, g, conts)
        elif not bad_csv(ctx, rng, g):
            bad_flow(ctx, rng, g, conts)


def case(ctx, i, rng):
    if rng.random() < 0.25:
        g, what = sources.any_diagram(ctx, rng)
        conts = list(g.process_elements) or ["p"]
        with_before = core.snapshot(g)
        for _ in range(4):
            inject(ctx, rng, g, conts)
        d = core.snapdiff(with_before, core.snapshot(g))
        ctx.check(d is None, "rejected calls changed the diagram: %s", d)
        xmlwork.read(ctx, xmlwork.export(ctx, g))
        ctx.count("later_exports")
        return
    b = build.Builder(ctx, rng).start()
    for _ in range(rng.choice([2, 4, 7])):
        b.history(rng.choice([1, 3, 6]))
        inject(ctx, rng, b.g, b.sh.containers())
    ctx.seen(b.fingerprint(), len(b.sh.nodes) >= 2)
    ctx.sample(b.describe())
    exp = b.sh.norm()
    got = objview.view(b.g)
    compare.nodes(ctx, exp, got, "diagram")
    compare.flows(ctx, exp, got, "diagram", cond_as_name=False)
    got = xmlwork.read(ctx, xmlwork.export(ctx, b.g))
    compare.nodes(ctx, exp, got, "later export")
    compare.flows(ctx, exp, got, "later export")
    compare.containers(ctx, exp, got, "later export")
    ctx.count("later_exports")
    if len(b.sh.nodes) and rng.random() < 0.3:
        layout(ctx, b.g)


def layout(ctx, g):
    from bpmn_python import bpmn_diagram_layouter as lay
    ctx.run("generate_layout", lay.generate_layout, g)
    ctx.count("later_layouts")


def FIXED():
    return [{"case": "empty"}]


def fixed_case(ctx, item, rng):
    """Nothing but rejected calls on an empty diagram."""
    b = build.Builder(ctx, rng)
    b.new_diagram()
    for _ in range(5):
        bad_direction(ctx, rng, b.g, ["p"])
        bad_flow(ctx, rng, b.g, ["p"])
        bad_csv(ctx, rng, b.g)
