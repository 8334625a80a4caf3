"""Reads a live diagram object into the same normal form as xmlmodel.read/norm, through its documented fields."""
from . import xmlmodel


def consts():
    from bpmn_python.bpmn_python_consts import Consts
    return Consts


def new():
    from bpmn_python.bpmn_diagram_rep import BpmnDiagramGraph
    return BpmnDiagramGraph()


def obj(ctx, share=0.08, restart=True):
    """A diagram object to work on: mostly a new one, sometimes one that has been used for another process and restarted; for an
    import, which replaces the diagram, not always restarted."""
    if ctx.aux is None or ctx.aux.random() >= share:
        return new()
    ctx.count("reused_objects")
    if not restart and ctx.aux.random() < 0.6:
        ctx.count("imports_into_objects_in_use")
        return used(ctx, ctx.aux, False)
    return used(ctx, ctx.aux)


def used(ctx, rng, restart=True):
    """An object that held another process - with ids the workloads use as well -, was laid out, queried, measured and exported, and
    was then restarted. What it returned is the business of other properties."""
    from bpmn_python import bpmn_diagram_layouter as lay
    from . import ops
    if rng.random() < 0.4:
        g = held(ctx, rng)
    else:
        g = built(rng)
    jobs = list(ops.table(g, rng, ctx.dir(), png=False).values())
    rng.shuffle(jobs)
    jobs = jobs[:rng.choice([3, 10, len(jobs)])]
    if rng.random() < 0.6:
        jobs.append(lay.generate_layout)
    for f in jobs:
        try:
            f(g)
        except Exception:
            pass
    if restart:
        g.create_new_diagram_graph("")
    return g


def built(rng):
    g = new()
    g.create_new_diagram_graph("other")
    p = g.add_process_to_diagram("other")
    n = rng.randint(2, 8)
    style = rng.choice([lambda k: "n%d" % k, lambda k: str(k)])
    adds = [g.add_task_to_diagram, g.add_subprocess_to_diagram, g.add_exclusive_gateway_to_diagram,
            g.add_parallel_gateway_to_diagram, g.add_inclusive_gateway_to_diagram]
    ids = []
    for k in range(n):
        f = g.add_start_event_to_diagram if k == 0 else g.add_end_event_to_diagram if k == n - 1 else rng.choice(adds)
        ids.append(f(p, "x%d" % k, node_id=style(k))[0])
    for k in range(1, n):
        g.add_sequence_flow_to_diagram(p, ids[k - 1 if rng.random() < 0.7 else rng.randrange(k)], ids[k], "f%d" % k)
    return g


def held(ctx, rng):
    """An object into which a document with several processes, pools and message flows was imported."""
    import os
    kw = dict(collab=True) if rng.random() < 0.8 else {}
    data = xmlmodel.write(xmlmodel.Gen(rng, size=rng.choice([2, 4, 8]), **kw).model(), xmlmodel.Lex())
    p = os.path.join(ctx.dir(), "held.bpmn")
    with open(p, "wb") as f:
        f.write(data)
    g = new()
    try:
        g.load_diagram_from_xml_file(p)
    except Exception:
        pass
    ctx.count("objects_that_held_a_document")
    return g


def dec(v):
    try:
        return float(str(v).strip())
    except Exception:
        return v


ATTR_CONST = {"default": "default", "triggeredByEvent": "triggered_by_event", "isCollection": "is_collection",
              "gatewayDirection": "gateway_direction", "instantiate": "instantiate",
              "eventGatewayType": "event_gateway_type", "parallelMultiple": "parallel_multiple",
              "isInterrupting": "is_interrupting", "cancelActivity": "cancel_activity",
              "attachedToRef": "attached_to_ref"}


def is_participant(d, C):
    return d.get(C.type) == C.participant


def view(g):
    C = consts()
    out = {"processes": {}, "nodes": {}, "flows": {}, "collab": None, "shapes": {}, "edges": {}, "dups": [],
           "unknown": [], "diagram": None, "plane": None}

    def shape(elem, d, exp=False, hor=False):
        if C.x in d or C.width in d:
            out["shapes"].setdefault(elem, []).append(
                {"x": dec(d.get(C.x)), "y": dec(d.get(C.y)), "w": dec(d.get(C.width)), "h": dec(d.get(C.height)),
                 "isExpanded": d.get(C.is_expanded) or "" if exp else "",
                 "isHorizontal": d.get(C.is_horizontal) or "" if hor else ""})

    def lanes(ls):
        res = {"id": ls.get(C.id) or "", "lanes": []}
        for lid, ln in ls[C.lanes].items():
            ch = ln.get(C.child_lane_set)
            res["lanes"].append({"id": lid, "name": ln.get(C.name) or "", "refs": list(ln.get(C.flow_node_refs) or []),
                                 "child": lanes(ch) if ch else None})
            shape(lid, ln, hor=True)
        return res
    for pid, p in g.process_elements.items():
        q = {a: p.get(getattr(C, n)) for a, n in (("name", "name"), ("isClosed", "is_closed"),
                                                  ("isExecutable", "is_executable"), ("processType", "process_type"))}
        q["laneset"] = lanes(p[C.lane_set]) if p.get(C.lane_set) else None
        out["processes"][pid] = q
    for nid, d in g.diagram_graph.nodes(data=True):
        if is_participant(d, C):
            continue
        kind = d.get(C.type)
        attrs = {}
        for a, (dflt, _) in xmlmodel.ATTRS.get(kind, {}).items():
            attrs[a] = d.get(getattr(C, ATTR_CONST[a]), dflt)
        if kind not in xmlmodel.ATTRS:
            out["unknown"].append("node %s of kind %r" % (nid, kind))
        out["nodes"][nid] = {"kind": kind, "name": d.get(C.node_name), "container": d.get(C.process), "attrs": attrs,
                             "incoming": list(d.get(C.incoming_flow) or []),
                             "outgoing": list(d.get(C.outgoing_flow) or []),
                             "evdefs": [(e.get(C.definition_type), e.get(C.id) or "")
                                        for e in d.get(C.event_definitions) or []]}
        shape(nid, d, exp=kind == "subProcess")
    collab = g.collaboration
    msg = {}
    if collab:
        msg = collab.get(C.message_flows) or {}
        parts = collab.get(C.participants) or {}
        out["collab"] = {"id": collab.get(C.id) or "",
                         "participants": {i: {"name": p.get(C.name) or "", "processRef": p.get(C.process_ref) or ""}
                                          for i, p in parts.items()},
                         "msgflows": {}}
        for i, p in parts.items():
            shape(i, p, hor=True)
    for a, b, d in g.diagram_graph.edges(data=True):
        fid = d.get(C.id)
        if fid in msg:
            if out["collab"]["msgflows"].get(fid):
                out["dups"].append("message flow edge " + str(fid))
            out["collab"]["msgflows"][fid] = {"name": d.get(C.name) or "", "source": a, "target": b}
        else:
            if fid in out["flows"]:
                out["dups"].append("flow edge " + str(fid))
            c = d.get(C.condition_expression)
            cond = (c.get(C.id) or "", c.get(C.condition_expression)) if c is not None else None
            out["flows"][fid] = {"container": d.get(C.process), "source": a, "target": b, "name": d.get(C.name) or "",
                                 "cond": cond}
        if C.waypoints in d:
            out["edges"].setdefault(fid, []).append([(dec(x), dec(y)) for x, y in d[C.waypoints]])
    out["diagram"] = {"id": g.diagram_attributes.get(C.id) or "", "name": g.diagram_attributes.get(C.name) or ""}
    out["plane"] = {"id": g.plane_attributes.get(C.id) or "", "bpmnElement": g.plane_attributes.get(C.bpmn_element) or ""}
    return out


def tables(g):
    """The redundant flow tables, for consistency monitors."""
    C = consts()
    seq = {i: (f.get(C.source_ref), f.get(C.target_ref), f.get(C.name)) for i, f in g.sequence_flows.items()}
    msg = {}
    if g.collaboration:
        for i, f in (g.collaboration.get(C.message_flows) or {}).items():
            msg[i] = (f.get(C.source_ref), f.get(C.target_ref), f.get(C.name))
    return seq, msg
