"""Diagram-building workloads: random histories of building calls together with a shadow model of what they must do."""
from . import core, objview, text, xmlmodel

DIRS = xmlmodel.DIRS
START_DEFS = [None, "message", "timer", "conditional", "signal", "escalation"]
END_DEFS = [None, "terminate", "escalation", "message", "compensate", "signal", "error"]
BAD_DIRS = ["", "diverging", "CONVERGING", "Unspecified ", " Mixed", "Both", None, 0, True, "Diverging,Mixed", ("Mixed",),
            "Conv", "UnspecifiedConverging"]
GENERIC = ["task", "userTask", "serviceTask", "manualTask"]


class Shadow:
    """Expected content, in the normal form of xmlmodel (object view)."""

    def __init__(self):
        self.processes, self.nodes, self.flows = {}, {}, {}
        self.shapes, self.edges = {}, {}
        self.diagram_name = ""
        self.ids = set()
        self.collab = None

    def containers(self):
        return list(self.processes) + [i for i, n in self.nodes.items() if n["kind"] == "subProcess"]

    def norm(self):
        return {"processes": self.processes, "nodes": self.nodes, "flows": self.flows, "collab": self.collab,
                "shapes": self.shapes, "edges": self.edges, "dups": [], "unknown": []}


class Builder:
    """Performs random building calls on a real diagram and mirrors them in a shadow model.

    strict=True checks after every call that exactly the requested element was added (property C09).
    """

    def __init__(self, ctx, rng, g=None, strict=False, names=None, idstyle=None, subs=True, exportable=True,
                 explicit=0.4):
        self.ctx, self.rng, self.strict = ctx, rng, strict
        self.g = g if g is not None else objview.obj(ctx)
        self.sh = Shadow()
        self.names = names or (lambda: text.name(rng))
        self.ids = text.Ids(rng)
        self.explicit = explicit
        self.subs, self.exportable = subs, exportable
        self.pairs = set()
        self.calls = []
        self.hub = rng.random() < 0.06          # one node with many flows

    # -- arguments
    def node_id(self):
        r = self.rng
        if r.random() >= self.explicit:
            return None
        if r.random() < 0.06 and self.sh.ids:
            # the id a counting generator might produce next
            base = r.choice(sorted(self.sh.ids))
            k = len(base.rstrip("0123456789"))
            step = r.randint(1, 4)
            v = base[:k] + str(int(base[k:][-9:] or 0) + step)
            if v not in self.sh.ids and len(base[k:]) < 10:
                self.ctx.count("neighbour_ids")
                return v
        if r.random() < 0.04 and self.sh.ids:
            # an id that a generator of derived ids might produce
            v = r.choice(sorted(self.sh.ids)) + r.choice(["_gui", "_gui", "_di", "_gui_gui", "_shape", "_edge"])
            if v not in self.sh.ids:
                self.ctx.count("derived_ids")
                return v
        while True:
            v = self.ids.new("n") if r.random() < 0.8 else text.name(r, ws=True, empty=0) + str(r.randrange(1000))
            if v not in self.sh.ids:
                return v

    def call(self, meth, names, values, defaults):
        """Call meth with a mixture of positional and keyword arguments, leaving out defaults at random."""
        r = self.rng
        pos, kw, positional = [], {}, True
        for n, v in zip(names, values):
            if n in defaults and v == defaults[n] and type(v) is type(defaults[n]) and r.random() < 0.7:
                positional = False
                continue
            if positional and r.random() < 0.6:
                pos.append(v)
            else:
                positional = False
                kw[n] = v
        self.calls.append((meth, list(pos), dict(kw)))
        return self.ctx.run(meth + repr(tuple(core.short(str(x), 60) for x in pos)) + repr({k: core.short(str(x), 60) for k, x in kw.items()}),
                            getattr(self.g, meth), *pos, **kw)

    def new_diagram(self):
        name = self.names() if self.rng.random() < 0.7 else ""
        before = set(self.sh.ids)
        old = self.g.diagram_graph
        self.call("create_new_diagram_graph", ["diagram_name"], [name], {"diagram_name": ""})
        self.sh = Shadow()
        self.sh.ids = before          # ids stay unique over everything created so far
        self.sh.diagram_name = name
        self.pairs = set()
        if self.strict:
            C = objview.consts()
            self.ctx.check(len(self.g.diagram_graph) == 0 and not list(self.g.diagram_graph.edges()),
                           "a new diagram still has nodes or flows")
            self.ctx.check(not self.g.sequence_flows and not self.g.process_elements and not self.g.collaboration
                           and not self.g.plane_attributes, "a new diagram still has old content")
            self.ctx.equal(name, self.g.diagram_attributes.get(C.name), "name of the new diagram")
            self.fresh(self.g.diagram_attributes.get(C.id), "diagram")
            self.ctx.equal({C.id, C.name}, set(self.g.diagram_attributes), "attributes of the new diagram")
        else:
            self.fresh(self.g.diagram_attributes.get(objview.consts().id), "diagram")

    def fresh(self, i, what):
        self.ctx.check(isinstance(i, str) and i != "", "generated id of %s is %r", what, i)
        self.ctx.check(i not in self.sh.ids, "id %r of %s has been used before", i, what)
        self.sh.ids.add(i)

    def add_process(self):
        r = self.rng
        name, closed, exe, typ = self.names(), r.random() < 0.5, r.random() < 0.5, r.choice(["None", "Public", "Private"])
        if r.random() < 0.3:
            name, closed, exe, typ = "", False, False, "None"
        raw = self.raw()
        pid = self.call("add_process_to_diagram", ["process_name", "process_is_closed", "process_is_executable",
                                                   "process_type"], [name, closed, exe, typ],
                        {"process_name": "", "process_is_closed": False, "process_is_executable": False,
                         "process_type": "None"})
        self.fresh(pid, "process")
        self.sh.processes[pid] = {"name": name, "isClosed": "true" if closed else "false",
                                  "isExecutable": "true" if exe else "false", "processType": typ, "laneset": None}
        C = objview.consts()
        if self.strict:
            self.ctx.equal(pid, self.g.plane_attributes.get(C.bpmn_element), "element shown on the plane")
            self.unchanged(raw, set(), set(), {pid})
        pl = self.g.plane_attributes.get(C.id)
        if pl not in self.sh.ids:
            self.sh.ids.add(pl)
        return pid

    def pick_container(self):
        cs = self.sh.containers() if self.subs else list(self.sh.processes)
        return self.rng.choice(cs)

    def add_node(self, kind=None, cont=None):
        r = self.rng
        cont = cont or self.pick_container()
        choice = kind or r.choice(["task", "task", "subprocess", "start", "end", "gateway", "exclusive", "inclusive",
                                   "parallel", "generic"])
        name, nid = self.names(), self.node_id()
        if r.random() < 0.06:
            # a name that is something else elsewhere
            name = r.choice([nid or cont, cont, nid or name, r.choice(sorted(self.sh.nodes) or [name])])
            self.ctx.count("built:name_is_an_id")
        attrs, evdefs, exp = {}, [], None
        raw = self.raw()
        if choice == "task":
            res = self.call("add_task_to_diagram", ["process_id", "task_name", "node_id"], [cont, name, nid],
                            {"task_name": "", "node_id": None})
            k, attrs = "task", {"default": None}
        elif choice == "generic":
            k = r.choice(GENERIC)
            res = self.call("add_flow_node_to_diagram", ["process_id", "node_type", "name", "node_id"],
                            [cont, k, name, nid], {"node_id": None})
            attrs = {"default": None}
        elif choice == "subprocess":
            e, t = r.random() < 0.5, r.random() < 0.5
            res = self.call("add_subprocess_to_diagram", ["process_id", "subprocess_name", "is_expanded",
                                                          "triggered_by_event", "node_id"], [cont, name, e, t, nid],
                            {"is_expanded": False, "triggered_by_event": False, "node_id": None})
            k, attrs, exp = "subProcess", {"triggeredByEvent": "true" if t else "false", "default": None}, \
                "true" if e else "false"
        elif choice == "start":
            d, pm, ii = r.choice(START_DEFS), r.random() < 0.4, r.random() < 0.6
            res = self.call("add_start_event_to_diagram", ["process_id", "start_event_name", "start_event_definition",
                                                           "parallel_multiple", "is_interrupting", "node_id"],
                            [cont, name, d, pm, ii, nid],
                            {"start_event_name": "", "start_event_definition": None, "parallel_multiple": False,
                             "is_interrupting": True, "node_id": None})
            k, attrs = "startEvent", {"parallelMultiple": "true" if pm else "false", "isInterrupting": "true" if ii else "false"}
            evdefs = [d] if d else []
        elif choice == "end":
            d = r.choice(END_DEFS)
            res = self.call("add_end_event_to_diagram", ["process_id", "end_event_name", "end_event_definition", "node_id"],
                            [cont, name, d, nid], {"end_event_name": "", "end_event_definition": None, "node_id": None})
            k = "endEvent"
            evdefs = [d] if d else []
        elif choice == "gateway":
            k, dr = r.choice(xmlmodel.GATEWAYS), r.choice(DIRS)
            res = self.call("add_gateway_to_diagram", ["process_id", "gateway_type", "gateway_name", "gateway_direction",
                                                       "node_id"], [cont, k, name, dr, nid],
                            {"gateway_name": "", "gateway_direction": "Unspecified", "node_id": None})
            attrs = {"gatewayDirection": dr}
            for a, (dflt, _) in xmlmodel.ATTRS[k].items():
                attrs.setdefault(a, dflt)
        elif choice in ("exclusive", "inclusive"):
            dr, dflt = r.choice(DIRS), None
            if r.random() < 0.3 and self.sh.nodes:
                dflt = r.choice(list(self.sh.nodes))
            res = self.call("add_%s_gateway_to_diagram" % choice, ["process_id", "gateway_name", "gateway_direction",
                                                                   "default", "node_id"], [cont, name, dr, dflt, nid],
                            {"gateway_name": "", "gateway_direction": "Unspecified", "default": None, "node_id": None})
            k, attrs = choice + "Gateway", {"gatewayDirection": dr, "default": dflt}
        else:
            dr = r.choice(DIRS)
            res = self.call("add_parallel_gateway_to_diagram", ["process_id", "gateway_name", "gateway_direction",
                                                                "node_id"], [cont, name, dr, nid],
                            {"gateway_name": "", "gateway_direction": "Unspecified", "node_id": None})
            k, attrs = "parallelGateway", {"gatewayDirection": dr}
        self.ctx.check(isinstance(res, tuple) and len(res) == 2, "%s returned %s", choice, core.short(res))
        i, elem = res
        if nid is not None:
            self.ctx.equal(nid, i, "id of added " + choice)
        self.fresh(i, choice)
        self.ctx.check(self.g.diagram_graph.has_node(i), "added %s %r is not in the diagram", choice, i)
        got = objview.view(self.g)["nodes"][i] if self.strict or evdefs else None
        gd = got["evdefs"] if got else []
        self.ctx.equal([d + "EventDefinition" for d in evdefs], [t for t, _ in gd], "event definitions of " + i)
        for _, did in gd:
            self.fresh(did, "event definition")
        self.sh.nodes[i] = {"kind": k, "name": name, "container": cont, "attrs": attrs, "incoming": [], "outgoing": [],
                            "evdefs": gd}
        self.sh.shapes[i] = [{"isExpanded": exp or "", "isHorizontal": ""}]
        self.ctx.count("built:" + choice)
        if self.strict:
            self.stored(elem, self.g.get_node_by_id(i)[1], "node " + i)
            self.unchanged(raw, {i}, set(), set())
        return i

    def flow_candidates(self):
        r = self.rng
        byc = {}
        for i, n in self.sh.nodes.items():
            if n["kind"] != "dataObject":
                byc.setdefault(n["container"], []).append(i)
        c = r.choice(list(byc))
        a, b = r.choice(byc[c]), r.choice(byc[c])
        if self.hub and r.random() < 0.9:
            c = max(byc, key=lambda k: len(byc[k]))
            a, b = r.choice([(byc[c][0], r.choice(byc[c])), (r.choice(byc[c]), byc[c][0])])
        if r.random() < 0.15 and self.pairs:
            b, a = r.choice(sorted(self.pairs))
        return a, b

    def add_flow(self, a=None, b=None):
        r = self.rng
        if a is None:
            if not [i for i, n in self.sh.nodes.items() if n["kind"] != "dataObject"]:
                return None
            for _ in range(8):
                a, b = self.flow_candidates()
                if (a, b) not in self.pairs:
                    break
            else:
                return None
        if (a, b) in self.pairs:
            return None
        cont = self.sh.nodes[a]["container"]
        if r.random() < 0.04:
            # the flow belongs to the process the caller names
            cont = r.choice(self.sh.containers() if self.subs else list(self.sh.processes))
            self.ctx.count("built:flow_of_named_process")
        name = self.names() if r.random() < 0.6 else ""
        if r.random() < 0.05:
            name = r.choice([a, b, cont, a + "_" + b] + sorted(self.sh.flows)[:3])
        raw = self.raw()
        res = self.call("add_sequence_flow_to_diagram", ["process_id", "source_ref_id", "target_ref_id",
                                                         "sequence_flow_name"], [cont, a, b, name],
                        {"sequence_flow_name": ""})
        self.ctx.check(isinstance(res, tuple) and len(res) == 2, "add_sequence_flow_to_diagram returned %s", core.short(res))
        i, elem = res
        self.fresh(i, "flow")
        self.pairs.add((a, b))
        self.sh.flows[i] = {"container": cont, "source": a, "target": b, "name": name, "cond": None}
        self.sh.nodes[a]["outgoing"].append(i)
        self.sh.nodes[b]["incoming"].append(i)
        self.ctx.count("built:flow")
        if a not in self.sh.shapes or b not in self.sh.shapes:
            self.ctx.count("built:flow_of_unplaced_node")
        if self.strict:
            f = self.g.get_flow_by_id(i)
            self.ctx.check(f is not None, "added flow %s cannot be found", i)
            self.stored(elem, f[2], "flow " + i)
            self.unchanged(raw, set(), {i}, set(), {a, b})
        return i

    # -- strict monitors
    def raw(self):
        if not self.strict:
            return None
        g = self.g
        return ({n: core.freeze(dict(d)) for n, d in g.diagram_graph.nodes(data=True)},
                {(a, b): core.freeze(dict(d)) for a, b, d in g.diagram_graph.edges(data=True)},
                {k: core.freeze(v) for k, v in g.sequence_flows.items()},
                {k: core.freeze(v) for k, v in g.process_elements.items()},
                core.freeze(g.diagram_attributes), core.freeze(g.collaboration), core.freeze(g.plane_attributes))

    def stored(self, elem, found, what):
        self.ctx.check(dict(elem) == dict(found), "returned element of %s differs from the stored one", what)
        elem["__probe__"] = 1
        try:
            self.ctx.check("__probe__" in found, "returned element of %s is not the stored one", what)
        finally:
            elem.pop("__probe__", None)
            found.pop("__probe__", None)

    def unchanged(self, raw, nodes, flows, procs, touched=()):
        """Nothing but the given new elements differs from the state before the call."""
        C = objview.consts()
        now = self.raw()
        n0, e0, s0, p0, d0, c0, pl0 = raw
        n1, e1, s1, p1, d1, c1, pl1 = now
        self.ctx.equal(set(n0) | nodes, set(n1), "set of nodes after the call")
        for k in n0:
            if k in touched:
                a, b = dict(n0[k][1:]), dict(n1[k][1:])
                for x in (C.incoming_flow, C.outgoing_flow):
                    a.pop(x, None), b.pop(x, None)
                self.ctx.check(a == b, "node %s was changed by the call", k)
            else:
                self.ctx.check(n0[k] == n1[k], "node %s was changed by the call", k)
        self.ctx.equal(len(e0) + len(flows), len(e1), "number of flows after the call")
        for k in e0:
            self.ctx.check(e0[k] == e1.get(k), "flow %s was changed by the call", k)
        self.ctx.equal(set(s0) | flows, set(s1), "flow table after the call")
        for k in s0:
            self.ctx.check(s0[k] == s1[k], "flow table entry %s was changed by the call", k)
        self.ctx.equal(set(p0) | procs, set(p1), "set of processes after the call")
        for k in p0:
            self.ctx.check(p0[k] == p1[k], "process %s was changed by the call", k)
        self.ctx.check(d0 == d1 and c0 == c1, "diagram attributes or collaboration were changed by the call")
        if not procs:
            self.ctx.check(pl0 == pl1, "plane attributes were changed by the call")

    # -- histories
    def adopt(self):
        """Goes on with a diagram that already has content (an imported one): the shadow starts as what is there."""
        g, v = self.g, objview.view(self.g)
        sh = self.sh = Shadow()
        sh.processes, sh.nodes, sh.shapes, sh.collab = v["processes"], v["nodes"], v["shapes"], v["collab"]
        sh.flows = {i: v["flows"][i] for i in g.sequence_flows if i in v["flows"]}
        sh.diagram_name = v["diagram"]["name"]
        self.ctx.equal(set(v["flows"]), set(sh.flows), "flows in the flow table of the imported diagram")
        sh.ids = set(sh.processes) | set(sh.nodes) | set(sh.flows) | {v["diagram"]["id"], v["plane"]["id"]}
        sh.ids |= {d for n in sh.nodes.values() for _, d in n["evdefs"]}
        if sh.collab:
            sh.ids |= {sh.collab["id"]} | set(sh.collab["participants"]) | set(sh.collab["msgflows"])
            for n in sh.nodes.values():
                for k in ("incoming", "outgoing"):
                    n[k] = [x for x in n[k] if x not in sh.collab["msgflows"]]
        sh.ids |= set(g.diagram_graph.nodes())
        self.pairs = {(f["source"], f["target"]) for f in sh.flows.values()}
        return self

    def start(self, processes=None):
        self.new_diagram()
        for _ in range(processes if processes is not None else self.rng.choice([1, 1, 1, 2, 3, 6])):
            self.add_process()
        return self

    def history(self, n, p_flow=0.45, p_proc=0.04, p_new=0.0):
        r = self.rng
        if self.hub and not self.strict and r.random() < 0.5:
            n *= 4
        for _ in range(n):
            x = r.random()
            if x < p_new:
                self.start()
            elif x < p_new + p_proc:
                self.add_process()
            elif x < p_new + p_proc + p_flow:
                self.add_flow()
            else:
                self.add_node()
        return self

    def describe(self):
        return {"nodes": {i: n["kind"] for i, n in list(self.sh.nodes.items())[:12]},
                "flows": [(f["source"], f["target"]) for f in list(self.sh.flows.values())[:12]],
                "processes": len(self.sh.processes)}

    def fingerprint(self):
        return (tuple(c[0] for c in self.calls), len(self.sh.nodes), len(self.sh.flows),
                tuple(n["name"] for n in self.sh.nodes.values()))
