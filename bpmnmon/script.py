"""Scripts: plain-data sequences of operations on one diagram object, for running the same work alone and among others."""
import os
import re

from . import core, csvmodel, objview, ops, text, xmlmodel, xmlwork

UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
SAFE = ["get_nodes_count", "get_gateway_counts", "get_events_counts", "all_control_flow_elements_count", "NOAJS_metric",
        "DurfeeSquare_metric", "PerfectSquare_metric", "CoefficientOfNetworkComplexity_metric", "NOA_metric", "TNE_metric",
        "GatewayHeterogenity_metric", "AverageGatewayDegree_metric", "all_gateways_count"]
KINDS = ["task", "subprocess", "exclusive", "parallel", "inclusive"]


def make(rng, shared_xml=None, shared_csv=None):
    """A random script. Nodes are named by position in the list of nodes the script has added since the last start."""
    steps = []
    n_nodes, procs, pairs = 0, 0, set()

    def fresh():
        nonlocal n_nodes, procs
        n_nodes, procs = 0, 0
        pairs.clear()

    def build(k):
        nonlocal n_nodes, procs
        for _ in range(k):
            r = rng.random()
            if procs == 0 or r < 0.05:
                steps.append(("process", text.name(rng)))
                procs += 1
            elif r < 0.6 or n_nodes < 2:
                kind = rng.choice(["task", "subprocess", "start", "end", "exclusive", "inclusive", "parallel", "gateway"])
                steps.append(("node", kind, rng.randrange(procs), text.name(rng),
                              "n%d" % n_nodes if rng.random() < 0.5 else None, rng.choice(xmlmodel.DIRS),
                              rng.choice([None, "message", "signal"])))
                n_nodes += 1
            else:
                a, b = rng.randrange(n_nodes), rng.randrange(n_nodes)
                if (a, b) not in pairs:
                    pairs.add((a, b))
                    steps.append(("flow", a, b, text.name(rng)))

    def use(k, collab=False):
        for _ in range(k):
            x = rng.choice(["export", "export", "metric", "query", "layout", "snapshot", "segments", "fail"])
            if x == "layout" and collab:
                x = "export"
            if x == "export":
                steps.append(("export", rng.choice(["xml", "nodi", "csv", "dot"])))
            elif x == "metric":
                steps.append(("metric", rng.choice(SAFE)))
            elif x == "fail":
                steps.append(("fail", rng.randrange(3)))
            else:
                steps.append((x,))
    for _ in range(rng.choice([1, 1, 2, 3])):
        fresh()
        r = rng.random()
        if r < 0.4:
            steps.append(("new", text.name(rng)))
            for _ in range(rng.choice([1, 2])):
                build(rng.choice([3, 7, 12]))
                use(rng.choice([1, 2]))
        elif r < 0.75:
            collab = rng.random() < 0.4
            if shared_xml is not None and rng.random() < 0.5:
                steps.append(("object",))
                steps.append(("loadxml", None))
                collab = True
            else:
                m = xmlmodel.Gen(rng, size=rng.choice([3, 6, 9]), collab=collab).model()
                steps.append(("object",))
                steps.append(("loadxml", xmlmodel.write(m, xmlmodel.Lex())))
            use(rng.choice([1, 3]), collab)
            build(rng.choice([0, 3]))
            use(1, collab)
        else:
            steps.append(("object",))
            if shared_csv is not None and rng.random() < 0.5:
                steps.append(("loadcsv", None))
            else:
                steps.append(("loadcsv", csvmodel.sheet(rng, size=rng.choice([4, 8])).write(plain=True)))
            use(rng.choice([1, 3]))
            build(rng.choice([0, 3]))
            use(1)
    steps.append(("snapshot",))
    return steps


def alike(rng, steps):
    """A script that builds a small diagram with given ids (which variants of it share), followed by the given steps."""
    n = rng.randint(2, 6)
    out = [("new", ""), ("process", "p")]
    kinds = ["start"] + [rng.choice(KINDS) for _ in range(n)] + ["end"]
    out += [("node", k, 0, "name", "n%d" % j, "Unspecified", None) for j, k in enumerate(kinds)]
    pairs = set()
    while len(pairs) < n + 1:
        a, b = rng.randrange(n + 2), rng.randrange(n + 2)
        if a != b and (a, b) not in pairs:
            pairs.add((a, b) if a < b or rng.random() < 0.2 else (b, a))
    out += [("flow", a, b, "f") for a, b in sorted(pairs)]
    use = [("layout",), ("export", "csv"), ("export", "xml"), ("export", "dot"), ("segments",), ("query",), ("longest",)] + [
        ("metric", m) for m in rng.sample(SAFE, 3)]
    rng.shuffle(use)
    return out + use[:rng.randint(2, 8)] + [("snapshot",)] + steps


def variant(rng, steps):
    """The same script with other flows, names and kinds of nodes."""
    out, n, pairs = [], 0, set()
    for s in steps:
        if s[0] in ("new", "object"):
            n = 0
            pairs = set()
        elif s[0] == "node":
            n += 1
            if s[1] in KINDS and rng.random() < 0.3:
                s = ("node", rng.choice(KINDS)) + s[2:]
        elif s[0] == "flow":
            for _ in range(20):
                a, b = rng.randrange(n), rng.randrange(n)
                if a > b and rng.random() < 0.8:
                    a, b = b, a
                if a != b and (a, b) not in pairs:
                    break
            else:
                continue
            pairs.add((a, b))
            s = ("flow", a, b, s[3] + rng.choice(["", "x"]))
        out.append(s)
    return out


class Run:
    """State of one script while it runs."""

    def __init__(self, steps, scratch, shared):
        self.steps, self.scratch, self.shared = steps, scratch, shared
        self.g = objview.new()
        self.procs, self.nodes = [], []
        self.out = []
        self.i = 0
        self.n = 0

    def done(self):
        return self.i >= len(self.steps)

    def step(self):
        s = self.steps[self.i]
        self.i += 1
        try:
            r = getattr(self, "do_" + s[0])(*s[1:])
        except core.NoTermination:
            raise
        except Exception as ex:
            r = "error " + type(ex).__name__
        self.out.append((s[0], r if isinstance(r, str) else repr(r)))

    def run(self):
        while not self.done():
            self.step()
        return self

    def result(self):
        """Outputs with generated ids replaced by their order of first appearance."""
        names = {}
        sub = lambda m: names.setdefault(m.group(0), "U%d" % len(names))  # noqa: E731
        return [(k, UUID.sub(sub, v)) for k, v in self.out]

    # -- operations
    def do_new(self, name):
        self.g.create_new_diagram_graph(name)
        self.procs, self.nodes = [], []
        return ""

    def do_object(self):
        self.g = objview.new()
        self.procs, self.nodes = [], []
        return repr(core.snapshot(self.g))

    def do_process(self, name):
        self.procs.append(self.g.add_process_to_diagram(name))
        return self.procs[-1]

    def do_node(self, kind, proc, name, nid, direction, ev):
        g, p = self.g, self.procs[proc]
        if kind == "task":
            r = g.add_task_to_diagram(p, name, nid)
        elif kind == "subprocess":
            r = g.add_subprocess_to_diagram(p, name, node_id=nid)
        elif kind == "start":
            r = g.add_start_event_to_diagram(p, name, ev, node_id=nid)
        elif kind == "end":
            r = g.add_end_event_to_diagram(p, name, ev, node_id=nid)
        elif kind == "gateway":
            r = g.add_gateway_to_diagram(p, "complexGateway", name, direction, nid)
        else:
            r = getattr(g, "add_%s_gateway_to_diagram" % kind)(p, name, direction, node_id=nid)
        self.nodes.append(r[0])
        return repr((r[0], core.freeze(dict(r[1]))))

    def do_flow(self, a, b, name):
        r = self.g.add_sequence_flow_to_diagram(self.procs[0], self.nodes[a], self.nodes[b], name)
        return repr((r[0], core.freeze(dict(r[1]))))

    def put(self, content, ext):
        p = os.path.join(self.scratch, "in" + ext)        # the same path is rewritten for every load of this script
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("utf-8"))
        os.utime(p, (1000000, 1000000))
        return p

    def do_loadxml(self, content):
        self.g.load_diagram_from_xml_file(self.shared["xml"] if content is None else self.put(content, ".bpmn"))
        return repr(core.snapshot(self.g))

    def do_loadcsv(self, content):
        self.g.load_diagram_from_csv_file(self.shared["csv"] if content is None else self.put(content, ".csv"))
        return repr(core.snapshot(self.g))

    def do_export(self, kind):
        from bpmn_python import bpmn_diagram_visualizer as vis
        self.n += 1
        d = os.path.join(self.scratch, "out%d" % self.n) + os.sep
        if kind == "xml":
            self.g.export_xml_file(d, "x")
        elif kind == "nodi":
            self.g.export_xml_file_no_di(d, "x")
        elif kind == "csv":
            self.g.export_csv_file(d, "x")
        else:
            os.mkdir(d)
            vis.bpmn_diagram_to_dot_file(self.g, d + "x")
        with open(d + ("x.dot" if kind == "dot" else "x"), "rb") as f:
            return f.read().decode("utf-8", "replace")

    def do_metric(self, name):
        from bpmn_python import bpmn_diagram_metrics as met
        return repr(ops.norm(getattr(met, name)(self.g)))

    def do_segments(self):
        from bpmn_python import diagram_layout_metrics as lm
        return repr((lm.count_segments(self.g), lm.count_crossing_points(self.g)))

    def do_longest(self):
        from bpmn_python import diagram_layout_metrics as lm
        return repr((ops.norm(lm.compute_longest_path(self.g)), ops.norm(lm.compute_longest_path_tasks(self.g))))

    def do_query(self):
        return repr((ops.norm(self.g.get_nodes("task")), ops.norm(self.g.get_flows())))

    def do_layout(self):
        from bpmn_python import bpmn_diagram_layouter as lay
        lay.generate_layout(self.g)
        return repr(core.snapshot(self.g))

    def do_fail(self, k):
        if k == 0:
            self.g.add_gateway_to_diagram("p", "exclusiveGateway", "x", "sideways")
        elif k == 1:
            self.g.add_sequence_flow_to_diagram("p", "nosuch", "nosuch2")
        else:
            self.g.load_diagram_from_xml_file(os.path.join(self.scratch, "nosuch.bpmn"))
        return ""

    def do_snapshot(self):
        return repr(core.snapshot(self.g))
