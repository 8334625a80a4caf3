"""Read-only operations of a diagram object and their results in comparable form."""
import os

from . import core, objview, xmlmodel

METRICS = ["get_nodes_count", "get_gateway_counts", "get_events_counts", "get_activities_counts", "all_activities_count",
           "all_gateways_count", "all_control_flow_elements_count", "all_events_count", "TNSE_metric", "TNIE_metric",
           "TNEE_metric", "TNE_metric", "NOA_metric", "NOAC_metric", "NOAJS_metric", "NumberOfNodes_metric",
           "GatewayHeterogenity_metric", "CoefficientOfNetworkComplexity_metric", "AverageGatewayDegree_metric",
           "DurfeeSquare_metric", "PerfectSquare_metric", "get_all_gateways"]


class PngTap:
    """Stands in for the graphviz process: records the graph that is about to be rendered, returns marked bytes.

    Both Dot.write(format='png') and Dot.write_png() end in Dot.create()."""

    def __init__(self):
        import pydotplus.graphviz as gv
        self.gv, self.orig, self.graphs = gv, gv.Dot.create, []
        tap = self

        def create(dot, prog=None, format="ps", *a, **kw):
            tap.graphs.append((format, dot.to_string(), dot))
            return b"\x89PNG-STUB " + dot.to_string().encode("utf-8")
        gv.Dot.create = create

    def close(self):
        self.gv.Dot.create = self.orig


def path_size(g):
    return len(g.diagram_graph), g.diagram_graph.number_of_edges()


def acyclic(g):
    import networkx as nx
    return nx.is_directed_acyclic_graph(g.diagram_graph)


def norm(v):
    """A comparable image of a returned value (views and iterators are listed)."""
    if isinstance(v, dict):
        return core.freeze({k: v[k] for k in v})
    if isinstance(v, (int, float, str, bytes, bool, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, (list, tuple)):
        return core.freeze([list(x) if isinstance(x, tuple) else x for x in v])
    return core.freeze([list(x) if isinstance(x, tuple) else x for x in list(v)])


def table(g, rng, scratch, paths=True, csv=True, png=True):
    """name -> function(diagram) for every read-only operation that makes sense for diagram g."""
    from bpmn_python import bpmn_diagram_metrics as met
    from bpmn_python import bpmn_diagram_visualizer as vis
    from bpmn_python import diagram_layout_metrics as lm
    C = objview.consts()
    nodes = list(g.diagram_graph.nodes())
    flows = [d.get(C.id) for _, _, d in g.diagram_graph.edges(data=True)]
    conts = sorted({str(d.get(C.process)) for _, d in g.diagram_graph.nodes(data=True)})
    seq = [0]

    def fileop(fn, name, ext=""):
        def run(d):
            seq[0] += 1
            where = os.path.join(scratch, "o%d" % seq[0]) + os.sep
            os.mkdir(where)
            fn(d, where, name)
            with open(where + name + ext, "rb") as f:
                return f.read()
        return run
    t = {"export_xml_file": fileop(lambda d, w, n: d.export_xml_file(w, n), "a.bpmn"),
         "export_xml_file_no_di": fileop(lambda d, w, n: d.export_xml_file_no_di(w, n), "a.bpmn"),
         "bpmn_diagram_to_dot_file": fileop(lambda d, w, n: vis.bpmn_diagram_to_dot_file(d, w + n), "a", ".dot")}
    if csv and acyclic(g):       # loops are outside the domain of the CSV export
        t["export_csv_file"] = fileop(lambda d, w, n: d.export_csv_file(w, n), "a.csv")
    if png:
        t["bpmn_diagram_to_png"] = fileop(lambda d, w, n: vis.bpmn_diagram_to_png(d, w + n), "a", ".png")
    for m in METRICS:
        t[m] = (lambda f: lambda d: norm(f(d)))(getattr(met, m))
    k = rng.choice(xmlmodel.KINDS)
    t["get_nodes_count(%s)" % k] = lambda d: norm(met.get_nodes_count(d, node_type=k))
    t["count_crossing_points"] = lambda d: norm(lm.count_crossing_points(d))
    t["count_segments"] = lambda d: norm(lm.count_segments(d))
    n, e = path_size(g)
    if paths and n <= 10 and e <= 16:
        t["compute_longest_path"] = lambda d: norm(lm.compute_longest_path(d))
        t["compute_longest_path_tasks"] = lambda d: norm(lm.compute_longest_path_tasks(d))
    t["get_nodes()"] = lambda d: norm(d.get_nodes())
    t["get_nodes(%s)" % k] = lambda d: norm(d.get_nodes(k))
    t["get_nodes_id_list_by_type"] = lambda d: norm(d.get_nodes_id_list_by_type(k))
    t["get_flows"] = lambda d: norm(d.get_flows())
    t["get_nodes_positions"] = lambda d: norm(d.get_nodes_positions())
    for x in conts[:3] + ["nosuch"]:
        t["get_nodes_list_by_process_id(%s)" % x] = (lambda x: lambda d: norm(d.get_nodes_list_by_process_id(x)))(x)
        t["get_flows_list_by_process_id(%s)" % x] = (lambda x: lambda d: norm(d.get_flows_list_by_process_id(x)))(x)
    for x in rng.sample(nodes, min(2, len(nodes))) + ["nosuch"]:
        t["get_node_by_id(%s)" % x] = (lambda x: lambda d: norm(d.get_node_by_id(x)))(x)
    for x in rng.sample(flows, min(2, len(flows))) + ["nosuch"]:
        t["get_flow_by_id(%s)" % x] = (lambda x: lambda d: norm(d.get_flow_by_id(x)))(x)
    return t


def outcome(fn, g):
    """('ok', value) or ('error', type): operations may be undefined for a diagram (say, CSV export with two starts)."""
    try:
        return "ok", fn(g)
    except core.NoTermination:
        raise
    except Exception as ex:
        return "error", type(ex).__name__
