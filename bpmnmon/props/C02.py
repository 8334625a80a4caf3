"""C02: XML round trip keeps flows"""
from .. import compare, xmlmodel, xmlwork

RULE = ("Random supported BPMN documents (dense flow graphs with loops and antiparallel flows, conditions, message flows between nodes and pools) plus the repository's own example files are "
        "imported, exported with diagram data and read back by an independent reader; every sequence flow and message flow is compared with the "
        "abstract model the document was written from. A document counts as non-trivial when it has at least two nodes; "
        "distinct by its node ids, kinds and flow ids.")
ASSUMPTIONS = ["xml.etree.ElementTree reads exported files correctly",
               "at most one flow between two given nodes in one direction; only supported element kinds"]
COUNT = {"quick": 6500, "thorough": 350000}
MIN = {"cases": 300, "files_compared": 300, "flows_compared": 3000, "message_flows_compared": 300}


def FIXED():
    return ["parallel"] + xmlwork.with_stress()


def case(ctx, i, rng):
    xmlwork.roundtrip_case(ctx, rng, "flows", compare.flows)


def fixed_case(ctx, path, rng):
    if path == "parallel":
        return parallel(ctx)
    xmlwork.corpus_case(ctx, path, compare.flows)


PARALLEL = """<?xml version="1.0" encoding="UTF-8"?>
<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL" xmlns:bpmndi="http://www.omg.org/spec/BPMN/20100524/DI">
<process id="P"><exclusiveGateway id="G"><outgoing>F1</outgoing><outgoing>F2</outgoing></exclusiveGateway>
<task id="T"><incoming>F1</incoming><incoming>F2</incoming></task>
<sequenceFlow id="F1" name="one" sourceRef="G" targetRef="T"/><sequenceFlow id="F2" name="two" sourceRef="G" targetRef="T"/>
</process><bpmndi:BPMNDiagram id="D"><bpmndi:BPMNPlane id="L" bpmnElement="P"/></bpmndi:BPMNDiagram></definitions>"""


def parallel(ctx):
    """Two flows with the same source and target: the recorded finding is that exactly the earlier one is lost."""
    path = xmlwork.put(ctx, PARALLEL.encode())
    exp = xmlmodel.read(path)
    got = xmlwork.read(ctx, xmlwork.export(ctx, xmlwork.load(ctx, path)))
    if list(got["flows"]) == ["F2"]:
        ctx.known("parallel-flows", "of two flows from G to T only the later one is exported")
        del exp["flows"]["F1"]
    compare.flows(ctx, exp, got, "export")
