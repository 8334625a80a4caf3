"""C01: XML round trip keeps flow nodes"""
from .. import compare, xmlwork

RULE = ("Random supported BPMN documents (all node kinds and attribute combinations, event definitions, nested sub-processes, hostile names and ids) plus the repository's own example files are "
        "imported, exported with diagram data and read back by an independent reader; every flow node with its container, attributes, flow lists and event definitions is compared with the "
        "abstract model the document was written from. A document counts as non-trivial when it has at least two nodes; "
        "distinct by its node ids, kinds and flow ids.")
ASSUMPTIONS = ["xml.etree.ElementTree reads exported files correctly",
               "at most one flow between two given nodes in one direction; only supported element kinds"]
COUNT = {"quick": 6500, "thorough": 320000}
MIN = {"cases": 300, "files_compared": 300, "nodes_compared": 3000, "kind:boundaryEvent": 50, "kind:eventBasedGateway": 50, "kind:subProcess": 50}
FIXED = xmlwork.with_stress


def case(ctx, i, rng):
    xmlwork.roundtrip_case(ctx, rng, "nodes", compare.nodes)


def fixed_case(ctx, path, rng):
    xmlwork.corpus_case(ctx, path, compare.nodes)
