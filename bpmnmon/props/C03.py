"""C03: XML round trip keeps processes, pools and lanes"""
from .. import compare, xmlwork

RULE = ("Random supported BPMN documents (several processes, pools with and without process, lane sets nested up to five deep) plus the repository's own example files are "
        "imported, exported with diagram data and read back by an independent reader; every process, participant and lane is compared with the "
        "abstract model the document was written from. A document counts as non-trivial when it has at least two nodes; "
        "distinct by its node ids, kinds and flow ids.")
ASSUMPTIONS = ["xml.etree.ElementTree reads exported files correctly",
               "at most one flow between two given nodes in one direction; only supported element kinds"]
COUNT = {"quick": 7500, "thorough": 400000}
MIN = {"cases": 300, "files_compared": 300, "lanes_compared": 1000, "child_lane_sets_compared": 200, "participants_compared": 300}
FIXED = xmlwork.with_stress


def case(ctx, i, rng):
    xmlwork.roundtrip_case(ctx, rng, "containers", compare.containers)


def fixed_case(ctx, path, rng):
    xmlwork.corpus_case(ctx, path, compare.containers)
