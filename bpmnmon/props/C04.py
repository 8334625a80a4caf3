"""C04: XML round trip keeps diagram interchange data"""
from .. import compare, xmlwork

RULE = ("Random supported BPMN documents (full, partial and missing diagram data; integer, fractional and negative coordinates; up to 60 waypoints) plus the repository's own example files are "
        "imported, exported with diagram data and read back by an independent reader; every shape and edge is compared with the "
        "abstract model the document was written from. A document counts as non-trivial when it has at least two nodes; "
        "distinct by its node ids, kinds and flow ids.")
ASSUMPTIONS = ["xml.etree.ElementTree reads exported files correctly",
               "at most one flow between two given nodes in one direction; only supported element kinds"]
COUNT = {"quick": 7500, "thorough": 400000}
MIN = {"cases": 300, "files_compared": 300, "shapes_compared": 3000, "edges_compared": 2000}
FIXED = xmlwork.with_stress


def case(ctx, i, rng):
    xmlwork.roundtrip_case(ctx, rng, "di", compare.di)


def fixed_case(ctx, path, rng):
    xmlwork.corpus_case(ctx, path, compare.di)
