"""CSV workloads shared by several properties."""
import glob
import os

from . import core, csvmodel, objview, xmlwork


def corpus():
    out = []
    for p in sorted(glob.glob(os.path.join(core.REPO, "tests", "**", "*.csv"), recursive=True)):
        if os.sep + "output" + os.sep not in p:
            out.append(p)
    return out


def note(ctx, sh, text):
    ctx.input("sheet.csv", text)
    rows = sh.rows()
    ctx.seen(sh.fingerprint(), len(rows) >= 4)
    ctx.count("rows", len(rows))
    ctx.count("gotos", sum(1 for r in rows if r[1].lower().startswith("goto")))
    ctx.count("splits", sum(1 for k in sh.gw if k[0] == "split"))
    ctx.count("joins", sum(1 for k in sh.gw if k[0] == "join"))
    ctx.sample(text if len(text) < 600 else text[:600] + "...")


NAMES = ["in.csv"] * 12 + ["in.txt", "in", " in.csv", "in.csv ", "my file.csv", "żółć.csv", "IN.CSV", "a%20b.csv", "in#1.csv", "in.tsv", "in.xml",
                           "sub/../in.csv", "./in.csv", "$in.csv", "in.", ".in", "in?.csv", "[in].csv"]


def put(ctx, text, name=None):
    d = ctx.dir()
    name = name or xmlwork.filename(text.encode("utf-8", "surrogatepass"), NAMES)
    if name.startswith("sub/"):
        os.mkdir(os.path.join(d, "sub"))
    p = os.path.join(d, name)
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    os.utime(p, (1000000, 1000000))     # the date says nothing about the content
    return p


def load(ctx, path, g=None):
    """Import into the given object, or a new or used one."""
    g = objview.obj(ctx, restart=False) if g is None else g
    ctx.run("load_diagram_from_csv_file", g.load_diagram_from_csv_file, path)
    return g


def export(ctx, g):
    d = ctx.dir()
    ctx.run("export_csv_file", g.export_csv_file, d, "out.csv")
    return d + "out.csv"


def is_gateway(kind):
    return kind.endswith("Gateway")


def flowgraph(g):
    """kinds, names, {(a, b): condition text or None} of a diagram"""
    v = objview.view(g)
    kinds = {i: n["kind"] for i, n in v["nodes"].items()}
    names = {i: n["name"] for i, n in v["nodes"].items()}
    edges = {(f["source"], f["target"]): (f["cond"][1] if f["cond"] else None) for f in v["flows"].values()}
    return kinds, names, edges
