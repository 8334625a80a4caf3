"""C13: results do not depend on the run."""
import json
import os
import subprocess
import sys

from .. import core, csvmodel, csvwork, detrun, objview, xmlmodel, xmlwork
from . import C05

RULE = ("Batches of generated documents and sheets are imported, exported (XML, no-DI XML, CSV, DOT), measured, queried, laid out and "
        "exported again in three interpreters with different hash seeds and locales, which process the batch in different orders; all files must be "
        "byte-identical and all values and snapshots equal. In addition the order of nodes, flow table and event definitions after import, "
        "and of nodes in the exported file, is compared with the source document. Non-trivial: at least two nodes; distinct by content.")
ASSUMPTIONS = ["'the run' is varied through the hash seed, the locale, the time zone, interpreter optimisation, the order of work and the process; the machine and library versions stay the same"]
COUNT = {"quick": 16, "thorough": 560}
MIN = {"cases": 12, "files_in_all_runs": 150, "results_compared": 8000, "orders_compared": 100, "interpreter_runs": 24}
BATCH = 16


def order(ctx, m, path):
    """Document order is kept by import and export (per process or sub-process)."""
    g = xmlwork.load(ctx, path)
    exp = xmlmodel.norm(m)

    def by(nodes):
        out = {}
        for i, d in nodes:
            out.setdefault(d["container"], []).append(i)
        return out
    v = objview.view(g)
    ctx.equal(by(exp["nodes"].items()), by(v["nodes"].items()), "order of nodes after import")
    seq = [(i, exp["flows"][i]) for i in g.sequence_flows if i in exp["flows"]]
    ctx.equal(by(exp["flows"].items()), by(seq), "order of the flow table after import")
    got = xmlwork.read(ctx, xmlwork.export(ctx, g))
    ctx.equal(by(exp["nodes"].items()), by(got["nodes"].items()), "order of nodes in the exported file")
    for i, d in exp["nodes"].items():
        ctx.equal(d["evdefs"], v["nodes"][i]["evdefs"], "order of event definitions of %s" % i)
        ctx.equal(d["evdefs"], got["nodes"][i]["evdefs"], "exported order of event definitions of %s" % i)
    ctx.equal(list(exp["processes"]), list(got["processes"]), "order of processes in the exported file")
    C05.members(ctx, exp, g, "after import")
    ctx.count("orders_compared")


def sheet_order(ctx, sh, path):
    """The order of the rows is kept by the import of a sheet."""
    g = csvwork.load(ctx, path)
    rows = [r[0] for r in sh.rows() if r[0] in sh.nodes]
    ctx.equal(rows, [i for i, _ in g.get_nodes() if i in sh.nodes], "order of nodes after import of a sheet")
    for d in g.process_elements.values():
        ids = d.get(objview.consts().node_ids)
        if ids is not None:
            ctx.equal(rows, [i for i in ids if i in sh.nodes], "order of the flow nodes of the process after import of a sheet")
    ctx.count("orders_compared")


def child(ctx, todo, k, seed):
    d = ctx.dir()
    with open(d + "list.json", "w") as f:
        json.dump(todo, f)
    s = d + "s"
    os.mkdir(s)
    e = dict(os.environ, PYTHONHASHSEED=str(seed))
    if k == 0:
        e.update(TZ="Pacific/Kiritimati", PYTHONOPTIMIZE="1", COLUMNS="20", LINES="5")
    if k == 1:          # a user whose locale is not UTF-8
        e.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C")
    return subprocess.Popen([sys.executable, "-m", "bpmnmon.detrun", d + "list.json", s, d + "out.json"], env=e, cwd=d,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), d + "out.json"


def collect(p, out):
    try:
        _, err = p.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise core.Inconclusive("child interpreter did not end")
    if p.returncode != 0:
        raise core.Inconclusive("child interpreter failed: %s" % err.decode("utf-8", "replace")[-1500:])
    with open(out) as f:
        return json.load(f)


def batch(ctx, rng, todo):
    here = {}
    runs = []
    for k in range(2):
        t = list(todo)
        if k == 0:
            t.reverse()
        else:
            rng.shuffle(t)
        runs.append(child(ctx, t, k, rng.randrange(1, 2 ** 32 - 1)))
    try:
        s = ctx.dir()
        for n, (path, layout) in enumerate(todo):
            w = os.path.join(s, "r%d" % n)
            os.mkdir(w)
            ctx.ev("run", path)
            try:
                here[path] = detrun.produce(path, w, layout)
            except core.NoTermination:
                raise
            except Exception as ex:
                here[path] = {"error": "%s: %s" % (type(ex).__name__, ex)}
    finally:
        try:
            others = [collect(*r) for r in runs]
        finally:
            for p, _ in runs:
                if p.poll() is None:
                    p.kill()
                    p.wait()
    for o in others:
        ctx.count("interpreter_runs")
        for path, layout in todo:
            a, b = json.loads(json.dumps(here[path])), o[path]
            ctx.check(list(a) == list(b), "different results for %s: %s", os.path.basename(path), set(a) ^ set(b))
            for k in a:
                ctx.count("results_compared")
                if a[k] != b[k]:
                    with open(path, "rb") as f:
                        ctx.input("input file", f.read().decode("utf-8", "replace"))
                    j = next((j for j in range(min(len(a[k]), len(b[k]))) if a[k][j] != b[k][j]), 0)
                    raise core.Violation("%s of %s differs between interpreter runs: ...%r / ...%r" % (
                        k, os.path.basename(path), a[k][max(0, j - 80):j + 80], b[k][max(0, j - 80):j + 80]))
    ctx.count("files_in_all_runs", len(todo))


def case(ctx, i, rng):
    d = ctx.dir()
    todo = []
    for n in range(BATCH):
        if rng.random() < 0.65:
            m, data = xmlwork.document(ctx, rng, rng.choice(["nodes", "flows", "containers", "di"]), lex=0)
            nm = xmlmodel.norm(m)
            path = d + "in%d.bpmn" % n
            with open(path, "wb") as f:
                f.write(data)
            ctx.seen((sorted((i, x["kind"]) for i, x in nm["nodes"].items()), sorted(nm["flows"])), len(nm["nodes"]) >= 2)
            ctx.sample({"file": "document", "nodes": {i: x["kind"] for i, x in list(nm["nodes"].items())[:10]},
                        "flows": [(f["source"], f["target"]) for f in list(nm["flows"].values())[:10]]})
            order(ctx, m, path)
            todo.append([path, not nm["collab"] and len(nm["nodes"]) < 30])
        else:
            sh = csvmodel.sheet(rng, size=rng.choice([4, 8, 15]))
            path = d + "in%d.csv" % n
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(sh.write(plain=True))
            ctx.seen(sh.fingerprint(), True)
            sheet_order(ctx, sh, path)
            todo.append([path, True])
    batch(ctx, rng, todo)


def FIXED():
    return ["repository examples"]


def fixed_case(ctx, item, rng):
    batch(ctx, rng, [[p, False] for p in xmlwork.corpus()] + [[p, True] for p in csvwork.corpus()])
