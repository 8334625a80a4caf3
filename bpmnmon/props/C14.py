"""C14: diagram objects are independent of each other."""
import os
import pickle
import random
import socket
import struct
import sys
import threading
import time

from .. import core, csvmodel, csvwork, script, xmlmodel, xmlwork

RULE = ("Two to four random scripts (building, importing from XML and CSV - also from one shared file and from a path that is rewritten with the same date "
        "between loads -, laying out, measuring, exporting, failing calls), one diagram object each, run (a) interleaved step by step in "
        "one thread, (b) in concurrent threads with a tiny switch interval and injected yields at random lines of the package, or (c) one "
        "after the other with each diagram object discarded before the next one is made, on up to eight variants of one diagram. Each "
        "step's result and the final deep snapshot are compared with a run of the script alone in a pristine forked interpreter that has "
        "never handled another diagram (generated ids canonicalised). Non-trivial: at least two scripts; distinct by interleaving.")
ASSUMPTIONS = ["threads interleave at bytecode level under the GIL of CPython 3.12", "one diagram object is used by one thread only"]
COUNT = {"quick": 500, "thorough": 24000}
MIN = {"cases": 100, "solo_runs": 300, "steps_interleaved": 3000, "steps_in_threads": 1500, "thread_switches": 500,
       "injected_yields": 500, "variants": 40, "discarded": 100}


# -- pristine interpreters: a zygote forked before any diagram work, which forks one child per request
def send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack(">Q", len(b)) + b)


def recvn(s, n):
    out = b""
    while len(out) < n:
        b = s.recv(min(1 << 20, n - len(out)))
        if not b:
            raise EOFError
        out += b
    return out


def recv(s):
    return pickle.loads(recvn(s, struct.unpack(">Q", recvn(s, 8))[0]))


def setup(ctx):
    import bpmn_python.bpmn_diagram_layouter  # noqa: F401
    import bpmn_python.bpmn_diagram_metrics  # noqa: F401
    import bpmn_python.bpmn_diagram_rep  # noqa: F401
    import bpmn_python.bpmn_diagram_visualizer  # noqa: F401
    import bpmn_python.diagram_layout_metrics  # noqa: F401
    a, b = socket.socketpair()
    pid = os.fork()
    if pid == 0:
        a.close()
        try:
            while True:
                req = recv(b)
                c = os.fork()
                if c == 0:
                    try:
                        send(b, ("ok", script.Run(*req).run().result()))
                    except BaseException as ex:
                        send(b, ("error", repr(ex)))
                    os._exit(0)
                os.waitpid(c, 0)
        except BaseException:
            os._exit(0)
    b.close()
    a.settimeout(150)
    ctx.zygote = a


def solo(ctx, steps, shared):
    d = ctx.dir()
    send(ctx.zygote, (steps, d, shared))
    try:
        kind, res = recv(ctx.zygote)
    except (socket.timeout, EOFError):
        raise core.Inconclusive("solo run did not end")
    if kind != "ok":
        raise core.Inconclusive("solo run failed: %s" % res)
    ctx.count("solo_runs")
    return res


def compare(ctx, exp, run, how):
    got = run.result()
    for k, (e, g) in enumerate(zip(exp, got)):
        if e != g:
            j = next((j for j in range(min(len(e[1]), len(g[1]))) if e[1][j] != g[1][j]), 0)
            raise core.Violation("%s: step %d (%s) of a script gives ...%s, alone it gives ...%s" % (
                how, k, run.steps[k][0], g[1][max(0, j - 100):j + 200], e[1][max(0, j - 100):j + 200]))
    ctx.check(len(exp) == len(got), "%s: %d results instead of %d", how, len(got), len(exp))
    ctx.count("scripts_compared")


class Yields:
    """Injects scheduling points at random lines of the package under test."""
    TOOL = sys.monitoring.PROFILER_ID

    def __init__(self, rng, p):
        self.n, self.switches, self.last = 0, 0, None
        r = random.Random(rng.random())

        def line(code, no):
            t = threading.get_ident()
            if t != self.last:
                self.switches += 1
                self.last = t
            if code.co_filename.startswith(core.PKG) and r.random() < p:
                self.n += 1
                time.sleep(0)
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "bpmnmon-yield")
        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


def case(ctx, i, rng):
    k = rng.choice([2, 2, 3, 4])
    sd = ctx.dir()
    shared = {"xml": sd + "shared.bpmn", "csv": sd + "shared.csv"}
    with open(shared["xml"], "wb") as f:
        f.write(xmlmodel.write(xmlmodel.Gen(rng, size=5).model(), xmlmodel.Lex()))
    with open(shared["csv"], "w", encoding="utf-8", newline="") as f:
        f.write(csvmodel.sheet(rng, size=6).write(plain=True))
    scripts = [script.make(rng, True, True) for _ in range(k)]
    if rng.random() < 0.2:
        scripts[1] = list(scripts[0])           # the same work twice
    elif rng.random() < 0.5:
        scripts[0] = script.alike(rng, scripts[0])
        scripts[1] = script.variant(rng, scripts[0])     # the same nodes under the same ids, connected in another way
        ctx.count("variants")
    ctx.input("scripts", [repr(s)[:20000] for s in scripts])
    ctx.sample([[s[0] if s[0] != "export" else "export " + s[1] for s in sc] for sc in scripts])
    if i % 6 == 4:
        return discard(ctx, rng, scripts, shared)
    exp = [solo(ctx, s, shared) for s in scripts]
    if i % 3:
        runs = [script.Run(s, ctx.dir(), shared) for s in scripts]
        order = []
        while True:
            todo = [j for j, r in enumerate(runs) if not r.done()]
            if not todo:
                break
            j = rng.choice(todo)
            for _ in range(rng.choice([1, 1, 2, 5])):
                if not runs[j].done():
                    ctx.ev(j, runs[j].steps[runs[j].i][0])
                    runs[j].step()
                    order.append(j)
        ctx.count("steps_interleaved", len(order))
        ctx.seen((order, [[s[0] for s in sc] for sc in scripts]))
        for j, r in enumerate(runs):
            compare(ctx, exp[j], r, "interleaved with %d other scripts" % (k - 1))
    else:
        threads(ctx, rng, scripts, shared, exp)


def discard(ctx, rng, scripts, shared):
    """Short-lived diagrams: each one is gone before the next one is made (which may then lie where the last one lay)."""
    first = script.alike(rng, scripts[-1] if rng.random() < 0.3 else [])
    scripts = [first] + [script.variant(rng, first) for _ in range(rng.randint(2, 7))]
    exp = [solo(ctx, s, shared) for s in scripts]
    order = list(range(len(scripts)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    got = {}
    for j in order:
        r = script.Run(scripts[j], ctx.dir(), shared).run()
        got[j], r.g = r, None
        ctx.count("discarded")
    ctx.seen(repr(scripts))
    for j in order:
        compare(ctx, exp[j], got[j], "after %d discarded diagrams" % order.index(j))


def threads(ctx, rng, scripts, shared, exp):
    runs = [script.Run(s, ctx.dir(), shared) for s in scripts]
    bar = threading.Barrier(len(runs))
    log, errs = [], []

    def body(j, r):
        try:
            bar.wait()
            while not r.done():
                r.step()
                log.append(j)
        except BaseException as ex:
            errs.append(ex)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    y = Yields(rng, rng.choice([0.002, 0.02, 0.1]))
    ts = [threading.Thread(target=body, args=(j, r), daemon=True) for j, r in enumerate(runs)]
    try:
        for t in ts:
            t.start()
        end = time.monotonic() + 120
        for t in ts:
            t.join(max(0.1, end - time.monotonic()))
    finally:
        y.stop()
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise core.Violation("scripts that end when run alone did not end in 120 s in %d concurrent threads" % len(runs))
    for e in errs:
        raise e
    ctx.count("steps_in_threads", len(log))
    ctx.count("thread_switches", y.switches)
    ctx.count("injected_yields", y.n)
    ctx.seen(log)
    for j, r in enumerate(runs):
        compare(ctx, exp[j], r, "in %d concurrent threads" % len(runs))


def FIXED():
    return xmlwork.corpus() + csvwork.corpus()


def fixed_case(ctx, path, rng):
    """Two diagrams loaded from one file: changing one does not show in the other."""
    ctx.input("file", path)
    ctx.seen(path)
    load = csvwork.load if path.endswith(".csv") else xmlwork.load
    a, b = load(ctx, path), load(ctx, path)
    before = core.snapshot(b)
    for n, d in a.diagram_graph.nodes(data=True):
        for v in d.values():
            if isinstance(v, list):
                v.append("changed")
            elif isinstance(v, dict):
                v["changed"] = 1
        d["changed"] = 1
    for _, _, d in a.diagram_graph.edges(data=True):
        for v in d.values():
            if isinstance(v, list):
                v.append(("1", "1"))
        d["changed"] = 1
    for t in (a.sequence_flows, a.process_elements, a.collaboration):
        for v in t.values():
            if isinstance(v, dict):
                v["changed"] = 1
        t["changed"] = {}
    a.diagram_attributes["changed"] = a.plane_attributes["changed"] = "1"
    d = core.snapdiff(before, core.snapshot(b))
    ctx.check(d is None, "changing one diagram changed another one loaded from the same file: %s", d)
    d = core.snapdiff(before, core.snapshot(load(ctx, path)))
    ctx.check(d is None, "changing one diagram changed what is loaded later from the same file: %s", d)
