"""C30: operations have no side effects outside their result."""
import csv
import gc
import io
import locale
import os
import random
import signal
import subprocess
import sys
import threading
import warnings

from .. import blockproc, build, core, csvwork, csvmodel, objview, ops, sources, xmlmodel, xmlwork

RULE = ("Imports (valid and damaged XML, also with external entities, DTDs, schema locations and hrefs that point to canary files, and CSV), building "
        "calls, queries, metrics, layout and exports run under an audit hook of the interpreter (files opened, created, removed, renamed, "
        "processes, sockets) and between two snapshots of the process state (working directory, environment, locale, recursion limit, umask, signal handlers, random generators, "
        "threads, open files, standard streams); diagrams whose operations fail are included. Non-trivial: any operation; distinct by operation and input.")
ASSUMPTIONS = ["files of the interpreter, of installed libraries and of the package may be read at any time (lazy imports)",
               "the graphviz process is replaced by a recorder"]
COUNT = {"quick": 1300, "thorough": 62000}
MIN = {"cases": 150, "operations_watched": 3000, "imports_watched": 400, "external_references": 100, "failed_operations": 150, "audit_events": 3000,
       "opens_seen": 500, "state_comparisons": 3000}
EVENTS = []
ACTIVE = [False]
WATCHED = ("open", "os.", "shutil.", "subprocess.", "socket.", "urllib.", "http.", "ftplib.", "smtplib.", "webbrowser.", "tempfile.", "pty.",
           "ctypes.dlopen", "ensurepip.", "signal.", "resource.", "fcntl.", "_thread.start", "pathlib.", "glob.")


def hook(event, args):
    if ACTIVE[0] and event.startswith(WATCHED):
        EVENTS.append((event, args))


LIBS = tuple({os.path.realpath(p) + os.sep for p in (sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), core.REPO)}) + ("/usr/lib/", "/usr/share/", "/opt/venv/")
READING = ("os.listdir", "os.scandir", "glob.glob", "pathlib.Path.glob", "os.walk", "os.fwalk", "glob.glob/2")


def writes(args):
    mode, flags = args[1], args[2]
    return (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
        (isinstance(flags, int) and bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)))


def judge(ctx, what, read, target, cwd):
    """Every recorded event must be explained by the operation: reading `read`, writing below `target`."""
    for event, args in EVENTS:
        ctx.count("audit_events")
        if event == "open":
            ctx.count("opens_seen")
            if isinstance(args[0], int) or args[0] is None:
                continue
            p = os.path.realpath(os.path.join(cwd, os.fsdecode(args[0])))
            if writes(args):
                ok = target is not None
            else:
                ok = p == read or p.startswith(LIBS) or (target is not None and p.startswith(target))
            ctx.check(ok, "%s opened %s (mode %s)", what, p, args[1])
        elif event in READING:
            continue
        elif event.startswith(("os.", "shutil.", "tempfile.")) and event not in NEVER:
            ctx.check(target is not None, "%s caused %s%s", what, event, core.short(args))
        else:
            raise core.Violation("%s caused %s%s" % (what, event, core.short(args)))
    EVENTS.clear()


NEVER = ("os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.kill", "os.killpg", "os.chdir", "os.putenv", "os.unsetenv",
         "os.fchdir")


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def state():
    um = os.umask(0o22)
    os.umask(um)
    s = {"working directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
         "recursion limit": sys.getrecursionlimit(), "umask": um, "random generator": random.getstate(),
         "signal handlers": {k: repr(signal.getsignal(k)) for k in signal.valid_signals()},
         "threads": sorted(t.ident for t in threading.enumerate()), "import path": list(sys.path),
         "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "switch interval": sys.getswitchinterval(),
         "trace function": (sys.gettrace(), sys.getprofile()), "garbage collection": (gc.isenabled(), gc.get_threshold()),
         "excepthook": sys.excepthook, "open files": fds(), "warning filters": list(warnings.filters)}
    np = sys.modules.get("numpy")
    if np is not None:
        s["numpy random generator"] = repr(np.random.get_state())
    s["csv settings"] = (csv.field_size_limit(), csv.list_dialects())
    import socket
    s["socket timeout"] = socket.getdefaulttimeout()
    return s


def watch(ctx, what, fn, read=None, target=None):
    """Runs fn under observation. Returns its result or the exception."""
    ctx.ev(what)
    ctx.count("operations_watched")
    cwd = os.getcwd()
    sys.stdout.flush()
    old, sys.stdout = sys.stdout, io.StringIO()
    out = sys.stdout
    try:
        before = state()
        EVENTS.clear()
        ACTIVE[0] = True
        try:
            r = fn()
        except core.NoTermination:
            raise
        except Exception as ex:
            r = ex
            r.__traceback__ = None
            r.__context__ = r.__cause__ = None
            ctx.count("failed_operations")
        finally:
            ACTIVE[0] = False
        after = state()
        if after["open files"] != before["open files"]:
            gc.collect()
            after["open files"] = fds()
        text = out.getvalue()
    finally:
        sys.stdout = old
    for k in before:
        if before[k] != after[k]:
            if k == "environment":
                for e in set(before[k]) | set(after[k]):
                    if before[k].get(e) != after[k].get(e):
                        raise core.Violation("%s changed the environment variable %s" % (what, e))
            raise core.Violation("%s changed the %s: %s -> %s" % (what, k, core.short(before[k]), core.short(after[k])))
    ctx.count("state_comparisons")
    ctx.count("checks", len(before))
    judge(ctx, what, read, target, cwd)
    ctx.check(text == "", "%s printed %r", what, text[:200])
    return r


def setup(ctx):
    import bpmn_python.bpmn_diagram_layouter  # noqa: F401
    import bpmn_python.bpmn_diagram_metrics  # noqa: F401
    import bpmn_python.bpmn_diagram_rep  # noqa: F401
    import bpmn_python.bpmn_diagram_visualizer  # noqa: F401
    import bpmn_python.diagram_layout_metrics  # noqa: F401
    ctx.tap = ops.PngTap()
    # first uses load parts of libraries
    rng = random.Random(1)
    filters, env, csvlimit = list(warnings.filters), dict(os.environ), csv.field_size_limit()
    signals = {k: signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD, signal.SIGHUP)}
    for _ in range(3):
        try:
            g, _, _ = sources.from_csv(ctx, rng)
            g, _, p = sources.from_xml(ctx, rng)
        except core.Violation:
            continue        # a failing import is judged by other properties
        for n, f in ops.table(g, rng, ctx.dir()).items():
            ops.outcome(f, g)
    ctx.reset_scratch()
    ctx.counters.clear()
    # what these first uses changed for good must not hide that every use changes it
    warnings.filters[:] = filters
    os.environ.clear()
    os.environ.update(env)
    csv.field_size_limit(csvlimit)
    for k, h in signals.items():
        signal.signal(k, h)
    sys.addaudithook(hook)
    random.seed(20)


LOCALES = ["C", "C.UTF-8"]


def external(rng, data, canary):
    """The document with references to other files and hosts; same content."""
    s = data.decode("utf-8")
    head = ""
    if s.startswith("<?xml"):
        k = s.index("?>") + 2
        head, s = s[:k], s[k:]
    how = rng.choice(["entity", "dtd", "parameter", "pi", "import", "schema", "used entity", "xinclude"])
    url = rng.choice([canary, "file://" + canary, "http://127.0.0.1:9/x.dtd", "../" + os.path.basename(canary)])
    root = s[s.index("<", 0):]
    name = root[1:].split(None, 1)[0].split(">")[0].rstrip("/")
    if how == "entity":
        s = '<!DOCTYPE %s [<!ENTITY ext SYSTEM "%s">]>' % (name, url) + s
    elif how == "used entity":
        e = s.rindex("</")
        s = '<!DOCTYPE %s [<!ENTITY ext SYSTEM "%s">]>' % (name, url) + s[:e] + "<!-- -->&ext;" + s[e:]
    elif how == "dtd":
        s = '<!DOCTYPE %s SYSTEM "%s">' % (name, url) + s
    elif how == "parameter":
        s = '<!DOCTYPE %s [<!ENTITY %% ext SYSTEM "%s"> %%ext;]>' % (name, url) + s
    elif how == "pi":
        s = '<?xml-stylesheet href="%s" type="text/xsl"?>' % url + s
    else:
        e = s.index(">", s.index("<" + name))
        if s[e - 1] == "/":
            return how, data
        pre = name.split(":")[0] + ":" if ":" in name else ""
        add = {"import": '<%simport importType="http://www.w3.org/2001/XMLSchema" location="%s" namespace="urn:x"/>' % (pre, url),
               "schema": '', "xinclude": '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s" parse="text"/>' % url}[how]
        att = ' xmlns:xsi9="http://www.w3.org/2001/XMLSchema-instance" xsi9:schemaLocation="urn:x %s"' % url if how == "schema" else ""
        s = s[:e] + att + s[e:e + 1] + add + s[e + 1:]
    return how, (head + s).encode("utf-8")


def xml(ctx, rng):
    m = xmlwork.gen(rng).model()
    lex = xmlmodel.Lex(rng) if rng.random() < 0.3 else xmlmodel.Lex()
    lex.enc, lex.entities = "utf-8", 0
    data = xmlmodel.write(m, lex)
    d = ctx.dir()
    canary = os.path.join(d, "canary.txt")
    with open(canary, "w") as f:
        f.write("<!ENTITY secret 'SECRET'>")
    sub = os.path.join(d, "sub")
    os.mkdir(sub)
    how = "plain"
    r = rng.random()
    if r < 0.5:
        how, data = external(rng, data, canary)
        ctx.count("external_references")
    elif r < 0.65:
        how, data = "damaged", data[:rng.randrange(len(data))]
    ctx.input("document.bpmn", data.decode("utf-8", "replace"))
    p = os.path.join(sub, "in.bpmn")
    with open(p, "wb") as f:
        f.write(data)
    before = tree(d)
    g = objview.new()
    ctx.count("imports_watched")
    out = watch(ctx, "load_diagram_from_xml_file (%s)" % how, lambda: g.load_diagram_from_xml_file(p), read=os.path.realpath(p))
    ctx.equal(before, tree(d), "files around the imported file")
    ctx.seen((how, data))
    return g if not isinstance(out, Exception) else None


def tree(d):
    return sorted((a, sorted(b), sorted((n, os.stat(os.path.join(a, n)).st_mtime_ns, os.stat(os.path.join(a, n)).st_size) for n in c))
                  for a, b, c in os.walk(d))


def sheet(ctx, rng):
    sh = csvmodel.sheet(rng, size=rng.choice([4, 8, 15]))
    t = sh.write(plain=True)
    if rng.random() < 0.3:
        t = t[:rng.randrange(len(t))]
    ctx.input("sheet.csv", t)
    p = csvwork.put(ctx, t)
    d = os.path.dirname(p)
    before = tree(d)
    g = objview.new()
    ctx.count("imports_watched")
    out = watch(ctx, "load_diagram_from_csv_file", lambda: g.load_diagram_from_csv_file(p), read=os.path.realpath(p))
    ctx.equal(before, tree(d), "files around the imported file")
    ctx.seen(t)
    return g if not isinstance(out, Exception) else None


class Watched(core.Ctx):
    """A context that runs the operations of a workload generator under observation."""

    def __init__(self, ctx):
        self.__dict__ = ctx.__dict__

    def run(self, what, fn, *args, **kw):
        r = watch(self, what, lambda: fn(*args, **kw))
        if isinstance(r, Exception):
            raise core.Violation("%s raised %s: %s" % (what, type(r).__name__, core.short(str(r))))
        return r

    def rejected(self, what, fn, *args, types=Exception, **kw):
        return watch(self, what, lambda: fn(*args, **kw))


def api(ctx, rng):
    w = Watched(ctx)
    if rng.random() < 0.3:
        g = objview.new()
        p = blockproc.process(rng, size=rng.choice([1, 4, 9]))
        watch(ctx, "building calls", lambda: p.build(g))
        ctx.seen(p.fingerprint())
        return g
    b = build.Builder(w, rng).start()
    b.history(rng.choice([3, 8, 15]))
    ctx.seen(b.fingerprint())
    return b.g


def case(ctx, i, rng):
    ctx.tap.graphs.clear()
    # unusual settings, so that an operation that sets the usual ones is noticed
    sys.setrecursionlimit(rng.choice([987, 1000, 1013]))
    os.umask(rng.choice([0o22, 0o27, 0o77, 0o02]))
    locale.setlocale(locale.LC_ALL, rng.choice(LOCALES))
    r = rng.random()
    g = xml(ctx, rng) if r < 0.45 else sheet(ctx, rng) if r < 0.7 else api(ctx, rng)
    if g is None or not g.process_elements and not len(g.diagram_graph):
        return
    scratch = ctx.dir()
    real = os.path.realpath(scratch)
    if rng.random() < 0.3:
        from bpmn_python import bpmn_diagram_layouter as lay
        watch(ctx, "generate_layout", lambda: lay.generate_layout(g))
    t = ops.table(g, rng, scratch)
    names = list(t)
    files = [n for n in names if n.startswith(("export", "bpmn_"))]
    for n in rng.sample(names, min(len(names), rng.choice([4, 10]))) + rng.sample(files, rng.choice([1, 2])):
        if n in files:
            watch(ctx, n, lambda: t[n](g), target=real)
        else:
            before = tree(scratch)
            watch(ctx, n, lambda: t[n](g))
            ctx.equal(before, tree(scratch), "files")
    # an impossible export
    if rng.random() < 0.4:
        p = os.path.join(scratch, "in the way")
        if not os.path.exists(p):
            os.mkdir(p)
        f = rng.choice([g.export_xml_file, g.export_xml_file_no_di, g.export_csv_file])
        watch(ctx, f.__name__ + " (impossible)", lambda: f(scratch, "in the way"), target=real)


LOADING = """
import csv, codecs, collections, copy, errno, functools, gc, io, json, locale, logging, math, operator, os, random, re, signal, string, sys, threading
import uuid, warnings, xml.dom.minidom, xml.etree.ElementTree
import networkx, networkx.drawing.nx_pydot, pandas, pydotplus, six, matplotlib.pyplot
def state():
    um = os.umask(0o22)
    os.umask(um)
    return {"working directory": os.getcwd(), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
            "recursion limit": sys.getrecursionlimit(), "umask": um, "random generator": hash(random.getstate()),
            "signal handlers": {int(k): repr(signal.getsignal(k)) for k in signal.valid_signals()},
            "threads": len(threading.enumerate()), "files here": sorted(os.listdir("."))}
sys.path.insert(0, sys.argv[1])
os.umask(0o27)
sys.setrecursionlimit(1013)
a = state()
import bpmn_python, bpmn_python.bpmn_diagram_layouter, bpmn_python.bpmn_diagram_metrics, bpmn_python.bpmn_diagram_rep
import bpmn_python.bpmn_diagram_visualizer, bpmn_python.diagram_layout_metrics
b = state()
sys.stdout.write(json.dumps([k for k in a if a[k] != b[k]]))
"""


def FIXED():
    return ["loading the package"]


def fixed_case(ctx, what, rng):
    d = ctx.dir()
    r = subprocess.run([sys.executable, "-c", LOADING, core.REPO], cwd=d, capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise core.Inconclusive("%s: %s" % (what, r.stderr[-500:]))
    ctx.equal("[]", r.stdout, "settings changed (or text printed) by loading the package")
    ctx.seen(what)
