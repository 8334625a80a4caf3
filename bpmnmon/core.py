"""Worker side of the machinery: the case context, the violation type, instrumentation of the code under test."""
import collections
import copy
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

REPO = os.environ.get("BPMNMON_REPO", "/repo")
PKG = os.path.join(REPO, "bpmn_python") + os.sep
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


class Violation(Exception):
    """The property under test was refuted; args[0] describes how."""


class Inconclusive(Exception):
    """The harness could not decide."""


class NoTermination(BaseException):
    """Raised out of the code under test when its step budget is used up."""


class Ctx:
    """What a property's case sees: counters, samples, scratch files, checks."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counters = collections.Counter()
        self.fps = set()
        self.samples = []
        self.inputs = {}
        self.trace = []
        self.scratch = tempfile.mkdtemp(prefix="bpmnmon_")
        self.nfile = 0
        self.case_id = None
        self.aux = None         # random choices of the harness that are independent of the workload

    # -- observation bookkeeping
    def count(self, key, n=1):
        self.counters[key] += n

    def seen(self, value, nontrivial=True):
        """Fingerprint of one explored case; only non-trivial ones are counted as distinct."""
        if nontrivial:
            self.fps.add(hashlib.blake2b(repr(value).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())

    def sample(self, text, limit=2):
        if len(self.samples) < limit:
            self.samples.append(text if len(str(text)) < 1500 else str(text)[:1500] + " ...")

    def input(self, key, value):
        """Remember an input so that it is written into the replay file of a violation."""
        self.inputs[key] = value

    def ev(self, *event):
        self.trace.append(event)
        if len(self.trace) > 400:
            del self.trace[:200]

    # -- verdicts
    def check(self, cond, msg, *args):
        self.counters["checks"] += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def equal(self, exp, got, what):
        self.counters["checks"] += 1
        if exp != got:
            raise Violation("%s: expected %s, got %s" % (what, short(exp), short(got)))

    def run(self, what, fn, *args, **kw):
        """Run an operation of the code under test that must succeed; an error in it is a violation."""
        self.ev(what, *[short(a, 80) for a in args])
        self.counters["ops"] += 1
        try:
            return fn(*args, **kw)
        except NoTermination as ex:
            raise Violation("%s does not terminate (%s)" % (what, ex))
        except (Violation, Inconclusive):
            raise
        except Exception as ex:
            if in_code_under_test(ex):
                raise Violation("%s raised %s: %s\n%s" % (what, type(ex).__name__, short(str(ex)), tb_tail(ex)))
            raise

    def rejected(self, what, fn, *args, types=Exception, **kw):
        """Run an operation that must be refused with an error of one of the types."""
        self.ev("rejected? " + what, *[short(a, 80) for a in args])
        self.counters["ops"] += 1
        try:
            r = fn(*args, **kw)
        except types as ex:
            return ex
        except NoTermination as ex:
            raise Violation("%s does not terminate (%s)" % (what, ex))
        except Exception as ex:
            raise Violation("%s raised %s instead of %s" % (what, type(ex).__name__, types))
        raise Violation("%s was accepted (returned %s) instead of being rejected" % (what, short(r)))

    def known(self, key, detail):
        """A violation that may be a recorded finding: silent if listed in the known-findings file."""
        if key in KNOWN_KEYS.setdefault(self.prop, load_known(self.prop)):
            self.counters["known:" + key] += 1
        else:
            raise Violation(detail)

    # -- scratch space
    def dir(self):
        self.nfile += 1
        d = os.path.join(self.scratch, "d%d" % self.nfile) + os.sep
        os.mkdir(d)
        return d

    def reset_scratch(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        self.nfile = 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


KNOWN_KEYS = {}
KNOWN_FILE = os.path.join(os.path.dirname(HERE.rstrip(os.sep)), "known_findings.txt")


def load_known(prop):
    """Lines 'finding: property=<id> key=<key> <what fails>' of the known-findings file, as key -> what fails."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for ln in f:
                w = ln.strip().split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                    out[w[2][4:]] = w[3]
    return out


def short(v, n=300):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def in_code_under_test(ex):
    """True if the innermost frames of the exception lie outside the harness (repository or a library it called)."""
    tb = ex.__traceback__
    files = []
    while tb:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return any(f.startswith(PKG) for f in files) and not (files and files[-1].startswith(HERE))


def tb_tail(ex, n=6):
    lines = traceback.format_exception(type(ex), ex, ex.__traceback__)
    return "".join(lines)[-1500:]


# ------------------------------------------------------------------ instrumentation
class Cover:
    """Line coverage of the package under test through sys.monitoring (each line reports once, then is switched off)."""
    TOOL = sys.monitoring.COVERAGE_ID

    def __init__(self):
        self.lines = set()

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "bpmnmon-cover")
        add = self.lines.add

        def line(code, no):
            f = code.co_filename
            if f.startswith(PKG):
                add((f, no))
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)

    def report(self):
        out = collections.defaultdict(list)
        for f, n in self.lines:
            out[f[len(PKG):]].append(n)
        return {k: sorted(v) for k, v in out.items()}


class Watchdog:
    """Bounded progress. After `cpu` seconds of CPU time in one case a step counter is switched on: if the code under
    test then executes more than `budget` further lines, it is declared non-terminating (a verdict on logical steps)."""
    TOOL = sys.monitoring.DEBUGGER_ID

    def __init__(self, cpu=30.0, budget=60000000):
        self.cpu, self.budget, self.on = cpu, budget, False

    def arm(self):
        signal.signal(signal.SIGVTALRM, self.fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu)

    def disarm(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
            self.on = False

    def fire(self, *_):
        if self.on:
            return
        self.on = True
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "bpmnmon-steps")
        left = [self.budget]

        def line(code, no):
            f = code.co_filename
            if f.startswith(HERE):
                return
            left[0] -= 1
            if left[0] <= 0 and f.startswith(PKG):
                left[0] = self.budget
                raise NoTermination("step budget of %d lines used up at %s:%d" % (self.budget, f, no))
        m.register_callback(self.TOOL, m.events.LINE, line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()


# ------------------------------------------------------------------ snapshots of a diagram object
def freeze(v):
    """A hashable, order-preserving deep image of plain data."""
    if isinstance(v, dict):
        return ("d",) + tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return ("l" if isinstance(v, list) else "t",) + tuple(freeze(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted(map(repr, v)))
    return (type(v).__name__, v)


def snapshot(g):
    """Complete image of a diagram object: graph nodes, edges (with order), and every other public instance field."""
    out = {"nodes": tuple((n, freeze(dict(d))) for n, d in g.diagram_graph.nodes(data=True)),
           "edges": tuple((a, b, freeze(dict(d))) for a, b, d in g.diagram_graph.edges(data=True)),
           "graph": freeze(dict(g.diagram_graph.graph))}
    for k, v in vars(g).items():
        if k == "diagram_graph" or k.startswith("_"):
            continue
        try:
            out["field " + k] = freeze(copy.deepcopy(v))
        except Exception:
            out["field " + k] = repr(v)
    return out


def snapdiff(a, b):
    """First difference of two snapshots, or None."""
    for k in list(a) + [k for k in b if k not in a]:
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, tuple) and isinstance(y, tuple):
                for i in range(max(len(x), len(y))):
                    p, q = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
                    if p != q:
                        return "%s[%d]: %s -> %s" % (k, i, short(p), short(q))
            return "%s: %s -> %s" % (k, short(x), short(y))
    return None


def dump_json(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8", errors="surrogatepass") as f:
        json.dump(obj, f, indent=1, default=str, ensure_ascii=True)
    os.replace(tmp, path)
