#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--files a.py,b.py] [--every N] [--jobs 8] [--div D]: mutation analysis of the checks (not a check).

Single-point changes of the package are generated from its syntax tree, applied to scratch copies of /repo; those that pass
the repository's tests are shown to the checks (quick workload divided by D) in an order that depends on the file, until
one reports a violation. Survivors are listed for reading: they are equivalent, outside the properties, or a gap."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo"
PY = "/opt/venv/bin/python"
ORDER = {
    "bpmn_diagram_export.py": "C06 C33 C01 C02 C03 C04 C07 C29 C13",
    "bpmn_diagram_import.py": "C05 C01 C02 C03 C04 C08 C31",
    "bpmn_import_utils.py": "C01 C18 C19 C20 C21",
    "bpmn_diagram_rep.py": "C08 C09 C10 C11 C06 C14 C29",
    "bpmn_diagram_layouter.py": "C20 C21 C22 C12 C13",
    "bpmn_diagram_metrics.py": "C23 C24 C26",
    "diagram_layout_metrics.py": "C25 C26",
    "bpmn_diagram_visualizer.py": "C27 C32 C29",
    "bpmn_process_csv_export.py": "C18 C19 C29 C10 C12",
    "bpmn_process_csv_import.py": "C15 C16 C17 C19 C33 C08 C31",
    "grid_cell_class.py": "C20 C21",
}
ALL = ["C%02d" % i for i in range(1, 100) if os.path.exists(HERE + "/bpmnmon/props/C%02d.py" % i)]


def mutants(path, rel):
    src = open(path, encoding="utf-8").read()
    lines = src.split("\n")
    offs = [0]
    for ln in src.split("\n"):
        offs.append(offs[-1] + len(ln) + 1)
    tree = ast.parse(src)
    out = []

    def pos(l, c):
        # col offsets are utf-8 bytes
        return offs[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def rep(node, new, what):
        a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        if src[a:b] != new:
            out.append({"file": rel, "line": node.lineno, "what": what, "old": src[a:b][:160], "new": new[:160], "src": src[:a] + new + src[b:]})

    seg = lambda n: ast.get_source_segment(src, n)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])), docs.add(id(n.body[0].value))
    OPS = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"],
           ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    AR = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+", "/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"]}
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            cs = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute)
                         and n.value.attr == "Consts"})
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and n.attr in cs and len(cs) > 1 and isinstance(n.value, ast.Attribute):
                    other = cs[(cs.index(n.attr) + 1) % len(cs)]
                    rep(n, seg(n)[:-len(n.attr)] + other, "const")
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in OPS.get(type(n.ops[0]), []):
                rep(n, "(%s %s %s)" % (seg(n.left), o, seg(n.comparators[0])), "compare")
        if isinstance(n, ast.BinOp):
            for o in AR.get(type(n.op), []):
                rep(n, "(%s %s %s)" % (seg(n.left), o, seg(n.right)), "arith")
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + j.join("(" + seg(v) + ")" for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                j2 = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, "(" + j2.join("(" + seg(v) + ")" for i, v in enumerate(n.values) if i != k) + ")", "drop operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "bool(" + seg(n.operand) + ")", "not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                rep(n.test, "True", "cond")
            rep(n.test, "False", "cond")
        if isinstance(n, ast.Constant) and n.value is not None:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "bool")
            elif isinstance(n.value, (int, float)):
                rep(n, repr(n.value + 1), "number")
                if n.value > 0:
                    rep(n, repr(n.value - 1), "number")
            elif isinstance(n.value, str) and n.value and "\n" not in n.value and n.value.count(" ") < 4:
                rep(n, repr(n.value + "x"), "string")
        if isinstance(n, ast.Constant) and n.value == "":
            rep(n, "'x'", "string")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in (0, 1):
            rep(n.slice, "-1", "index")
        if isinstance(n, ast.Call):
            a = n.args
            for k in range(len(a) - 1):
                x, y = seg(a[k]), seg(a[k + 1])
                if x != y and isinstance(a[k], type(a[k + 1])) and not isinstance(a[k], ast.Starred):
                    s0 = pos(a[k].lineno, a[k].col_offset); e0 = pos(a[k].end_lineno, a[k].end_col_offset)
                    s1 = pos(a[k + 1].lineno, a[k + 1].col_offset); e1 = pos(a[k + 1].end_lineno, a[k + 1].end_col_offset)
                    out.append({"file": rel, "line": n.lineno, "what": "swap args", "old": x + ", " + y, "new": y + ", " + x,
                                "src": src[:s0] + y + src[e0:s1] + x + src[e1:]})
            if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ("strip", "lower", "upper", "lstrip", "rstrip", "copy", "keys"):
                rep(n, seg(n.func.value), "drop call")
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "sorted", "str", "int", "float", "abs", "reversed") and len(n.args) == 1:
                rep(n, seg(n.args[0]), "drop call")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "deepcopy":
                rep(n, seg(n.args[0]), "drop call")
            if isinstance(n.func, ast.Name) and n.func.id in ("max", "min"):
                rep(n.func, {"max": "min", "min": "max"}[n.func.id], "minmax")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            rep(n, "pass", "delete stmt")
        if isinstance(n, ast.AugAssign):
            rep(n, seg(n.target) + " = " + seg(n.value), "aug to assign")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            rep(n, "return None", "return")
        if isinstance(n, ast.Break):
            rep(n, "continue", "break")
        if isinstance(n, ast.Continue):
            rep(n, "break", "continue")
        if isinstance(n, ast.For):
            rep(n.iter, "list(%s)[1:]" % seg(n.iter), "skip first")
            rep(n.iter, "list(%s)[:-1]" % seg(n.iter), "skip last")
            rep(n.iter, "list(%s)[::-1]" % seg(n.iter), "reverse")
    uniq, seen = [], set()
    for m in out:
        if m["src"] not in seen:
            seen.add(m["src"])
            try:
                ast.parse(m["src"])
            except SyntaxError:
                continue
            uniq.append(m)
    return uniq


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONUTF8="1", PYTHONWARNINGS="ignore")


def stable():
    base = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "stable", "pass"):
        if k in base:
            return set(base[k])


def tests(repo):
    x = os.path.join(repo, "..", "t.xml")
    if os.path.exists(x):
        os.unlink(x)
    try:
        subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-o", "junit_family=xunit2", "--junitxml=" + x,
                        "-o", "python_files=test_*.py *_test.py manually_generated_*.py"] + DESEL + ["tests"], cwd=repo, env=ENV,
                       capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    import xml.etree.ElementTree as ET
    r = ET.parse(x).getroot()
    n = bad = 0
    for t in r.iter("testcase"):
        n += 1
        bad += any(c.tag in ("failure", "error") for c in t)
    return not bad and n >= NTESTS[0]


DESEL, NTESTS = [], [0]


def calibrate(repo):
    """Deselect what fails on the unchanged tree."""
    x = os.path.join(repo, "..", "t.xml")
    r = subprocess.run([PY, "-m", "pytest", "-q", "-rfE", "-p", "no:cacheprovider", "--timeout=60", "-o", "junit_family=xunit2", "--junitxml=" + x,
                    "-o", "python_files=test_*.py *_test.py manually_generated_*.py", "tests"], cwd=repo, env=ENV, capture_output=True, text=True)
    for ln in r.stdout.splitlines():
        if ln.startswith("FAILED "):
            DESEL.append("--deselect=" + ln.split()[1])
    import xml.etree.ElementTree as ET
    NTESTS[0] = sum(1 for t in ET.parse(x).getroot().iter("testcase") if not any(c.tag in ("failure", "error") for c in t))
    print("tests on the unchanged tree:", NTESTS[0], "deselected", DESEL, flush=True)


def work(m, slot, div, everything, tlimit):
    repo = slot + "/repo"
    f = os.path.join(repo, m["file"])
    orig = open(os.path.join(SRC, m["file"])).read()
    open(f, "w").write(m["src"])
    try:
        if not tests(repo):
            return "tests", []
        order = ORDER.get(os.path.basename(m["file"]), "").split()
        if os.path.dirname(m["file"]).endswith(("classes", "graph")) or "/classes/" in m["file"]:
            order = ["C28"]
        if RELAX[0] or not order:
            order += [p for p in ALL if p not in order]
        killers, odd = [], []
        for p in order:
            env = dict(os.environ, BPMNMON_REPO=repo, VERIF_SEED="1")
            c = subprocess.run([sys.executable, slot + "/verif/check.py", p, "--shards", "1", "--count", str(max(min(60, COUNTS[p] // 4), COUNTS[p] // div))],
                               env=env, capture_output=True, text=True, timeout=900)
            if c.returncode == 1:
                killers.append(p)
                if not everything:
                    break
            elif c.returncode == 2:
                odd.append(p + ":" + (c.stdout + c.stderr)[-200:])
        return ("killed" if killers else "SURVIVED"), killers + odd
    finally:
        open(f, "w").write(orig)


COUNTS = {}
RELAX = [False]


def main():
    out = sys.argv[1]
    opt = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1") for a in sys.argv[2:])
    sys.path.insert(0, HERE)
    import importlib
    for p in ALL:
        m = importlib.import_module("bpmnmon.props." + p)
        COUNTS[p] = m.COUNT["quick"] if isinstance(m.COUNT, dict) else m.COUNT
    RELAX[0] = "rest" in opt
    files = opt["files"].split(",") if "files" in opt else None
    ms = []
    for d, _, fs in sorted(os.walk(SRC + "/bpmn_python")):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py" and (files is None or f in files or os.path.basename(d) in files):
                ms += mutants(os.path.join(d, f), os.path.relpath(os.path.join(d, f), SRC))
    if "retry" in opt:                      # only those recorded as survivors in an earlier file
        key = lambda m: (m["file"], m["line"], m["what"], m["old"], m["new"])
        want = {key(json.loads(l)) for l in open(opt["retry"]) if json.loads(l)["result"] == "SURVIVED"}
        ms = [m for m in ms if key(m) in want]
    ms = ms[::int(opt.get("every", 1))]
    random.Random(5).shuffle(ms)
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["what"], r["old"], r["new"]) for r in map(json.loads, open(out))}
        ms = [m for m in ms if (m["file"], m["line"], m["what"], m["old"], m["new"]) not in done]
    print(len(ms), "mutants", flush=True)
    jobs = int(opt.get("jobs", 8))
    base = tempfile.mkdtemp(prefix="mut_")
    slots = []
    for k in range(jobs):
        s = base + "/s%d" % k
        os.makedirs(s)
        subprocess.run(["cp", "-a", SRC, s + "/repo"], check=True)
        os.makedirs(s + "/verif")
        for n in ("check.py", "bpmnmon", "known_findings.txt", "properties.jsonl"):
            subprocess.run(["cp", "-a", HERE + "/" + n, s + "/verif/"], check=True)
        slots.append(s)
    calibrate(slots[0] + "/repo")
    lock, free = threading.Lock(), list(slots)
    fh = open(out, "a")
    stat = {}

    def one(m):
        with lock:
            s = free.pop()
        try:
            try:
                res, k = work(m, s, int(opt.get("div", 6)), "all" in opt, 900)
            except Exception as ex:
                res, k = "ERROR " + repr(ex)[:200], []
        finally:
            with lock:
                free.append(s)
        r = {k2: m[k2] for k2 in ("file", "line", "what", "old", "new")}
        r.update(result=res, by=k)
        with lock:
            fh.write(json.dumps(r) + "\n"); fh.flush()
            stat[res] = stat.get(res, 0) + 1
            if sum(stat.values()) % 50 == 0:
                print(stat, flush=True)
    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, ms))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print("done", stat)


if __name__ == "__main__":
    main()
