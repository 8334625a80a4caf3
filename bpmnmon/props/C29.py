"""C29: exports write exactly the requested file, completely or with an error."""
import csv
import hashlib
import io
import os
import resource
import shutil
import signal
import stat
import sys

from .. import blockproc, core, objview, sources, xmlmodel

RULE = ("Exports of generated diagrams into scratch directories in every prior state (missing directories, shorter, longer, equal or "
        "unrelated previous files, links to a file, decoys with similar names, relative paths, other working directories). The whole directory tree is "
        "recorded before and after, as are files opened for writing elsewhere. Faults are injected at chosen points: a file size limit after "
        "k bytes, a full device, no permission (as an unprivileged user), directories and files in the way, impossible names; the export must "
        "then raise, and succeed completely when repeated without the fault. Non-trivial: any export; distinct by operation, prior state, fault point and content.")
ASSUMPTIONS = ["faults are those the operating system reports while the file is written or closed; power loss is not simulated",
               "what remains of the target itself after a failed export is not prescribed"]
LEVEL = "fault_enumeration"
COUNT = {"quick": 3200, "thorough": 160000}
MIN = {"cases": 300, "exports": 2000, "fault:limit": 200, "fault:full": 50, "fault:obstacle": 100, "prior:longer": 50,
       "prior:link": 40, "missing_directories": 100, "errors_observed": 400, "retries": 300}
OPENED = []
ACTIVE = [False]


def hook(event, args):
    if ACTIVE[0] and event == "open" and isinstance(args[0], (str, bytes)):
        mode, flags = args[1], args[2]
        if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)):
            OPENED.append(os.path.abspath(os.fsdecode(args[0])))


def setup(ctx):
    sys.addaudithook(hook)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    from bpmn_python import bpmn_diagram_rep  # noqa: F401  loaded before any child gives up its rights


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode):
                out[os.path.relpath(p, root)] = "dir"
            elif stat.S_ISLNK(st.st_mode):
                out[os.path.relpath(p, root)] = "link " + os.readlink(p)
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = "file " + hashlib.blake2b(f.read(), digest_size=12).hexdigest()
    return out


KINDS = ("export_xml_file", "export_xml_file_no_di", "export_csv_file")


class Work:
    """A diagram, an export of it, and the bytes that export must write."""

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.kind = rng.choice(KINDS)
        if self.kind == "export_csv_file" or rng.random() < 0.3:
            self.g = objview.new()
            p = blockproc.process(rng, size=rng.choice([1, 4, 9, 20]))
            p.build(self.g)
            self.fp = p.fingerprint()
        else:
            b = sources.built(ctx, rng)
            self.g, self.fp = b.g, b.fingerprint()
        d = ctx.dir()
        ctx.run(self.kind, self.fn(), d, "ref")
        with open(d + "ref", "rb") as f:
            self.data = f.read()
        self.readable(self.data)

    def fn(self):
        return getattr(self.g, self.kind)

    def readable(self, data):
        """The content is a complete document with all elements of the diagram."""
        C = objview.consts()
        nodes = dict(self.g.diagram_graph.nodes(data=True))
        if self.kind == "export_csv_file":
            rows = list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))
            self.ctx.check(data.endswith(b"\n") and all(len(r) == 6 for r in rows), "incomplete CSV file")
            n = sum(1 for d in nodes.values() if d[C.type] in (C.task, C.subprocess, C.start_event, C.end_event))
            names = [r for r in rows[1:] if not r[1].startswith("goto ")]
            self.ctx.equal(n, len(names), "rows of the CSV file")
        else:
            try:
                m = xmlmodel.read(data)
            except xmlmodel.ReadError as ex:
                raise core.Violation("incomplete XML file: %s" % ex)
            self.ctx.equal(sorted(nodes), sorted(m["nodes"]), "nodes in the XML file")


def previous(rng, w):
    r = rng.choice(["none", "none", "shorter", "longer", "longer", "same", "junk", "empty", "nearly"])
    return r, {"none": None, "shorter": w.data[:len(w.data) // 2], "longer": w.data + os.urandom(rng.choice([1, 17, 5000])),
               "same": w.data, "junk": os.urandom(rng.choice([3, 4000, 300000])), "empty": b"",
               "nearly": w.data[:-1] + b"X"}[r]


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


class Place:
    """A scratch tree with decoys and a target location inside."""

    def __init__(self, ctx, rng, w):
        self.root = ctx.dir().rstrip(os.sep)
        self.name = rng.choice(["out.bpmn", "o", "a b.csv", "x.tar.gz", ".hidden", "żółć.xml", "out", " lead.xml", "trail.csv ", "dot.", "%41.xml", "a$b.xml",
                                "UPPER.XML", "x.csv.csv", "-n", "#f&g;h", "e\u0301.xml", "*.xml", "[ab].csv", "{0}"])
        self.missing = 0
        self.alias = None
        base = os.path.join(self.root, "work")
        os.mkdir(base)
        for d in (self.root, base):
            for n in (self.name + ".bak", self.name + "~", "other", self.name + ".tmp", "tmp", self.name[:-1] or "p"):
                if n != self.name:
                    put(os.path.join(d, n), os.urandom(20))
        os.mkdir(os.path.join(base, "sub"))
        put(os.path.join(base, "sub", self.name), b"decoy in sub")
        put(os.path.join(self.root, self.name), b"decoy above")
        style = rng.choice(["plain", "plain", "new", "deep", "dots", "nosep", "subname", "linkdots"])
        self.style = style
        self.dir = base + os.sep
        if style == "new":
            self.dir = os.path.join(base, "new") + os.sep
        elif style == "deep":
            self.dir = os.path.join(base, "n1", "n 2", "ñ3", "n4") + os.sep
        elif style == "dots":
            self.dir = os.path.join(base, "sub", "..") + os.sep
        elif style == "linkdots":
            # the parent of a linked directory is not the directory of the link
            os.makedirs(os.path.join(self.root, "far", "deep"))
            os.symlink(os.path.join(self.root, "far", "deep"), os.path.join(base, "ln"))
            self.dir = os.path.join(base, "ln", "..") + os.sep
        elif style == "nosep":
            self.dir = os.path.join(base, "pre")
        elif style == "subname":
            os.mkdir(os.path.join(base, "s2"))
            self.name = os.path.join("s2", self.name)
        self.path = os.path.normpath(self.dir + self.name)
        if style == "linkdots":
            self.path = os.path.join(self.root, "far", self.name)
        self.cwd = rng.choice([None, None, self.root, base])
        self.given = self.dir
        if self.cwd and rng.random() < 0.7:
            r = os.path.relpath(self.dir, self.cwd)
            self.given = r + ("" if style == "nosep" else os.sep)
            if style == "dots":
                self.given = os.path.relpath(base, self.cwd) + os.sep + "sub" + os.sep + ".." + os.sep
            elif style == "linkdots":
                self.given = os.path.relpath(base, self.cwd) + os.sep + "ln" + os.sep + ".." + os.sep
        if style in ("new", "deep"):
            self.missing = 1
            ctx.count("missing_directories")

    def prior(self, data):
        if data is not None:
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
            put(self.path, data)

    def linked(self, how, data):
        """The target is another name of a file elsewhere."""
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        os.mkdir(os.path.join(self.root, "links"))
        self.alias = os.path.join("links", "real")
        real = os.path.join(self.root, self.alias)
        if how != "dangling":
            put(real, data if data is not None else b"old content")
        if how == "hard":
            os.link(real, self.path)
        else:
            os.symlink(real, self.path)

    def made(self):
        """Directories the export may create."""
        if self.style == "linkdots":
            return set()
        out, p = set(), os.path.normpath(self.dir)
        while len(p) > len(self.root):
            out.add(os.path.relpath(p, self.root))
            p = os.path.dirname(p)
        return out


def export(ctx, w, pl):
    """Runs the export; returns the exception or None. Records files opened elsewhere."""
    ctx.count("exports")
    ctx.ev(w.kind, pl.given, pl.name)
    old = os.getcwd()
    OPENED[:] = []
    err = None
    ACTIVE[0] = True
    try:
        if pl.cwd:
            os.chdir(pl.cwd)
        try:
            w.fn()(pl.given, pl.name)
        except core.NoTermination:
            raise
        except Exception as ex:
            err = ex
    finally:
        ACTIVE[0] = False
        os.chdir(old)
    for p in set(OPENED):
        if not p.startswith(pl.root + os.sep) and not p.startswith("/dev/"):
            ctx.check(not os.path.lexists(p), "the export left a file %s outside its directory", p)
    return err


def judge(ctx, w, pl, before, err, must_fail=False, what=""):
    after = tree(pl.root)
    t = os.path.relpath(pl.path, pl.root)
    ok = {t} | pl.made()
    if pl.alias:
        # the same file under another name: may follow the target or keep its old content
        if after.get(pl.alias) != before.get(pl.alias) and err is None:
            with open(os.path.join(pl.root, pl.alias), "rb") as f:
                ctx.check(f.read() == w.data, "%s wrote other content through a link%s", w.kind, what)
        before.pop(pl.alias, None)
        after.pop(pl.alias, None)
    for p in sorted(set(before) | set(after)):
        if before.get(p) != after.get(p):
            ctx.check(p in ok, "%s changed %s (%s -> %s)%s", w.kind, p, before.get(p), after.get(p), what)
            if p != t:
                ctx.check(after.get(p) == "dir" and p not in before, "%s changed directory entry %s%s", w.kind, p, what)
    if err is None:
        ctx.check(not must_fail, "%s returned normally although the file could not be written%s", w.kind, what)
        ctx.check(os.path.isfile(pl.path), "%s returned normally, but the file does not exist%s", w.kind, what)
        with open(pl.path, "rb") as f:
            got = f.read()
        ctx.check(got == w.data, "%s returned normally, but the file has %d bytes instead of the %d of the complete content%s", w.kind,
                  len(got), len(w.data), what)
    else:
        ctx.count("errors_observed")
        ctx.check(must_fail, "%s raised %s: %s%s", w.kind, type(err).__name__, core.short(str(err)), what)


def child(ctx, fn):
    """Runs fn in a forked child; returns what it returned (a short text)."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = fn()
            except BaseException as ex:
                out = "!%s: %s" % (type(ex).__name__, ex)
            os.write(wr, out.encode("utf-8", "replace")[:2000])
        finally:
            os._exit(0)
    os.close(wr)
    out = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode("utf-8", "replace")


def outcome(ctx, s):
    """Error of a child as reported ('' = returned normally)."""
    if s.startswith("!"):
        raise core.Inconclusive("child: " + s)
    return None if s == "ok" else RuntimeError(s)


def plain(w, pl):
    try:
        if pl.cwd:
            os.chdir(pl.cwd)
        w.fn()(pl.given, pl.name)
        return "ok"
    except Exception as ex:
        return "%s: %s" % (type(ex).__name__, str(ex)[:200])


def limited(ctx, w, pl, k):
    """File size limit of k bytes, as on a file system that fills up after k bytes."""
    def fn():
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        return plain(w, pl)
    return outcome(ctx, child(ctx, fn))


def as_user(ctx, w, pl):
    def fn():
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            return "?"
        return plain(w, pl)
    out = child(ctx, fn)
    return out if out == "?" else outcome(ctx, out)


def retry(ctx, w, pl, before):
    err = export(ctx, w, pl)
    judge(ctx, w, pl, before, err, what=" (repeated after a failure)")
    ctx.count("retries")


def case(ctx, i, rng):
    w = Work(ctx, rng)
    pl = Place(ctx, rng, w)
    r = rng.choice(["series", "series", "limit", "limit", "full", "user", "obstacle", "obstacle", "name"])
    if pl.style == "subname" and r == "user":
        r = "series"
    what, data = previous(rng, w)
    ctx.input("place", {"root": pl.root, "directory": pl.given, "filename": pl.name, "cwd": pl.cwd, "prior": what, "fault": r})
    ctx.sample({"operation": w.kind, "directory": pl.given.replace(pl.root, "ROOT"), "file": pl.name, "prior": what, "scenario": r,
                "bytes": len(w.data)})
    key = [w.kind, pl.style, what, r]
    try:
        if r == "series":
            how = rng.choice([None] * 7 + ["soft", "dangling", "hard"])
            if how:
                pl.linked(how, data)
                ctx.count("prior:link")
                key.append(how)
            else:
                pl.prior(data)
                ctx.count("prior:" + what)
            for k in range(rng.choice([1, 2, 3])):
                if k:
                    w = Work(ctx, rng)
                before = tree(pl.root)
                err = export(ctx, w, pl)
                judge(ctx, w, pl, before, err)
            key.append(k)
        elif r == "limit":
            pl.prior(data)
            n = len(w.data)
            ks = {0, 1, n - 1, rng.randrange(n), rng.randrange(n), n // 2, n, n + 1, 4096, 8191, 8192, 8193}
            for k in sorted(ks):
                before = tree(pl.root)
                err = limited(ctx, w, pl, k)
                ctx.count("fault:limit" if k < n else "no_fault")
                ctx.count("exports")
                judge(ctx, w, pl, before, err, must_fail=k < n, what=" (limit of %d of %d bytes)" % (k, n))
            retry(ctx, w, pl, tree(pl.root))
            key.append(n)
        elif r == "full":
            os.makedirs(os.path.dirname(pl.path), exist_ok=True)
            os.symlink("/dev/full", pl.path)
            before = tree(pl.root)
            err = export(ctx, w, pl)
            ctx.count("fault:full")
            if err is None and os.path.islink(pl.path):
                raise core.Violation("%s returned normally although the device is full" % w.kind)
            judge(ctx, w, pl, before, err, must_fail=os.path.islink(pl.path), what=" (device full)")
            os.unlink(pl.path)
            retry(ctx, w, pl, tree(pl.root))
        elif r == "user":
            if os.geteuid() != 0:
                ctx.count("user_fault_not_possible")
                return
            how = rng.choice(["directory", "file", "parent"])
            os.chmod(ctx.scratch, 0o711)
            for d, ds, fs in os.walk(pl.root):
                os.chmod(d, 0o755)
            os.chmod(os.path.dirname(pl.root), 0o755)
            if how == "file":
                os.makedirs(os.path.dirname(pl.path), exist_ok=True)
                put(pl.path, data or b"old")
                os.chmod(pl.path, 0o444)
                os.chmod(os.path.dirname(pl.path), 0o755)
            elif how == "directory":
                os.makedirs(os.path.dirname(pl.path), exist_ok=True)
                os.chmod(os.path.dirname(pl.path), 0o555)
            before = tree(pl.root)
            err = as_user(ctx, w, pl)
            if err == "?":
                ctx.count("user_fault_not_possible")
                return
            ctx.count("fault:user")
            ctx.count("exports")
            key.append(how)
            judge(ctx, w, pl, before, err, must_fail=True, what=" (no permission: %s)" % how)
            retry(ctx, w, pl, before)
        elif r == "obstacle":
            how = rng.choice(["dir at target", "full dir at target", "file in directory", "file as directory"])
            if how.endswith("target"):
                os.makedirs(pl.path, exist_ok=True)
                if how.startswith("full"):
                    put(os.path.join(pl.path, "inner"), b"x")
            elif how == "file in directory" and pl.style == "deep":
                put(os.path.join(pl.root, "work", "n1"), b"in the way")
            else:
                pl.dir = pl.given = os.path.join(pl.root, "work", "other") + os.sep
                pl.cwd, pl.name = None, "out"
                pl.path = pl.dir + "out"
            before = tree(pl.root)
            err = export(ctx, w, pl)
            ctx.count("fault:obstacle")
            key.append(how)
            after = tree(pl.root)
            ctx.check(err is not None, "%s returned normally with an obstacle (%s)", w.kind, how)
            ctx.count("errors_observed")
            for p in before:
                ctx.check(before[p] == after.get(p), "%s with an obstacle (%s) changed %s", w.kind, how, p)
            if how.endswith("target"):
                shutil.rmtree(pl.path)
                retry(ctx, w, pl, tree(pl.root))
        else:
            how = rng.choice(["long", "nul"])
            pl.name = {"long": "x" * 300, "nul": "a\0b"}[how]
            before = tree(pl.root)
            err = export(ctx, w, pl)
            ctx.count("fault:name")
            key.append(how)
            ctx.check(err is not None, "%s returned normally for an impossible name (%s)", w.kind, how)
            ctx.count("errors_observed")
            after = tree(pl.root)
            for p in set(before) | set(after):
                ctx.check(before.get(p) == after.get(p) or p in pl.made(), "%s with an impossible name changed %s", w.kind, p)
    finally:
        for d, ds, fs in os.walk(pl.root):
            if not os.path.islink(d):
                os.chmod(d, 0o755)
    ctx.seen((key, w.fp))
