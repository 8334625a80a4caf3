"""C31: a file that is not a readable process is rejected with an error."""
import csv
import io
import os
from xml.parsers import expat

from .. import core, csvmodel, csvwork, objview, xmlmodel, xmlwork

RULE = ("A fault is put into a generated valid file: XML cut off at any byte, mismatched or missing tags, duplicate attributes, unbound "
        "prefixes, undefined entities, illegal characters, wrong encodings, content after the root, random byte damage (an independent "
        "expat parser decides whether the result is well-formed), an empty, missing or unreadable file; CSV with a missing column, an order "
        "label used twice, a row without continuation, a goto to nowhere, surplus cells, an open quote, bytes that are not UTF-8. The import must "
        "raise an error; the same file without the fault must be imported, before and after. Non-trivial: any fault; distinct by fault "
        "and damaged content.")
ASSUMPTIONS = ["expat is right about well-formedness", "which error is raised, and what the diagram object contains after it, is not prescribed"]
COUNT = {"quick": 4000, "thorough": 180000}
MIN = {"cases": 400, "rejections": 4000, "xml:truncated": 200, "xml:damaged": 200, "csv:duplicate": 100, "csv:dangling": 100,
       "csv:gap": 60, "csv:goto": 100, "csv:column": 100, "csv:cells": 60, "csv:encoding": 100, "csv:quote": 60, "files": 100,
       "into_objects_in_use": 300, "missing_beside_similar": 40}


def well_formed(data):
    p = expat.ParserCreate(namespace_separator="\x1f")
    try:
        p.Parse(data, True)
        return True
    except (expat.ExpatError, LookupError, ValueError):
        return False


def refuse(ctx, kind, fn, path, what):
    ctx.count("%s:%s" % (kind, what[0]))
    ctx.ev("import of a file with a fault", what)
    ctx.count("ops")
    try:
        fn(path)
    except core.NoTermination as ex:
        raise core.Violation("import of a file with a fault (%s) does not terminate: %s" % (what, ex))
    except Exception:
        ctx.count("rejections")
        return
    except BaseException as ex:
        raise core.Violation("import of a file with a fault (%s) ends with %s" % (what, type(ex).__name__))
    raise core.Violation("a file with a fault was imported without an error: %s" % (what,))


# ------------------------------------------------------------------ XML
def tags(s):
    """(start, end) of the plain start tags of a text without comments and CDATA in tag-like form."""
    import re
    return [(m.start(), m.end()) for m in re.finditer(r"<[A-Za-z_][\w.:-]*[^<>]*>", s)]


def damage(rng, data, s):
    """One damaged form of the document: (name, bytes)."""
    how = rng.choice(["truncated", "truncated", "truncated", "damaged", "damaged", "damaged", "mismatched", "missing tag", "attribute twice",
                      "unbound prefix", "undefined entity", "bare character", "illegal character", "encoding", "second root", "text outside",
                      "wrong declaration"])
    if how == "truncated":
        k = rng.choice([rng.randrange(len(data)), rng.randrange(len(data)), len(data) - rng.randint(1, min(40, len(data))), len(data) // 2])
        return how, data[:k]
    if how == "damaged":
        b = bytearray(data)
        for _ in range(rng.choice([1, 1, 1, 2, 5])):
            k = rng.randrange(len(b))
            r = rng.random()
            if r < 0.4:
                del b[k:k + rng.choice([1, 1, 2, 10, 100])]
            elif r < 0.7:
                b[k:k] = rng.choice([b"<", b">", b"&", b"\"", b"'", b"/", b"=", b"\x00", b"\xff", b"]]>", b"<x>", b"</x>", b"--", b"<!--", b"<?"])
            else:
                b[k] = rng.randrange(256)
            if not b:
                break
        return how, bytes(b)
    ts = tags(s)
    a, b = rng.choice(ts)
    t = s[a:b]
    if how == "mismatched":
        k = [i for i in range(len(s)) if s.startswith("</", i)]
        i = rng.choice(k)
        s = s[:i + 2] + "x" + s[i + 2:]
    elif how == "missing tag":
        if t.endswith("/>"):
            s = s[:a] + t[:-2] + ">" + s[b:]
        else:
            s = s[:a] + s[b:]
    elif how == "attribute twice":
        n = rng.choice(["id", "name", "sourceRef", "x", "width"])
        s = s[:b - (2 if t.endswith("/>") else 1)] + ' %s="1" %s="1"' % (n, n) + s[b - (2 if t.endswith("/>") else 1):]
    elif how == "unbound prefix":
        s = s[:b] + "<nsp:task id=\"z\"/>" + s[b:]
    elif how == "undefined entity":
        s = s[:b] + "&undefined;" + s[b:]
    elif how == "bare character":
        e = b - (2 if t.endswith("/>") else 1)
        s = s[:e] + ' zz="a %s b"' % rng.choice(["&", "<", "& <"]) + s[e:]
    elif how == "illegal character":
        e = b - (2 if t.endswith("/>") else 1)
        s = s[:e] + ' zz="a%sb"' % rng.choice(["\x01", "\x0b", "\x1f", "\ufffe", "&#0;", "&#8;"]) + s[e:]
    elif how == "encoding":
        d = s.encode("utf-8")
        e = d.index(b">", rng.randrange(max(1, len(d) - 30)))
        return how, d[:e] + b" <!-- \xe9\xff -->" + d[e:] if rng.random() < 0.3 else d[:e + 1] + b"\xc3\x28" + d[e + 1:]
    elif how == "second root":
        s = s.rstrip() + rng.choice(["<a/>", s[s.index("<", 5 if s.startswith("<?") else 0):], "<definitions></definitions>"])
    elif how == "text outside":
        s = rng.choice([s.rstrip() + "trailing", "leading " + s, "\n" + s if s.startswith("<?xml") else "x" + s])
    elif how == "wrong declaration":
        s = rng.choice(["<?xml version='1.0' encoding='no-such-encoding'?>", "<?xml encoding='utf-8'?>", "<?xml version='1.0'",
                        "<?xml version='1.0' encoding='utf-16'?>"]) + s[s.index("?>") + 2 if s.startswith("<?xml") else 0:]
    return how, s.encode("utf-8")


def xml_case(ctx, rng):
    m = xmlwork.gen(rng).model()
    lex = xmlmodel.Lex(rng) if rng.random() < 0.5 else xmlmodel.Lex()
    lex.enc = "utf-8"
    data = xmlmodel.write(m, lex)
    ctx.input("document.bpmn", data.decode("utf-8"))
    full = xmlwork.load(ctx, xmlwork.put(ctx, data))
    s = data.decode("utf-8")
    bad = 0
    for _ in range(12):
        how, d = damage(rng, data, s)
        if well_formed(d):
            ctx.count("damage_without_effect")
            continue
        bad += 1
        ctx.input("damaged.bpmn", d.decode("utf-8", "backslashreplace"))
        ctx.seen((how, d))
        ctx.sample({"fault": how, "end of file": d[-80:].decode("utf-8", "backslashreplace")})
        # mostly into a new object, sometimes into one that holds the process
        g = full if rng.random() < 0.2 else objview.obj(ctx)
        ctx.count("into_objects_in_use", g is full)
        refuse(ctx, "xml", g.load_diagram_from_xml_file, xmlwork.put(ctx, d), (how,))
    ctx.input("damaged.bpmn", "")
    g = xmlwork.load(ctx, xmlwork.put(ctx, data), rng.choice([g, None]) if bad else None)
    ctx.equal(sorted(xmlmodel.norm(m)["nodes"]), sorted(n for n in objview.view(g)["nodes"]), "nodes imported after failed imports")


# ------------------------------------------------------------------ CSV
def text_of(rng, header, rows):
    buf = io.StringIO(newline="")
    w = csv.writer(buf, lineterminator="\n", quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
    w.writerow(header)
    for r in rows:
        w.writerow(r)
    return buf.getvalue()


def open_places(top):
    """Items of sequences behind which nothing follows, neither in the sequence nor in an enclosing one: [(seq, index)]."""
    out = []

    def visit(seq, cont):
        for k, it in enumerate(seq):
            more = k + 1 < len(seq)
            if it["t"] == "split":
                for b in it["branches"]:
                    visit(b, cont or more)
        if not cont:
            out.append(seq)
    visit(top, False)
    return out


def labels_below(it):
    if it["t"] != "split":
        return {it["label"]}
    return {x for b in it["branches"] for i in b for x in labels_below(i)}


def csv_fault(rng, sh):
    """(name, bytes) of the sheet with one fault, or None if that fault is not possible here."""
    rows = sh.rows()
    labs = [r[0] for r in rows]
    header = list(csvmodel.COLS)
    how = rng.choice(["column", "duplicate", "duplicate", "dangling", "dangling", "gap", "gap", "goto", "goto", "cells", "encoding", "quote"])
    if how == "column":
        c = rng.choice(["Activity", "Terminated"])
        k = header.index(c)
        if rng.random() < 0.5:
            header[k] = rng.choice(["X", c + "2", c.lower()])
            return (how, c), text_of(rng, header, rows).encode("utf-8")
        return (how, c), text_of(rng, header[:k] + header[k + 1:], [r[:k] + r[k + 1:] for r in rows]).encode("utf-8")
    if how == "duplicate":
        r = list(rng.choice(rows))
        if rng.random() < 0.6:
            r[1] = rng.choice(["again", r[1], ""])
        if rng.random() < 0.5:
            r[0] = rng.choice([" %s", "%s ", "  %s  ", "%s   "]) % r[0]
            if rng.random() < 0.3:
                rows = [[" " + x[0]] + x[1:] if x[0] == r[0].strip() else x for x in rows]
        rows.insert(rng.choice([len(rows), rng.randrange(len(rows) + 1)]), r)
        return (how, r[0]), text_of(rng, header, rows).encode("utf-8")
    if how == "dangling":
        ends = [s[-1] for s in open_places(sh.top) if s[-1]["t"] == "act" and s[-1]["term"]]
        if not ends:
            return None
        lab = rng.choice(ends)["label"]
        for r in rows:
            if r[0] == lab:
                r[5] = rng.choice(["", "no", "-", "Yes!", "true"])
        return (how, lab), text_of(rng, header, rows).encode("utf-8")
    if how == "gap":
        cand = []
        for s in open_places(sh.top):
            for k in range(1, len(s)):
                p = s[k - 1]
                # the step before it is an activity, which then leads nowhere
                if p["t"] == "act" and not p["term"]:
                    cand.append(s[k])
                # or a split with a branch that has an activity at its open end
                elif p["t"] == "split" and any(b[-1]["t"] == "act" and not b[-1]["term"] for b in p["branches"]) and s[k]["t"] == "act":
                    cand.append(s[k])
        if not cand:
            return None
        gone = labels_below(rng.choice(cand))
        return (how, sorted(gone)), text_of(rng, header, [r for r in rows if r[0] not in gone]).encode("utf-8")
    if how == "goto":
        gs = [r for r in rows if r[1].lower().startswith("goto ")]
        if not gs:
            return None
        r = rng.choice(gs)
        bad = rng.choice(["goto %d" % (10 ** 6), "goto", "goto ", "GOTO nowhere", "goto %sz9" % rng.choice(labs), "goto -1", "Goto %s1z" % rng.choice(labs)])
        if len(bad.split()) > 1 and bad.split()[1] in labs:
            return None
        r[1] = bad
        return (how, bad), text_of(rng, header, rows).encode("utf-8")
    if how == "cells":
        if len(rows) < 2:
            return None
        r = rows[rng.randrange(1, len(rows))]
        r += ["surplus"] * rng.choice([1, 1, 2, 5])
        return (how, r[0]), text_of(rng, header, rows).encode("utf-8")
    if how == "encoding":
        d = text_of(rng, header, rows).encode("utf-8")
        enc = rng.choice([b"\xff", b"\xe9", b"\xc3\x28", b"\x80", b"\xfe\xff"])
        r = rng.choice(rows)
        r[rng.choice([1, 2, 3])] += "\ue0ff"
        return (how, repr(enc)), text_of(rng, header, rows).encode("utf-8").replace("\ue0ff".encode("utf-8"), enc)
    if how == "quote":
        r = rows[-1]
        buf = io.StringIO(newline="")
        w = csv.writer(buf, lineterminator="\n", quoting=csv.QUOTE_ALL)
        w.writerow(header)
        for x in rows:
            w.writerow(x)
        t = buf.getvalue()
        k = t.rindex('","')
        return (how, r[0]), t[:k + 3].encode("utf-8") + rng.choice([b"yes\n", b"\n", b"", b"no"])
    raise AssertionError(how)


def csv_case(ctx, rng):
    sh = csvmodel.sheet(rng, size=rng.choice([2, 4, 8, 15, 25]))
    t = sh.write(plain=True)
    ctx.input("sheet.csv", t)
    full = csvwork.load(ctx, csvwork.put(ctx, t))
    g = None
    for _ in range(10):
        f = csv_fault(rng, sh)
        if f is None:
            ctx.count("damage_without_effect")
            continue
        what, d = f
        ctx.input("damaged.csv", d.decode("utf-8", "backslashreplace"))
        ctx.seen((what, d))
        ctx.sample({"fault": what, "file": d[:300].decode("utf-8", "backslashreplace")})
        g = full if rng.random() < 0.2 else objview.obj(ctx)
        ctx.count("into_objects_in_use", g is full)
        refuse(ctx, "csv", g.load_diagram_from_csv_file, xmlwork.put(ctx, d, "bad.csv"), what)
    ctx.input("damaged.csv", "")
    g = csvwork.load(ctx, csvwork.put(ctx, t), rng.choice([g, None]))
    kinds, _, _ = csvwork.flowgraph(g)
    ctx.equal(sorted(sh.nodes), sorted(i for i in kinds if not csvwork.is_gateway(kinds[i])), "nodes imported after failed imports")


VALID_XML = (b'<?xml version="1.0"?><definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL" xmlns:bpmndi="http://www.omg.org/spec/BPMN/20100524/DI">'
             b'<process id="p"><task id="t"/></process><bpmndi:BPMNDiagram id="d"><bpmndi:BPMNPlane id="l" bpmnElement="p"/></bpmndi:BPMNDiagram></definitions>')
VALID_CSV = b"Order,Activity,Condition,Who,Subprocess,Terminated\n0,s,,,,\n1,t,,,,\n2,e,,,,yes\n"


def file_case(ctx, rng):
    d = ctx.dir()
    g = objview.obj(ctx)
    if rng.random() < 0.3:
        q = g.add_process_to_diagram("p")
        g.add_sequence_flow_to_diagram(q, g.add_start_event_to_diagram(q, "s")[0], g.add_end_event_to_diagram(q, "e")[0], "")
        ctx.count("into_objects_in_use")
    kind, fn = rng.choice([("xml", g.load_diagram_from_xml_file), ("csv", g.load_diagram_from_csv_file)])
    how = rng.choice(["missing", "missing directory", "directory", "empty", "dangling link", "binary", "spaces"])
    p = os.path.join(d, rng.choice(["in.bpmn", "in.csv", "in", "in.xml"]))
    if how == "missing directory":
        p = os.path.join(d, "no", "such", "in")
    elif how == "directory":
        os.mkdir(p)
    elif how == "dangling link":
        os.symlink(os.path.join(d, "nowhere"), p)
    elif how == "missing":
        if rng.random() < 0.7:
            # readable files of similar names do not make up for it
            name = rng.choice(["in.bpmn", "in.csv", "in", "in.xml", "in ", " in.csv", "IN.csv", "in.bpmn.xml"])
            p = os.path.join(d, name)
            ok = VALID_XML if kind == "xml" else VALID_CSV
            for n in ("in", "in.bpmn", "in.csv", "in.xml", "in.CSV", "IN", "in.bpmn.bpmn", "in.txt", "in.csv.csv", "in.bpmn~", "in.json"):
                if n != name:
                    with open(os.path.join(d, n), "wb") as f:
                        f.write(ok)
            ctx.count("missing_beside_similar")
    else:
        with open(p, "wb") as f:
            f.write({"empty": b"", "binary": bytes([0xff, 0xfe, 0x00]) + bytes(rng.randrange(256) for _ in range(400)),
                     "spaces": b" \n"}[how])
    if how == "spaces" and kind == "csv":
        how = "missing"
        os.unlink(p)
    ctx.seen((kind, how))
    refuse(ctx, kind, fn, p, (how,))
    ctx.count("files")


def case(ctx, i, rng):
    r = rng.random()
    if r < 0.4:
        xml_case(ctx, rng)
    elif r < 0.8:
        csv_case(ctx, rng)
    else:
        file_case(ctx, rng)
