"""Abstract BPMN models, an independent writer with lexical variation and an independent reader.

A model is a plain dict ("M"):
  processes  list of {id,name?,isClosed?,isExecutable?,processType?,laneset?,children:[...]}
  children   ordered list of node dicts and flow dicts; a sub-process node has its own children
  collab     None | {id, participants:[...], msgflows:[...]}
  shapes     list of {elem,x,y,w,h,isExpanded?,isHorizontal?}
  edges      list of {elem,wps:[(x,y),...]}
Optional attributes are simply missing from the dict when absent in the file.
"""
import re
import xml.etree.ElementTree as ET

from . import text


def num(v):
    """Value of an xsd:double."""
    f = float(v.strip())
    if f != f or f in (float("inf"), float("-inf")):
        raise ValueError("coordinate %r" % v)
    return f

TASKS = ["task", "userTask", "serviceTask", "manualTask"]
GATEWAYS = ["inclusiveGateway", "exclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway"]
EVENTS = ["startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent"]
KINDS = TASKS + ["subProcess", "dataObject"] + GATEWAYS + EVENTS + ["boundaryEvent"]

EVDEFS = {
    "startEvent": ["message", "timer", "conditional", "escalation", "signal"],
    "intermediateCatchEvent": ["message", "timer", "signal", "conditional", "escalation"],
    "endEvent": ["message", "signal", "escalation", "error", "compensate", "terminate"],
    "intermediateThrowEvent": ["message", "signal", "escalation", "compensate"],
    "boundaryEvent": ["message", "timer", "signal", "conditional", "escalation", "error"],
}
# kind -> attribute -> (BPMN default or None, possible values or a marker)
BOOL = ("true", "false")
ATTRS = {}
for _k in TASKS:
    ATTRS[_k] = {"default": (None, "flow")}
ATTRS["subProcess"] = {"default": (None, "flow"), "triggeredByEvent": ("false", BOOL)}
ATTRS["dataObject"] = {"isCollection": ("false", BOOL)}
DIRS = ("Unspecified", "Converging", "Diverging", "Mixed")
for _k in ("inclusiveGateway", "exclusiveGateway", "complexGateway"):
    ATTRS[_k] = {"gatewayDirection": ("Unspecified", DIRS), "default": (None, "flow")}
ATTRS["parallelGateway"] = {"gatewayDirection": ("Unspecified", DIRS)}
ATTRS["eventBasedGateway"] = {"gatewayDirection": ("Unspecified", DIRS), "instantiate": ("false", BOOL),
                              "eventGatewayType": ("Exclusive", ("Exclusive", "Parallel"))}
ATTRS["startEvent"] = {"parallelMultiple": ("false", BOOL), "isInterrupting": ("true", BOOL)}
ATTRS["intermediateCatchEvent"] = {"parallelMultiple": ("false", BOOL)}
ATTRS["endEvent"] = {}
ATTRS["intermediateThrowEvent"] = {}
ATTRS["boundaryEvent"] = {"parallelMultiple": ("false", BOOL), "cancelActivity": ("true", BOOL),
                          "attachedToRef": (None, "activity")}
BOOLS = {"isClosed", "isExecutable", "isExpanded", "isHorizontal"} | {a for d in ATTRS.values() for a, (_, v) in d.items()
                                                                         if v is BOOL}
PROC_ATTRS = {"name": "", "isClosed": "false", "isExecutable": "false", "processType": "None"}


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, size=None, collab=None, lanes=None, di=None, simple_ids=False, kinds=None, subdepth=None,
                 self_loops=True, listing=None, ws_names=True):
        self.rng = rng
        self.ids = text.Ids(rng, simple_ids)
        self.size = size if size is not None else rng.choice([2, 4, 6, 8, 8, 12, 20])
        self.kinds = kinds
        self.collab = rng.random() < 0.45 if collab is None else collab
        self.lanes = rng.random() < 0.4 if lanes is None else lanes
        self.di = rng.choice(["full", "full", "partial", "mostly"]) if di is None else di
        self.subdepth = rng.choice([0, 1, 2, 3]) if subdepth is None else subdepth
        self.self_loops = self_loops
        self.listing = rng.choice(["full", "none", "mixed"]) if listing is None else listing
        self.ws = ws_names
        self.pairs = set()
        self.left = 140           # nodes of one model
        self.twin = text.name(rng) if rng.random() < 0.05 else None     # every element has the same name
        self.hub = rng.random() < 0.08                                  # one node with very many flows
        self.cross = rng.random() < 0.1                                 # flows declared outside the container of their ends

    def opt(self, d, key, value, p=0.6):
        if self.rng.random() < p:
            d[key] = value

    def nm(self):
        if self.ids.used and self.rng.random() < 0.02:       # named like an id of the file
            return self.rng.choice(sorted(self.ids.used))
        return text.name(self.rng, ws=self.ws) if self.twin is None else self.twin

    def node(self, kind):
        rng = self.rng
        n = {"t": "node", "kind": kind, "id": self.ids.new(kind.lower()[:6])}
        if rng.random() < 0.9:
            n["name"] = self.nm()
        n["attrs"] = {}
        for a, (_, vals) in ATTRS[kind].items():
            if isinstance(vals, tuple):
                self.opt(n["attrs"], a, text.boolean(rng) if vals is BOOL else rng.choice(vals))
        if kind in EVDEFS:
            k = rng.choice([0, 0, 1, 1, 1, 2, 3, 5]) if rng.random() < 0.9 else rng.randint(6, 9)
            n["evdefs"] = []
            for _ in range(k):
                e = {"type": rng.choice(EVDEFS[kind]) + "EventDefinition"}
                if rng.random() < 0.8:
                    e["id"] = self.ids.new("def")
                n["evdefs"].append(e)
        n["incoming"], n["outgoing"] = [], []
        return n

    def container(self, count, depth):
        """children of a process or sub-process"""
        rng = self.rng
        nodes = []
        for _ in range(count):
            if self.left <= 0:
                break
            self.left -= 1
            kind = rng.choice(self.kinds or KINDS)
            if kind == "boundaryEvent" and not [x for x in nodes if x["kind"] in TASKS + ["subProcess"]]:
                kind = "task"
            n = self.node(kind)
            if kind == "boundaryEvent":
                n["attrs"]["attachedToRef"] = rng.choice([x["id"] for x in nodes if x["kind"] in TASKS + ["subProcess"]])
            if kind == "subProcess":
                inner = rng.choice([0, 1, 2, 3, 5]) if depth > 0 else 0
                n["children"] = self.container(inner, depth - 1) if inner else []
            nodes.append(n)
        ends = [n for n in (walk_nodes(nodes) if self.cross else nodes) if n["kind"] != "dataObject"]
        flows = []
        if len(ends) >= 1:
            m = rng.randint(0, max(1, int(len(ends) * rng.choice([0.8, 1.2, 2.0]))))
            if self.hub:
                m = len(ends) * 3
            for _ in range(m):
                a, b = rng.choice(ends), rng.choice(ends)
                if self.hub and rng.random() < 0.85:
                    a, b = (ends[0], b) if rng.random() < 0.5 else (a, ends[0])
                if rng.random() < 0.2 and flows:      # provoke antiparallel pairs
                    prev = rng.choice(flows)
                    a = next(x for x in ends if x["id"] == prev["target"])
                    b = next(x for x in ends if x["id"] == prev["source"])
                if (a["id"], b["id"]) in self.pairs or (a is b and not self.self_loops):
                    continue
                self.pairs.add((a["id"], b["id"]))
                f = {"t": "flow", "id": self.ids.new("flow"), "source": a["id"], "target": b["id"]}
                if rng.random() < 0.7:
                    f["name"] = self.nm()
                if rng.random() < 0.3:
                    c = {"text": "" if rng.random() < 0.08 else (text.name(rng, empty=0) if rng.random() < 0.6 else
                                                               "${x > %d}" % rng.randint(0, 9))}
                    if rng.random() < 0.7:
                        c["id"] = self.ids.new("cond")
                    f["cond"] = c
                flows.append(f)
                if self.listed():
                    a["outgoing"].append(f["id"])
                if self.listed():
                    b["incoming"].append(f["id"])
        for n in (list(walk_nodes(nodes)) if self.cross else nodes):
            rng.shuffle(n["incoming"])
            rng.shuffle(n["outgoing"])
            if "default" in ATTRS[n["kind"]]:
                outs = [f["id"] for f in flows if f["source"] == n["id"]]
                if outs and rng.random() < 0.5 and "default" not in n["attrs"]:
                    n["attrs"]["default"] = rng.choice(outs)
        out = nodes + flows
        if rng.random() < 0.3:
            rng.shuffle(out)
        return out

    def listed(self):
        return self.listing == "full" or (self.listing == "mixed" and self.rng.random() < 0.5)

    def laneset(self, ids, depth):
        rng = self.rng
        k = rng.choice([1, 1, 2, 3, 5])
        if rng.random() < 0.06:
            k = 0  # a lane set without lanes
        parts = [[] for _ in range(k)]
        for i in ids if k else []:
            parts[rng.randrange(k)].append(i)
        ls = {"lanes": []}
        if rng.random() < 0.8 or k == 0:
            ls["id"] = self.ids.new("lset")
        for p in parts:
            ln = {"id": self.ids.new("lane"), "refs": p}
            if rng.random() < 0.85:
                ln["name"] = self.nm()
            if depth > 0 and rng.random() < 0.5:
                ln["child"] = self.laneset(p, depth - 1)
            ls["lanes"].append(ln)
        return ls

    def model(self):
        rng = self.rng
        nproc = rng.choice([1, 1, 1, 2, 3]) if rng.random() < 0.95 else rng.randint(5, 12)
        if self.collab:
            nproc = rng.choice([1, 2, 2, 3]) if rng.random() < 0.95 else rng.randint(4, 11)
        procs = []
        for _ in range(nproc):
            p = {"id": self.ids.new("proc")}
            self.opt(p, "name", self.nm())
            self.opt(p, "isClosed", text.boolean(rng))
            self.opt(p, "isExecutable", text.boolean(rng))
            self.opt(p, "processType", rng.choice(("None", "Public", "Private")))
            p["children"] = self.container(max(0, rng.randint(self.size // 2, self.size)), self.subdepth)
            if self.lanes:
                direct = [c["id"] for c in p["children"] if c["t"] == "node"]
                rng.shuffle(direct)
                p["laneset"] = self.laneset(direct, rng.choice([0, 1, 2, 4]))
            procs.append(p)
        collab = None
        if self.collab:
            parts = []
            for p in procs:
                if rng.random() < 0.85:
                    q = {"id": self.ids.new("part"), "processRef": p["id"]}
                    self.opt(q, "name", self.nm(), 0.9)
                    parts.append(q)
            for _ in range(rng.choice([0, 1, 2]) if rng.random() < 0.95 else rng.randint(3, 9)):
                q = {"id": self.ids.new("part")}
                if rng.random() < 0.1:      # two pools of one process
                    q["processRef"] = rng.choice(procs)["id"]
                self.opt(q, "name", self.nm(), 0.9)
                parts.append(q)
            rng.shuffle(parts)
            msg = []
            owner = {}
            for p in procs:
                for n in walk_nodes(p["children"]):
                    if n["kind"] != "dataObject":
                        owner[n["id"]] = p["id"]
            for q in parts:
                owner[q["id"]] = q.get("processRef", q["id"])
            allends = list(owner)
            for _ in range(rng.choice([0, 1, 2, 4, 8]) if rng.random() < 0.95 else rng.randint(9, 30)):
                if len(allends) < 2:
                    break
                a, b = rng.choice(allends), rng.choice(allends)
                if msg and rng.random() < 0.25:
                    b, a = msg[-1]["source"], msg[-1]["target"]
                if owner[a] == owner[b] or (a, b) in self.pairs:
                    continue
                self.pairs.add((a, b))
                f = {"id": self.ids.new("msg"), "source": a, "target": b}
                self.opt(f, "name", self.nm())
                msg.append(f)
            collab = {"id": self.ids.new("collab"), "participants": parts, "msgflows": msg}
        m = {"processes": procs, "collab": collab}
        m["diagram"] = {"id": self.ids.new("diag")}
        self.opt(m["diagram"], "name", self.nm())
        m["plane"] = {"id": self.ids.new("plane"), "bpmnElement": collab["id"] if collab else procs[0]["id"]}
        self.make_di(m)
        return m

    def has_di(self):
        return {"full": True, "mostly": self.rng.random() < 0.9, "partial": self.rng.random() < 0.5,
                "none": False}[self.di]

    def make_di(self, m):
        rng = self.rng
        shapes, edges = [], []

        def shape(elem, sub=False, hor=False):
            if not self.has_di():
                return
            s = {"elem": elem, "x": text.coord(rng), "y": text.coord(rng), "w": text.coord(rng, False),
                 "h": text.coord(rng, False)}
            if sub:
                self.opt(s, "isExpanded", text.boolean(rng), 0.7)
            if hor:
                self.opt(s, "isHorizontal", text.boolean(rng), 0.8)
            shapes.append(s)

        def edge(elem):
            if self.has_di():
                n = rng.choice([2, 2, 3, 4, 7]) if rng.random() < 0.95 else rng.randint(10, 60)
                wps = [(text.coord(rng), text.coord(rng)) for _ in range(n)]
                if rng.random() < 0.1:      # repeated points and closed lines
                    for _ in range(rng.randint(1, n)):
                        k = rng.randrange(n)
                        wps[k] = wps[k - 1] if rng.random() < 0.6 else rng.choice(wps)
                edges.append({"elem": elem, "wps": wps})

        def lanes(ls):
            for ln in ls["lanes"]:
                shape(ln["id"], hor=True)
                if "child" in ln:
                    lanes(ln["child"])
        if m["collab"]:
            for q in m["collab"]["participants"]:
                shape(q["id"], hor=True)
            for f in m["collab"]["msgflows"]:
                edge(f["id"])
        for p in m["processes"]:
            if "laneset" in p:
                lanes(p["laneset"])
            for n in walk_nodes(p["children"]):
                shape(n["id"], sub=n["kind"] == "subProcess")
            for f in walk_flows(p["children"]):
                edge(f["id"])
        if rng.random() < 0.4:
            rng.shuffle(shapes)
            rng.shuffle(edges)
        m["shapes"], m["edges"] = shapes, edges


def walk_nodes(children):
    for c in children:
        if c["t"] == "node":
            yield c
            yield from walk_nodes(c.get("children", []))


def walk_flows(children):
    for c in children:
        if c["t"] == "flow":
            yield c
        else:
            yield from walk_flows(c.get("children", []))


# ------------------------------------------------------------------ expected normal form
def norm(m):
    """Normal form of a model: BPMN defaults filled in, references resolved. See `read`."""
    out = {"processes": {}, "nodes": {}, "flows": {}, "collab": None, "shapes": {}, "edges": {}, "dups": [],
           "diagram": {"id": m["diagram"]["id"], "name": m["diagram"].get("name", "")}, "plane": dict(m["plane"])}
    listed = {}

    def lanes(ls):
        return {"id": ls.get("id", ""), "lanes": [
            {"id": ln["id"], "name": ln.get("name", ""), "refs": list(ln["refs"]),
             "child": lanes(ln["child"]) if "child" in ln else None} for ln in ls["lanes"]]}

    def cont(cid, children):
        for c in children:
            if c["t"] == "node":
                attrs = {}
                for a, (dflt, _) in ATTRS[c["kind"]].items():
                    attrs[a] = c["attrs"].get(a, dflt)
                out["nodes"][c["id"]] = {"kind": c["kind"], "name": c.get("name", ""), "container": cid, "attrs": attrs,
                                         "incoming": list(c["incoming"]), "outgoing": list(c["outgoing"]),
                                         "evdefs": [(e["type"], e.get("id", "")) for e in c.get("evdefs", [])]}
                out["nodes"][c["id"]]["listed"] = {"incoming": list(c["incoming"]), "outgoing": list(c["outgoing"])}
                listed[c["id"]] = (set(c["incoming"]), set(c["outgoing"]))
                cont(c["id"], c.get("children", []))
            else:
                cond = c.get("cond")
                out["flows"][c["id"]] = {"container": cid, "source": c["source"], "target": c["target"],
                                         "name": c.get("name", ""),
                                         "cond": (cond.get("id", ""), cond["text"]) if cond else None}
    for p in m["processes"]:
        q = {a: p.get(a, d) for a, d in PROC_ATTRS.items()}
        q["laneset"] = lanes(p["laneset"]) if "laneset" in p else None
        out["processes"][p["id"]] = q
        cont(p["id"], p["children"])
    for fid, f in out["flows"].items():
        if fid not in listed[f["source"]][1]:
            out["nodes"][f["source"]]["outgoing"].append(fid)
        if fid not in listed[f["target"]][0]:
            out["nodes"][f["target"]]["incoming"].append(fid)
    if m["collab"]:
        out["collab"] = {"id": m["collab"]["id"],
                         "participants": {q["id"]: {"name": q.get("name", ""), "processRef": q.get("processRef", "")}
                                          for q in m["collab"]["participants"]},
                         "msgflows": {f["id"]: {"name": f.get("name", ""), "source": f["source"],
                                                "target": f["target"]} for f in m["collab"]["msgflows"]}}
    for s in m["shapes"]:
        out["shapes"].setdefault(s["elem"], []).append(
            {"x": num(s["x"]), "y": num(s["y"]), "w": num(s["w"]), "h": num(s["h"]),
             "isExpanded": s.get("isExpanded", ""), "isHorizontal": s.get("isHorizontal", "")})
    for e in m["edges"]:
        out["edges"].setdefault(e["elem"], []).append([(num(x), num(y)) for x, y in e["wps"]])
    return out


# ------------------------------------------------------------------ writer
NS = {"m": "http://www.omg.org/spec/BPMN/20100524/MODEL", "di": "http://www.omg.org/spec/BPMN/20100524/DI",
      "dc": "http://www.omg.org/spec/DD/20100524/DC", "ddi": "http://www.omg.org/spec/DD/20100524/DI"}


class Lex:
    """Lexical choices of one file. rng=None gives one fixed, plain form."""

    def __init__(self, rng=None, order=True):
        self.rng = rng
        r = rng
        if r is None:
            self.pre = {"m": "", "di": "bpmndi", "dc": "omgdc", "ddi": "omgdi"}
            self.indent, self.comments, self.cdata, self.charref, self.attrshuffle = "  ", 0, 0, 0, False
            self.quote, self.selfclose, self.ext, self.order, self.pad = '"', True, 0, False, 0
            self.enc, self.decl, self.eol, self.artifacts, self.other = "utf-8", True, "\n", 0, False
            self.foreign, self.attrs, self.noise, self.entities, self.dins = 0, 0, 0, 0, False
            self.second = ""
        else:
            self.pre = {"m": r.choice(["", "", "bpmn", "bpmn2", "semantic", "x"]), "di": r.choice(["bpmndi", "di1", "d"]),
                        "dc": r.choice(["omgdc", "dc", "c"]), "ddi": r.choice(["omgdi", "di", "w"])}
            self.indent = r.choice(["  ", "", "\t", "    ", None])
            self.comments = r.choice([0, 0, 0.1, 0.4])
            self.cdata = r.choice([0, 0, 0.3])
            self.charref = r.choice([0, 0, 0.2])
            self.attrshuffle = r.random() < 0.6
            self.quote = r.choice(['"', "'", "mix"])
            self.selfclose = r.random() < 0.7
            self.ext = r.choice([0, 0, 0.3])
            self.order = order and r.random() < 0.5
            self.pad = r.choice([0, 0, 0.4])
            self.enc = r.choice(["utf-8"] * 6 + ["utf-16", "utf-8-sig"])
            self.decl = r.random() < 0.85 or self.enc == "utf-16"
            self.eol = r.choice(["\n"] * 5 + ["\r\n"])
            if self.cdata == 0 and self.enc == "utf-8" and r.random() < 0.08:
                self.enc, self.decl = r.choice(["iso-8859-1", "us-ascii"]), True
            self.second = r.choice([""] * 6 + ["b2"])       # another prefix of the model namespace
            self.artifacts = r.choice([0, 0, 0.5])
            self.other = r.random() < 0.4
            self.foreign = r.choice([0, 0, 0, 0.3])         # extension elements that look like BPMN elements
            self.attrs = r.choice([0, 0, 0, 0.1])           # attributes of other namespaces
            self.noise = r.choice([0, 0, 0, 0.5])           # BPMN elements the library does not represent
            self.entities = r.choice([0, 0, 0, 0.1])        # entities declared in the internal subset
            self.dins = r.random() < 0.15                   # DI elements in a default namespace of their own
            if self.dins:
                self.pre["di"] = ""

    def p(self, prob):
        return self.rng is not None and prob and self.rng.random() < prob


def esc_text(s, lex):
    out = []
    for ch in s:
        if ch in "&<>":
            out.append({"&": "&amp;", "<": "&lt;", ">": "&gt;"}[ch])
        elif ch == "a" and lex.p(lex.entities):
            out.append("&chr_a;")
        elif lex.p(lex.charref) and ch.isprintable():
            out.append(lex.rng.choice(["&#%d;", "&#x%X;"]) % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


def esc_attr(s, q, lex):
    out = []
    for ch in s:
        if ch in "&<>":
            out.append({"&": "&amp;", "<": "&lt;", ">": "&gt;"}[ch])
        elif ch in "\n\t\r":
            out.append("&#%d;" % ord(ch))
        elif ch == q:
            out.append("&quot;" if q == '"' else "&apos;")
        elif ch == "a" and lex.p(lex.entities):
            out.append("&chr_a;")
        elif lex.p(lex.charref):
            out.append(lex.rng.choice(["&#%d;", "&#x%x;"]) % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


class El:
    def __init__(self, tag, attrs=None, children=None, text=None, ref=False, decl=""):
        self.tag, self.attrs, self.children, self.text, self.ref, self.decl = \
            tag, dict(attrs or {}), list(children or []), text, ref, decl


JUNK = ["<!-- note -->", "<?editor hint?>", "<!-- <task id='ghost'/> -->", "<!--x-->"]


def render(el, lex, level=0):
    rng = lex.rng
    attrs = list(el.attrs.items())
    if lex.attrshuffle and rng:
        rng.shuffle(attrs)
    s = "<" + el.tag + el.decl
    if lex.p(lex.attrs):
        attrs.insert(rng.randint(0, len(attrs)), rng.choice([("sig:name", "ghost"), ("sig:id", "ghost"), ("xml:lang", "en"), ("sig:default", "ghost"),
                                                             ("sig:bpmnElement", "ghost"), ("xml:space", "preserve"), ("sig:x", "1")]))
    for k, v in attrs:
        q = '"' if rng is None else (rng.choice("\"'") if lex.quote == "mix" else lex.quote)
        s += (" " if not lex.p(0.05) else "\n   ") + k + "=" + q + esc_attr(v, q, lex) + q
    if not el.children and el.text is None:
        return s + ("/>" if lex.selfclose else "></" + el.tag + ">")
    s += ">"
    if el.text is not None:
        t = el.text
        if t == "":
            return s + "</" + el.tag + ">"
        if (lex.p(lex.cdata) or lex.p(lex.comments)) and len(t) > 3 and "]]>" not in t and rng.random() < 0.4:
            # text in many pieces
            cuts = sorted(rng.sample(range(1, len(t)), min(len(t) - 1, rng.randint(2, 6))))
            body = ""
            for i, j in zip([0] + cuts, cuts + [len(t)]):
                body += "<![CDATA[" + t[i:j] + "]]>" if lex.p(lex.cdata) else esc_text(t[i:j], lex)
                body += rng.choice(["<!-- c -->", "<?p i?>", "<!---->"]) if lex.p(lex.comments) else ""
        elif lex.p(lex.cdata):
            body = "<![CDATA[" + t.replace("]]>", "]]]]><![CDATA[>") + "]]>"
            if rng.random() < 0.3 and len(t) > 1 and "]]>" not in t:
                body = esc_text(t[0], lex) + "<![CDATA[" + t[1:] + "]]>"
        else:
            body = esc_text(t, lex)
            if lex.p(lex.comments) and len(t) > 1 and "&" not in body:
                i = rng.randrange(1, len(t))
                body = esc_text(t[:i], lex) + rng.choice(["<!-- c -->", "<?p i?>"]) + esc_text(t[i:], lex)
        if el.ref and lex.p(lex.pad):
            ws = rng.choice([" ", "\n      ", "\t", "  \n"])
            body = ws + body + ws
        return s + body + "</" + el.tag + ">"
    for c in el.children:
        if lex.p(lex.comments):
            s += sep(lex, level + 1) + rng.choice(JUNK)
        s += sep(lex, level + 1) + render(c, lex, level + 1)
    if lex.p(lex.comments):
        s += rng.choice(JUNK)
    return s + sep(lex, level) + "</" + el.tag + ">"


def sep(lex, level):
    ind = lex.indent
    if ind is None:
        return lex.rng.choice(["", "\n", " ", "\n\n  ", "\t"])
    return "" if ind == "" else "\n" + ind * level


def write(m, lex=None):
    """Serialise a model; returns bytes."""
    lex = lex or Lex()
    rng = lex.rng
    pre = {k: (v + ":" if v else "") for k, v in lex.pre.items()}
    T = lambda t: (lex.second + ":" if lex.second and rng.random() < 0.5 else pre["m"]) + t

    def ext():
        if lex.p(lex.foreign):
            n = str(rng.randrange(10 ** 9))
            return [El(T("extensionElements"), {}, [rng.choice([
                El("sig:task", {"id": "ghost" + n, "name": "ghost"}), El("sig:incoming", {}, text="ghost"), El("sig:outgoing", {}, text="ghost"),
                El("sig:sequenceFlow", {"id": "ghost" + n, "sourceRef": "g", "targetRef": "h"}), El("sig:process", {"id": "ghost" + n}),
                El("sig:collaboration", {"id": "ghost" + n}), El("sig:lane", {"id": "ghost" + n}), El("sig:laneSet", {"id": "ghost" + n}),
                El("sig:flowNodeRef", {}, text="ghost"), El("sig:conditionExpression", {"id": "ghost" + n}, text="ghost"),
                El("sig:messageEventDefinition", {"id": "ghost" + n}), El("sig:participant", {"id": "ghost" + n}),
                El("sig:Bounds", {"x": "9", "y": "9", "width": "9", "height": "9"}), El("sig:waypoint", {"x": "9", "y": "9"}),
                El("sig:BPMNDiagram", {"id": "ghost" + n}), El("sig:BPMNPlane", {"id": "ghost" + n}),
                El("sig:BPMNShape", {"id": "ghost" + n, "bpmnElement": "ghost"}), El("sig:wrap", {}, [El("sig:childLaneSet", {"id": "ghost" + n})]),
            ])])]
        return [El(T("extensionElements"), {}, [El("sig:signavioMetaData", {"metaKey": "bgcolor", "metaValue": "#fff"}),
                                                El("sig:properties", {}, [El("sig:property", {"id": "p", "name": "task"})])])] \
            if lex.p(lex.ext) else []

    def doc():
        return [El(T("documentation"), {}, text="some <text> about it")] if lex.p(lex.ext) else []

    def put(a, src, *keys):
        for k in keys:
            if k in src:
                a[k] = src[k]

    def node(n):
        a = {"id": n["id"]}
        put(a, n, "name")
        a.update(n["attrs"])
        refs = [El(T("incoming"), text=i, ref=True) for i in n["incoming"]]
        outs = [El(T("outgoing"), text=i, ref=True) for i in n["outgoing"]]
        ch = doc() + ext()
        if lex.order and rng.random() < 0.3:
            both = refs + outs
            io = []
            while refs or outs:
                src = refs if refs and (not outs or rng.random() < 0.5) else outs
                io.append(src.pop(0))
            assert len(io) == len(both)
            ch += io
        else:
            ch += refs + outs
        for e in n.get("evdefs", []):
            inner = []
            if e["type"].startswith("timer") and lex.p(lex.ext):
                inner = [El(T("timeDuration"), {}, text="PT5M")]
            ch.append(El(T(e["type"]), {"id": e["id"]} if "id" in e else {}, inner))
        if n["kind"] in TASKS and lex.p(lex.ext):
            ch.append(El(T("multiInstanceLoopCharacteristics"), {"isSequential": "true"}))
        if n["kind"] == "subProcess":
            ch += items(n.get("children", []))
        return El(T(n["kind"]), a, ch)

    def flow(f):
        a = {"id": f["id"], "sourceRef": f["source"], "targetRef": f["target"]}
        put(a, f, "name")
        ch = ext()
        if "cond" in f:
            ca = {}
            put(ca, f["cond"], "id")
            if lex.p(0.6):
                ca["xsi:type"] = pre["m"] + "tFormalExpression"
            ch.append(El(T("conditionExpression"), ca, text=f["cond"]["text"]))
        return El(T("sequenceFlow"), a, ch)

    def items(children):
        els = [node(c) if c["t"] == "node" else flow(c) for c in children]
        if lex.p(lex.artifacts):
            n = str(rng.randrange(10 ** 6))
            els.append(El(T("textAnnotation"), {"id": "ann" + n}, [El(T("text"), {}, text="note")]))
            els.append(El(T("association"), {"id": "asc" + n, "sourceRef": "ann" + n, "targetRef": "ann" + n}))
        if lex.p(lex.noise):
            n = str(rng.randrange(10 ** 9))
            for _ in range(rng.randint(1, 3)):
                els.insert(rng.randint(0, len(els)), rng.choice([
                    lambda: El(T("callActivity"), {"id": "call" + n, "calledElement": "x"}), lambda: El(T("group"), {"id": "grp" + n}),
                    lambda: El(T("scriptTask"), {"id": "scr" + n}, [El(T("script"), {}, text="x = 1")]),
                    lambda: El(T("dataObjectReference"), {"id": "dor" + n, "dataObjectRef": "d"}),
                    lambda: El(T("dataStoreReference"), {"id": "dsr" + n}), lambda: El(T("ioSpecification"), {}, [El(T("inputSet"), {})]),
                    lambda: El(T("property"), {"id": "prp" + n, "name": "task"}), lambda: El(T("performer"), {"id": "prf" + n})])())
        if lex.order:
            # interleave nodes and flows differently; the relative order of nodes and of flows is kept
            ns = [e for e in els if not e.tag.endswith("sequenceFlow")]
            fs = [e for e in els if e.tag.endswith("sequenceFlow")]
            els = []
            while ns or fs:
                src = ns if ns and (not fs or rng.random() < 0.5) else fs
                els.append(src.pop(0))
        return els

    def laneset(ls, tag="laneSet"):
        a = {}
        put(a, ls, "id")
        lanes = []
        for ln in ls["lanes"]:
            la = {"id": ln["id"]}
            put(la, ln, "name")
            ch = ext() + [El(T("flowNodeRef"), text=r, ref=True) for r in ln["refs"]]
            if "child" in ln:
                ch.append(laneset(ln["child"], "childLaneSet"))
            lanes.append(El(T("lane"), la, ch))
        return El(T(tag), a, lanes)

    roots = []
    if m["collab"]:
        c = m["collab"]
        ch = []
        for q in c["participants"]:
            a = {"id": q["id"]}
            put(a, q, "name", "processRef")
            ch.append(El(T("participant"), a, ext()))
        mf = []
        for f in c["msgflows"]:
            a = {"id": f["id"], "sourceRef": f["source"], "targetRef": f["target"]}
            put(a, f, "name")
            mf.append(El(T("messageFlow"), a, ext()))
        ch = mf + ch if lex.order and rng.random() < 0.5 else ch + mf
        roots.append(El(T("collaboration"), {"id": c["id"]}, ch))
    for p in m["processes"]:
        a = {"id": p["id"]}
        put(a, p, "name", "isClosed", "isExecutable", "processType")
        ch = doc() + ext()
        its = items(p["children"])
        if "laneset" in p:
            k = rng.randint(0, len(its)) if lex.order else 0
            its.insert(k, laneset(p["laneset"]))
        roots.append(El(T("process"), a, ch + its))
    if lex.order and m["collab"] and rng.random() < 0.4:
        roots.append(roots.pop(0))
    if lex.other:
        roots.insert(0, El(T("message"), {"id": "Message_glob", "name": "m"}))
        roots.append(El(T("signal"), {"id": "Signal_glob"}))

    def label():
        return [El(pre["di"] + "BPMNLabel", {}, [El(pre["dc"] + "Bounds", {"x": "1", "y": "2", "width": "3", "height": "4"})])] \
            if lex.p(lex.ext) else []

    def dext(n, a):
        return [El(pre["ddi"] + "extension", {}, [El("sig:" + n, a)])] if lex.p(lex.foreign) else []
    dis = []
    for s in m["shapes"]:
        a = {"id": s["elem"] + "_di", "bpmnElement": s["elem"]}
        put(a, s, "isExpanded", "isHorizontal")
        dis.append(El(pre["di"] + "BPMNShape", a, dext("Bounds", {"x": "9", "y": "9", "width": "9", "height": "9"}) + [El(pre["dc"] + "Bounds", {"x": s["x"], "y": s["y"], "width": s["w"],
                                                                            "height": s["h"]})] + label()))
    for e in m["edges"]:
        dis.append(El(pre["di"] + "BPMNEdge", {"id": e["elem"] + "_di", "bpmnElement": e["elem"]}, dext("waypoint", {"x": "9", "y": "9"}) +
                      [El(pre["ddi"] + "waypoint", {"x": x, "y": y}) for x, y in e["wps"]] + label()))
    if lex.p(lex.noise):
        dis.append(El(pre["di"] + "BPMNShape", {"id": "ghost_di", "bpmnElement": "ghost_ann"}, [
            El(pre["dc"] + "Bounds", {"x": "7", "y": "8", "width": "9", "height": "6"})]))
        dis.append(El(pre["di"] + "BPMNEdge", {"id": "ghost_edge", "bpmnElement": "ghost_asc"}, [
            El(pre["ddi"] + "waypoint", {"x": "7", "y": "8"}), El(pre["ddi"] + "waypoint", {"x": "9", "y": "8"})]))
    if lex.order and rng.random() < 0.5:
        rng.shuffle(dis)
    da = {"id": m["diagram"]["id"]}
    put(da, m["diagram"], "name")
    diagram = El(pre["di"] + "BPMNDiagram", da, [El(pre["di"] + "BPMNPlane", dict(m["plane"]), dis)],
                 decl=' xmlns="%s"' % NS["di"] if lex.dins else "")
    if lex.order and rng.random() < 0.3:
        roots.insert(0, diagram)
    else:
        roots.append(diagram)
    decl = ""
    for k in ("m", "di", "dc", "ddi"):
        if k == "di" and lex.dins:
            continue
        decl += ' xmlns%s="%s"' % (":" + lex.pre[k] if lex.pre[k] else "", NS[k])
    if lex.second:
        decl += ' xmlns:%s="%s"' % (lex.second, NS["m"])
    decl += ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:sig="http://www.signavio.com"'
    root = El(T("definitions"), {"id": "defs_1", "targetNamespace": "http://example.org/t"}, roots, decl=decl)
    body = render(root, lex)
    roottag = root.tag
    head = ""
    if lex.decl:
        head = '<?xml version="1.0" encoding="%s"%s?>' % ({"utf-8-sig": "UTF-8"}.get(lex.enc, lex.enc.upper()),
                                                         ' standalone="yes"' if lex.p(0.2) else "")
        head += "\n" if not lex.p(0.3) else ""
    if lex.p(lex.comments):
        head += "<!-- head -->\n"
    if lex.entities:
        head += '<!DOCTYPE %s [\n<!ENTITY chr_a "a">\n<!ENTITY unused "z">\n]>\n' % roottag
    tail = "\n" if not lex.p(0.2) else ""
    for _ in range(2):
        if lex.p(lex.comments):
            tail += lex.rng.choice(JUNK) + lex.rng.choice(["", "\n", "  \n"])
    return (head + body + tail).replace("\n", lex.eol).encode(lex.enc, "xmlcharrefreplace" if lex.enc.startswith(("iso", "us")) else "strict")


# ------------------------------------------------------------------ independent reader
def local(tag):
    return tag.rsplit("}", 1)[-1] if isinstance(tag, str) else ""


def alltext(e):
    return "".join(e.itertext())


NODEKINDS = set(KINDS)


MODEL_TAGS = NODEKINDS | {"definitions", "process", "collaboration", "participant", "messageFlow", "sequenceFlow", "laneSet", "lane",
                          "childLaneSet", "flowNodeRef", "incoming", "outgoing", "conditionExpression"}
DI_SPACE = {"BPMNDiagram": NS["di"], "BPMNPlane": NS["di"], "BPMNShape": NS["di"], "BPMNEdge": NS["di"], "Bounds": NS["dc"],
            "waypoint": NS["ddi"]}
SPACES = tuple(NS.values())


class ReadError(Exception):
    pass


def read(path_or_bytes, imply=True):
    """Read a BPMN file with ElementTree into the normal form of `norm`."""
    try:
        if isinstance(path_or_bytes, bytes):
            root = ET.fromstring(path_or_bytes)
        else:
            root = ET.parse(path_or_bytes).getroot()
    except ET.ParseError as ex:
        raise ReadError("not well-formed: %s" % ex)
    if local(root.tag) != "definitions":
        raise ReadError("root is %s" % root.tag)
    for e in root.iter():
        if isinstance(e.tag, str):
            n = local(e.tag)
            ns = DI_SPACE.get(n) or (NS["m"] if n in MODEL_TAGS or n.endswith("EventDefinition") else None)
            if ns and e.tag != "{%s}%s" % (ns, n) and e.tag.split("}")[0].strip("{") in ("",) + SPACES:
                raise ReadError("%s is not in the namespace %s but in %r" % (n, ns, e.tag.split("}")[0].strip("{") if "}" in e.tag else ""))
    out = {"processes": {}, "nodes": {}, "flows": {}, "collab": None, "shapes": {}, "edges": {}, "dups": [],
           "diagram": None, "plane": None, "unknown": []}
    listed = {}

    def lanes(e):
        res = {"id": e.get("id", ""), "lanes": []}
        for ln in e:
            if local(ln.tag) != "lane":
                continue
            d = {"id": ln.get("id"), "name": ln.get("name", ""), "refs": [], "child": None}
            for c in ln:
                t = local(c.tag)
                if t == "flowNodeRef":
                    d["refs"].append(alltext(c).strip())
                elif t == "childLaneSet":
                    d["child"] = lanes(c)
                elif t == "laneSet":
                    out["unknown"].append("laneSet inside lane " + str(ln.get("id")))
            res["lanes"].append(d)
        return res

    def cont(cid, e):
        for c in e:
            t = local(c.tag)
            if t in NODEKINDS:
                i = c.get("id")
                if i in out["nodes"]:
                    out["dups"].append("node " + str(i))
                d = {"kind": t, "name": c.get("name", ""), "container": cid, "attrs": {}, "incoming": [],
                     "outgoing": [], "evdefs": []}
                for a, (dflt, _) in ATTRS[t].items():
                    d["attrs"][a] = c.get(a, dflt)
                for k in c:
                    kt = local(k.tag)
                    if kt in ("incoming", "outgoing"):
                        d[kt].append(alltext(k).strip())
                    elif kt.endswith("EventDefinition"):
                        d["evdefs"].append((kt, k.get("id", "")))
                        if k.get("id") == "":
                            out["unknown"].append("empty id of %s in %s" % (kt, i))
                out["nodes"][i] = d
                d["listed"] = {"incoming": list(d["incoming"]), "outgoing": list(d["outgoing"])}
                listed[i] = (set(d["incoming"]), set(d["outgoing"]))
                if t == "subProcess":
                    cont(i, c)
            elif t == "sequenceFlow":
                i = c.get("id")
                if i in out["flows"]:
                    out["dups"].append("flow " + str(i))
                cond = None
                for k in c:
                    if local(k.tag) == "conditionExpression":
                        if cond is not None:
                            out["dups"].append("condition of flow " + str(i))
                        cond = (k.get("id", ""), alltext(k))
                out["flows"][i] = {"container": cid, "source": c.get("sourceRef"), "target": c.get("targetRef"),
                                   "name": c.get("name", ""), "cond": cond}
            elif t not in ("laneSet", "extensionElements", "documentation", "textAnnotation", "association",
                           "incoming", "outgoing", "dataObjectReference", "group", "ioSpecification",
                           "multiInstanceLoopCharacteristics", "standardLoopCharacteristics"):
                out["unknown"].append(t)
    for e in root:
        t = local(e.tag)
        if t == "process":
            i = e.get("id")
            if i in out["processes"]:
                out["dups"].append("process " + str(i))
            q = {a: e.get(a, d) for a, d in PROC_ATTRS.items()}
            q["laneset"] = None
            for c in e:
                if local(c.tag) == "laneSet":
                    if q["laneset"] is not None:
                        out["dups"].append("laneSet of " + str(i))
                    q["laneset"] = lanes(c)
            out["processes"][i] = q
            cont(i, e)
        elif t == "collaboration":
            if out["collab"] is not None:
                out["dups"].append("collaboration")
            d = {"id": e.get("id"), "participants": {}, "msgflows": {}}
            for c in e:
                if local(c.tag) == "participant":
                    if c.get("id") in d["participants"]:
                        out["dups"].append("participant " + c.get("id"))
                    d["participants"][c.get("id")] = {"name": c.get("name", ""), "processRef": c.get("processRef", "")}
                elif local(c.tag) == "messageFlow":
                    if c.get("id") in d["msgflows"]:
                        out["dups"].append("messageFlow " + c.get("id"))
                    d["msgflows"][c.get("id")] = {"name": c.get("name", ""), "source": c.get("sourceRef"),
                                                  "target": c.get("targetRef")}
            out["collab"] = d
        elif t == "BPMNDiagram":
            if out["diagram"] is not None:
                out["dups"].append("BPMNDiagram")
            out["diagram"] = {"id": e.get("id", ""), "name": e.get("name", "")}
            for pl in e:
                if local(pl.tag) != "BPMNPlane":
                    continue
                out["plane"] = {"id": pl.get("id", ""), "bpmnElement": pl.get("bpmnElement", "")}
                for s in pl:
                    st = local(s.tag)
                    if st == "BPMNShape":
                        b = [x for x in s if local(x.tag) == "Bounds"]
                        if len(b) != 1:
                            out["unknown"].append("%d Bounds in shape of %s" % (len(b), s.get("bpmnElement")))
                            continue
                        b = b[0]
                        try:
                            sh = {"x": num(b.get("x")), "y": num(b.get("y")), "w": num(b.get("width")),
                                  "h": num(b.get("height"))}
                        except Exception:
                            raise ReadError("bad Bounds %r" % (b.attrib,))
                        sh["isExpanded"], sh["isHorizontal"] = s.get("isExpanded", ""), s.get("isHorizontal", "")
                        out["shapes"].setdefault(s.get("bpmnElement"), []).append(sh)
                    elif st == "BPMNEdge":
                        try:
                            w = [(num(x.get("x")), num(x.get("y"))) for x in s if local(x.tag) == "waypoint"]
                        except Exception:
                            raise ReadError("bad waypoint in edge of %s" % s.get("bpmnElement"))
                        out["edges"].setdefault(s.get("bpmnElement"), []).append(w)
        elif t in NODEKINDS or t == "sequenceFlow":
            out["unknown"].append("misplaced " + t)
    if imply:
        for fid, f in out["flows"].items():
            if f["source"] in listed and fid not in listed[f["source"]][1]:
                out["nodes"][f["source"]]["outgoing"].append(fid)
            if f["target"] in listed and fid not in listed[f["target"]][0]:
                out["nodes"][f["target"]]["incoming"].append(fid)
    out["root"] = root
    return out
