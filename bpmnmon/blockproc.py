"""Block-structured processes: random trees, the diagrams they stand for, and the CSV rows they must be exported as."""
from . import objview, text

LETTERS = "abcdefghijklmnopqrstuvwxyz"
STAGED = 0.3
HEADER = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]
GWS = ["exclusiveGateway", "inclusiveGateway", "parallelGateway"]
OTHER = ["complexGateway", "eventBasedGateway"]


class Process:
    """seq: list of {"t": "act"} | {"t": "end"} | {"t": "split", "branches": [seq], "conds", "join"}.

    An empty branch is a flow from the split straight to where the branches meet. "join": "gateway" (a joining gateway of its
    own), "next" (the branches end directly in the following activity or end event) or "outer" (in the join of the enclosing
    block). sheetlike=True keeps to what a sheet can express: a split follows and precedes an activity."""

    def __init__(self, rng, size=None, sheetlike=False, events=True, skips=True):
        self.rng, self.sheetlike, self.events = rng, sheetlike, events
        self.skips = skips
        self.staged = False
        self.left = size if size is not None else rng.choice([2, 5, 9, 15, 25])
        self.maxdepth = rng.choice([0, 1, 2, 3, 4])
        self.long = rng.random() < 0.2
        self.start = {"t": "start", "name": self.name(), "def": rng.choice([None, "message", "timer", "signal"])
                      if events and rng.random() < 0.5 else None}
        if not sheetlike and rng.random() < 0.08:
            # a process need not begin with an event
            self.start = {"t": "act", "kind": rng.choice(["task", "task", "subProcess"]), "name": self.name()}
        self.top = self.seq(0, True)

    def name(self):
        while True:
            n = text.name(self.rng, empty=0.05)
            if not n.lower().startswith("goto"):
                return n

    def cond(self):
        r = self.rng
        if r.random() < 0.8:
            return r.choice(["x > 5", "amount <= 100", "Accepted", "yes", "no", "maybe, later", "\"quoted\"", "elsewhere", "1",
                             "NA", "ąę", "a\nb", "else"])
        return text.name(r, ws=False, empty=0)

    def act(self):
        self.left -= 1
        return {"t": "act", "kind": "subProcess" if self.rng.random() < 0.2 else "task", "name": self.name()}

    def end(self):
        self.left -= 1
        return {"t": "end", "name": self.name(), "def": self.rng.choice([None, None, "message", "terminate", "error"])
                if self.events else None}

    def seq(self, depth, top, opened=False):
        """A sequence; at the top it ends in an end event or in a split all of whose branches end."""
        rng = self.rng
        items = []
        steps = rng.randint(1, 4) if not (self.long and rng.random() < 0.4) else rng.randint(9, 13)
        if top:
            steps = max(steps, min(self.left, rng.randint(1, 12)))
        for k in range(steps):
            if self.left <= 0 and k > 0:
                break
            prev = items[-1] if items else None
            can = depth < self.maxdepth and self.left > 2
            if self.sheetlike and not (prev is not None and prev["t"] == "act" or (prev is None and top)):
                can = False
            if can and rng.random() < 0.45:
                sp = self.split(depth)
                # an activity may itself split the flow
                sp["implicit"] = not self.sheetlike and prev is not None and prev["t"] == "act" and rng.random() < 0.15 \
                    and sp["kind"] != "parallelGateway"
                items.append(sp)
                n = sp["open"]
                if n < 2:
                    return items            # ended, or the rest belongs to the single open branch
            else:
                items.append(self.act())
        last = items[-1]
        if top:
            if last["t"] == "split" and self.sheetlike and rng.random() < 0.5:
                items.append(self.act())
            items.append(self.end())
        elif not opened and rng.random() < 0.25:
            items.append(self.end())
        self.joins(items, top)
        return items

    def joins(self, items, top):
        """Decide how the branches of each open split of a finished sequence meet."""
        rng = self.rng
        for k, it in enumerate(items):
            if it["t"] != "split" or it["open"] < 2:
                continue
            nxt = items[k + 1] if k + 1 < len(items) else None
            if nxt is None:
                it["join"] = rng.choice(["gateway", "outer"])
            elif nxt["t"] == "split":
                it["join"] = "gateway"
            else:
                it["join"] = rng.choice(["gateway", "gateway", "next"])
            if it["skip"] is not None and nxt is not None and nxt["t"] == "split":
                it["branches"][it["skip"]] = [self.act()]       # a skipped block must be followed by a row
                it["skip"] = None

    def split(self, depth):
        rng = self.rng
        n = rng.choice([2, 2, 2, 3, 4]) if rng.random() < 0.93 else rng.choice([5, 9, 26])
        kind = rng.choice(GWS) if rng.random() < 0.92 else rng.choice(OTHER)
        branches = [self.seq(depth + 1, False) for _ in range(n)]
        skip = None
        if self.skips and rng.random() < 0.25 and opens(branches) >= 2:
            skip = rng.randrange(n)
            branches[skip] = []
        op = opens(branches)
        if op == 1:
            if skip is not None:
                branches[skip] = [self.act()]
                skip = None
            # a single branch goes on: what follows is part of it; it ends there
            for b in branches:
                if b and is_open(b):
                    b.append(self.act() if b[-1]["t"] == "split" and self.sheetlike else self.end())
                    if b[-1]["t"] == "act":
                        b.append(self.end())
                    self.joins(b, False)
            op = 0
        conds = []
        default = None
        if kind != "parallelGateway":
            style = rng.choice(["all", "some", "none", "all"])
            for k in range(n):
                c = self.cond() if style == "all" or (style == "some" and rng.random() < 0.5) else ""
                conds.append((c, rng.choice(["name", "cond", "both"])))
            if rng.random() < 0.4 and kind != "eventBasedGateway":
                default = rng.randrange(n)
        else:
            conds = [(self.cond() if rng.random() < 0.2 else "", "name") for _ in range(n)]   # not exported
        return {"t": "split", "kind": kind, "branches": branches, "conds": conds, "default": default, "open": op,
                "skip": skip, "join": "gateway" if op >= 2 else None}

    # -- expected rows
    def rows(self):
        """label -> [activity, condition, who, subprocess, terminated]; skip rows have activity ('goto', item)."""
        out, self.labels = {}, {}

        def prefixed(it):
            d = it.get("def")
            if d == "message" or (d == "timer" and it["t"] == "start"):
                return d + " " + it["name"]
            return it["name"]

        def visit(seq, prefix, start, cond, follow):
            number = start - 1
            for k, it in enumerate(seq):
                if not it.get("implicit"):
                    number += 1
                lab = prefix + str(number)
                c = cond if k == 0 else ""
                if it["t"] == "act":
                    out[lab] = [it["name"], c, "", "yes" if it["kind"] == "subProcess" else "", ""]
                    self.labels[id(it)] = lab
                elif it["t"] == "end":
                    out[lab] = [prefixed(it), c, "", "", "yes"]
                    self.labels[id(it)] = lab
                else:
                    nxt = seq[k + 1] if k + 1 < len(seq) else follow
                    for j, b in enumerate(it["branches"]):
                        bc = it["conds"][j][0] if it["kind"] != "parallelGateway" else ""
                        if it["default"] == j:
                            bc = "else"
                        if b:
                            visit(b, lab + LETTERS[j], 1, bc, nxt)
                        else:
                            out[lab + LETTERS[j] + "1"] = [("goto", nxt), bc, "", "", ""]
        out["0"] = [prefixed(self.start), "", "", "yes" if self.start.get("kind") == "subProcess" else "", ""]
        self.labels[id(self.start)] = "0"
        visit(self.top, "", 1, "", None)
        for r in out.values():
            if isinstance(r[0], tuple):
                if id(r[0][1]) not in self.labels:
                    raise Unexpressible("a skipped block is not followed by a row")
                r[0] = "goto " + self.labels[id(r[0][1])]
        return out

    # -- the diagram
    def build(self, g):
        """Creates the process in diagram g through the building methods. Returns {node id: tree item}."""
        C, rng = objview.consts(), self.rng
        g.create_new_diagram_graph("block")
        p = g.add_process_to_diagram("process")
        items, flows = {}, {}
        style = rng.choice([None, None, "n%d", "%d", "%da"])      # generated ids, or ids that other diagrams use as well
        made = [0]

        def nid():
            made[0] += 1
            return style % (made[0] - 1) if style else None

        def node(it):
            if it["t"] == "start":
                i, _ = g.add_start_event_to_diagram(p, it["name"], it["def"], node_id=nid())
            elif it["t"] == "end":
                i, _ = g.add_end_event_to_diagram(p, it["name"], it["def"], node_id=nid())
            elif it["kind"] == "task":
                i, _ = g.add_task_to_diagram(p, it["name"], node_id=nid())
            else:
                i, _ = g.add_subprocess_to_diagram(p, it["name"], node_id=nid())
            items[i] = it
            return i

        def gw(kind, direction):
            if kind in OTHER:
                return g.add_gateway_to_diagram(p, kind, "gw" if rng.random() < 0.5 else "", gateway_direction=direction, node_id=nid())[0]
            f = {"exclusiveGateway": g.add_exclusive_gateway_to_diagram, "inclusiveGateway":
                 g.add_inclusive_gateway_to_diagram, "parallelGateway": g.add_parallel_gateway_to_diagram}[kind]
            return f(p, "gw" if rng.random() < 0.5 else "", gateway_direction=direction, node_id=nid())[0]

        def wire(seq, k, sources):
            """sources: list of (node id, (cond, how) or None, callback). Connects them to item k of seq and goes on.
            Returns the loose ends of an unfinished sequence."""
            if k == len(seq):
                return sources
            it = seq[k]
            if it["t"] != "split":
                i = node(it)
                for s in sources:
                    connect(s, i)
                if it["t"] == "end":
                    return []
                return wire(seq, k + 1, [(i, None, None)])
            if it.get("implicit"):
                s = sources[0][0]
            else:
                s = gw(it["kind"], "Diverging")
                for x in sources:
                    connect(x, s)
            grouped = []
            for j, b in enumerate(it["branches"]):
                def created(fid, j=j, it=it, s=s):
                    if it["default"] == j:
                        g.diagram_graph.node[s][C.default] = fid
                    order.setdefault(s, {})[j] = fid
                grouped += [(j, x) for x in wire(b, 0, [(s, it["conds"][j], created)])]
            ends = [x for _, x in grouped]
            if it["join"] == "gateway":
                ks = sorted({k2 for k2, _ in grouped})
                if len(ks) >= 3 and rng.random() < STAGED:
                    # some branches meet before the others join them
                    first = rng.sample(ks, rng.randint(2, len(ks) - 1))
                    pre = gw(it["kind"], "Converging")
                    for k2, x in grouped:
                        if k2 in first:
                            connect(x, pre)
                    ends = [x for k2, x in grouped if k2 not in first]
                    ends.insert(rng.randint(0, len(ends)), (pre, None, None))
                    self.staged = True
                jn = gw(it["kind"] if rng.random() < 0.8 else rng.choice(GWS + OTHER), "Converging")
                for x in ends:
                    connect(x, jn)
                ends = [(jn, None, None)]
            return wire(seq, k + 1, ends)

        def connect(src, dst):
            a, cond, cb = src
            text_, how = cond if cond else ("", "name")
            fid, f = g.add_sequence_flow_to_diagram(p, a, dst, text_ if how in ("name", "both") else "")
            if cond and text_ and how in ("cond", "both"):
                f[C.condition_expression] = {C.id: fid + "_cond", C.condition_expression: text_}
            if cb:
                cb(fid)
            flows[fid] = (a, dst)
        order = {}
        st = node(self.start)
        rest = wire(self.top, 0, [(st, None, None)])
        assert not rest, "open end"
        # branches are lettered in the order of the split's outgoing list; a skipped block is connected last, so restore
        # the order in which the tree lists the branches
        for s, by in order.items():
            g.diagram_graph.node[s][C.outgoing_flow][:] = [by[j] for j in sorted(by)]
        return items

    def fingerprint(self):
        r = self.rows()
        return tuple((k, v[0] if v[0].startswith("goto") else "", v[1], v[3], v[4]) for k, v in r.items())


class Unexpressible(Exception):
    pass


def process(rng, **kw):
    while True:
        p = Process(rng, **kw)
        try:
            p.rows()
        except Unexpressible:
            continue
        return p


def is_open(seq):
    if not seq:
        return True
    last = seq[-1]
    if last["t"] == "split":
        return last["open"] > 0
    return last["t"] != "end"


def opens(branches):
    return sum(1 for b in branches if is_open(b))
