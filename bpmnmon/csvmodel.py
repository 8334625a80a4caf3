"""Process sheets: an abstract block structure, its rows, and the control flow it must be imported as."""
import csv
import io

from . import text

LETTERS = "abcdefghijklmnopqrstuvwxyz"
COLS = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]


class Sheet:
    """Random sheet. tree: seq = list of items
       {"t": "act", ...} | {"t": "goto", "target": act} | {"t": "split", "branches": [seq, ...]}"""

    def __init__(self, rng, size=None, gotos=True, names=None, conds=None, depth=None, long=None):
        self.rng = rng
        self.left = size if size is not None else rng.choice([3, 6, 10, 15, 25, 40])
        self.gotos = gotos and rng.random() < 0.6
        self.acts = []
        self.names = names or self.name
        self.condf = conds
        self.conds_used = []
        self.maxdepth = depth if depth is not None else rng.choice([0, 1, 2, 3, 5])
        self.shift = 0                      # extra rows at the start, so that order numbers get more digits
        if size is None and rng.random() < 0.04:
            self.shift = rng.choice([7, 8, 9, 96, 97, 98, 99, 100])
            self.left += self.shift
        self.marks = ["no", "no", "-", "n/a", "false", "0", "none", "yesterday", "not yes"] if rng.random() < 0.3 else [""]
        self.long = rng.random() < 0.25 if long is None else long
        self.pending = []
        self.top = self.seq(0, True)
        self.label(self.top, "", 0)
        self.resolve_gotos()
        self.reference()

    # -- generation
    def name(self):
        while True:
            n = text.name(self.rng, empty=0.08)
            if not n.lower().startswith("goto") and "\r" not in n:
                return n

    def act(self, **kw):
        self.left -= 1
        a = {"t": "act", "name": self.names(), "cond": "", "who": text.plain(self.rng) if self.rng.random() < 0.2 else "",
             "sub": self.rng.random() < 0.15, "term": False, "nosub": self.rng.choice(self.marks),
             "noterm": self.rng.choice(self.marks)}
        a.update(kw)
        self.acts.append(a)
        return a

    def seq(self, depth, top):
        rng = self.rng
        items = [self.act()] if top else []
        if top:
            items += [self.act() for _ in range(self.shift)]
        want_open = not top and rng.random() < 0.75
        steps = rng.randint(1, 4) if not (self.long and rng.random() < 0.4) else rng.choice([9, 10, 11, 12, 13, 14, 14, 102])
        if steps > 100:
            self.left += steps
        if top:
            steps = max(steps, min(self.left, rng.randint(1, 12)))
        for k in range(steps):
            if self.left <= 0 and k > 0:
                break
            prev = items[-1] if items else None
            can_split = prev is not None and prev["t"] == "act" and depth < self.maxdepth and self.left > 2
            if can_split and rng.random() < 0.45:
                sp = self.split(depth)
                items.append(sp)
                if closed_split(sp):
                    return items
            else:
                items.append(self.act())
        last = items[-1]
        if want_open:
            return items
        if top and last["t"] == "split":
            items.append(self.act())
            last = items[-1]
        if last["t"] == "act":
            if self.gotos and not top and rng.random() < 0.5:
                items.append(self.goto())
            elif self.gotos and top and rng.random() < 0.1 and len(items) > 1:
                items.append(self.goto())
            elif len(items) == 1 and top:
                items.append(self.act(term=True))
            else:
                last["term"] = True
                last["sub"] = last["sub"] and rng.random() < 0.5
        return items

    def goto(self):
        g = {"t": "goto", "cond": "", "who": "", "word": self.rng.choice(["goto", "goto", "Goto", "GOTO", "GoTo"]), "sep": " ", "tail": ""}
        if self.rng.random() < 0.1:
            g["sep"] = self.rng.choice(["  ", "\t", "   "])
        if self.rng.random() < 0.06:
            g["tail"] = self.rng.choice([" ", "  ", " again", " and retry", " (see 1)", " 1", " until done"])
        self.pending.append(g)
        return g

    def split(self, depth):
        rng = self.rng
        n = rng.choice([2, 2, 2, 3, 4]) if rng.random() < 0.93 else rng.choice([1, 1, 5, 8, 26])
        branches = []
        for _ in range(n):
            if self.gotos and rng.random() < 0.2:
                branches.append([self.goto()])
            else:
                branches.append(self.seq(depth + 1, False))
        if all(b[0]["t"] == "goto" for b in branches):
            branches[0] = self.seq(depth + 1, False)
        # conditions of the first rows
        style = rng.choice(["none", "yesno", "else", "some", "all", "elsemany"])
        conds = [""] * n
        if style == "yesno":
            conds = [rng.choice(["yes", "no"]) for _ in range(n)]
            if n == 2 and rng.random() < 0.8:
                conds = rng.choice([["yes", "no"], ["no", "yes"], [" yes", "no "]])
        elif style in ("else", "elsemany"):
            conds = [self.cond() if rng.random() < 0.8 else "" for _ in range(n)]
            conds[rng.randrange(n)] = rng.choice(["else", "else", "else", " else ", "Else"])
        elif style == "some":
            conds = [self.cond() if rng.random() < 0.5 else "" for _ in range(n)]
        elif style == "all":
            conds = [self.cond() for _ in range(n)]
        for b, c in zip(branches, conds):
            b[0]["cond"] = c
            if len(b) > 1 and b[-1]["t"] == "goto" and rng.random() < 0.4:
                b[-1]["cond"] = c if rng.random() < 0.4 else self.cond()
        return {"t": "split", "branches": branches, "conds": conds}

    def cond(self):
        if self.condf:
            return self.condf()
        r = self.rng
        if self.conds_used and r.random() < 0.15:
            return r.choice(self.conds_used)
        c = r.choice(["x > 5", "amount <= 100", "Accepted", "Yes", "NO", "yes", "maybe, later", "\"quoted\"", "if else",
                         "elsewhere", "1", "0", "NA", "ąę", "a\nb", "   "]) if r.random() < 0.7 else text.name(r, empty=0)
        self.conds_used.append(c)
        return c

    # -- labels
    def label(self, seq, prefix, start):
        rng = self.rng
        bare = prefix and len(seq) == 1 and seq[0]["t"] != "split" and rng.random() < 0.5
        for k, it in enumerate(seq):
            lab = prefix if bare else prefix + str(start + k)
            it["label"] = lab
            if it["t"] == "split":
                for j, b in enumerate(it["branches"]):
                    self.label(b, lab + LETTERS[j], 1)

    def resolve_gotos(self):
        """Choose targets so that no split gets two flows to one node."""
        rng = self.rng
        targets = [a for a in self.acts if a["label"] != "0"]

        def visit(seq):
            for k, it in enumerate(seq):
                if it["t"] == "goto":
                    it["target"] = rng.choice(targets)
                elif it["t"] == "split":
                    used = [b[0] for b in it["branches"] if b[0]["t"] == "act"]
                    for b in it["branches"]:
                        if b[0]["t"] == "goto":
                            free = [t for t in targets if not any(t is u for u in used)]
                            if not free:
                                raise DuplicateEdge()
                            else:
                                b[0]["target"] = rng.choice(free)
                                used.append(b[0]["target"])
                        else:
                            visit(b)
        visit(self.top)

    # -- rows
    def rows(self):
        out = []

        def visit(seq):
            for it in seq:
                if it["t"] == "act":
                    out.append([it["label"], it["name"], it["cond"], it["who"], "yes" if it["sub"] else it["nosub"],
                                "yes" if it["term"] else it["noterm"]])
                elif it["t"] == "goto":
                    out.append([it["label"], it["word"] + it["sep"] + it["target"]["label"] + it["tail"], it["cond"], it["who"], "", ""])
                else:
                    for b in it["branches"]:
                        visit(b)
        visit(self.top)
        return out

    def write(self, plain=False, shuffle=False):
        rng = self.rng
        buf = io.StringIO(newline="")
        if plain:
            w = csv.writer(buf, lineterminator="\n")
            pad = 0
        else:
            w = csv.writer(buf, lineterminator=rng.choice(["\n", "\n", "\r\n"]),
                           quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL]))
            pad = rng.choice([0, 0, 0.3, 1])
        w.writerow(COLS)
        rows = self.rows()
        if shuffle:
            rng.shuffle(rows)
        for r in rows:
            r = list(r)
            if pad and rng.random() < pad:
                r[0] = rng.choice([" ", "", "  "]) + r[0] + rng.choice([" ", "", "   "])
            w.writerow(r)
        return buf.getvalue()

    # -- reference control flow
    def reference(self):
        """self.nodes: label -> (kind, name); self.gw: gateway key -> kind; self.edges: {(a, b): condition}."""
        self.nodes, self.gw, self.edges = {}, {}, {}
        for a in self.acts:
            k = "startEvent" if a["label"] == "0" else "endEvent" if a["term"] else "subProcess" if a["sub"] else "task"
            self.nodes[a["label"]] = (k, a["name"])
        arrivals = {}                       # id(row after a split) -> list of arriving acts
        after = {}                          # id(row) -> (row, split)

        def visit(seq, cont):
            """cont: (row, split) that follows when the sequence ends, or None"""
            for k, it in enumerate(seq):
                nxt = seq[k + 1] if k + 1 < len(seq) else None
                if it["t"] == "split":
                    c = (nxt, it) if nxt is not None else cont
                    for b in it["branches"]:
                        visit(b, c)
                elif it["t"] == "act" and not it["term"]:
                    if nxt is None:
                        if cont is None:
                            raise AssertionError("open end at top level: " + it["label"])
                        arrivals.setdefault(id(cont[0]), []).append(it)
                        after[id(cont[0])] = cont
                    elif nxt["t"] == "act":
                        self.edge(it["label"], nxt["label"], "")
                    elif nxt["t"] == "goto":
                        self.edge(it["label"], nxt["target"]["label"], nxt["cond"])
                    elif len(nxt["branches"]) == 1:         # no gateway is needed
                        f = nxt["branches"][0][0]
                        self.edge(it["label"], f["label"], f["cond"])
                    else:
                        key = ("split", nxt["label"])
                        self.gw[key] = kind_of([c for c in nxt["conds"]])
                        self.edge(it["label"], key, "")
                        for b in nxt["branches"]:
                            f = b[0]
                            self.edge(key, f["label"] if f["t"] == "act" else f["target"]["label"], f["cond"])
        visit(self.top, None)
        for rid, acts in arrivals.items():
            row, split = after[rid]
            tgt = row["label"] if row["t"] == "act" else row["target"]["label"]
            cond = "" if row["t"] == "act" else row["cond"]
            if len(acts) == 1:
                self.edge(acts[0]["label"], tgt, cond)
            else:
                key = ("join", row["label"])
                if len(split["branches"]) == 1:
                    raise DuplicateEdge()       # the kind of this join is not prescribed
                self.gw[key] = self.gw[("split", split["label"])]
                self.edge(key, tgt, cond)
                for a in acts:
                    self.edge(a["label"], key, "")

    def edge(self, a, b, cond):
        if (a, b) in self.edges:
            raise DuplicateEdge((a, b))
        self.edges[(a, b)] = cond

    def succ(self):
        return collapse(list(self.nodes), self.edges, lambda x: isinstance(x, tuple))

    def fingerprint(self):
        return tuple((r[0], r[1] if r[1].lower().startswith("goto") else "", r[2], r[4], r[5]) for r in self.rows())


class DuplicateEdge(Exception):
    pass


def closed(seq):
    last = seq[-1]
    if last["t"] == "split":
        return closed_split(last)
    return last["t"] == "goto" or last["term"]


def closed_split(sp):
    return all(closed(b) for b in sp["branches"])


def kind_of(conds):
    c = [x.strip() for x in conds]
    if len(c) == 2 and (set(c) == {"yes", "no"} or "else" in c):
        return "exclusiveGateway"
    if not any(c):
        return "parallelGateway"
    return "inclusiveGateway"


def collapse(nodes, edges, is_gw):
    """Direct successors ignoring gateways."""
    out = {}
    for a, b in edges:
        out.setdefault(a, []).append(b)
    res = {}
    for n in nodes:
        seen, todo, s = set(), list(out.get(n, [])), set()
        while todo:
            x = todo.pop()
            if is_gw(x):
                if x not in seen:
                    seen.add(x)
                    todo += out.get(x, [])
            else:
                s.add(x)
        res[n] = s
    return res


def sheet(rng, **kw):
    while True:
        try:
            return Sheet(rng, **kw)
        except (DuplicateEdge, IndexError):
            continue
