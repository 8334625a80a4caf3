"""An independent reader of DOT files, with graphviz's semantics for defaults, repeated nodes and strict graphs."""
import re


class DotError(Exception):
    pass


TOKEN = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|\#[^\n]*(?=\n|$)|/\*.*?\*/)
  | (?P<edge>->|--)
  | (?P<punct>[{}\[\];,=:+])
  | (?P<num>-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))(?![A-Za-z_\x80-\U0010ffff])
  | (?P<id>[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff]*)
  | (?P<str>"(?:\\\\|\\"|[^"])*?")
''', re.X | re.S)
KEYWORDS = {"node", "edge", "graph", "digraph", "subgraph", "strict"}


def tokens(s):
    i, out = 0, []
    while i < len(s):
        if s[i] == "<":
            depth, j = 0, i
            while j < len(s):
                depth += {"<": 1, ">": -1}.get(s[j], 0)
                j += 1
                if depth == 0:
                    break
            if depth:
                raise DotError("unclosed <")
            out.append(("html", s[i + 1:j - 1]))
            i = j
            continue
        if s[i] == '"':
            j, buf = i + 1, []
            while True:
                if j >= len(s):
                    raise DotError("unclosed string")
                if s[j] == '"':
                    break
                if s[j] == "\\" and j + 1 < len(s):
                    if s[j + 1] == '"':
                        buf.append('"')
                    elif s[j + 1] == "\n":
                        pass
                    else:
                        buf.append(s[j:j + 2])
                    j += 2
                    continue
                buf.append(s[j])
                j += 1
            out.append(("val", "".join(buf)))
            i = j + 1
            continue
        m = TOKEN.match(s, i)
        if not m:
            raise DotError("unexpected text %r" % s[i:i + 30])
        k = m.lastgroup
        t = m.group()
        if k == "id":
            out.append(("key", t.lower()) if t.lower() in KEYWORDS else ("val", t))
        elif k == "num":
            out.append(("val", t))
        elif k != "ws":
            out.append((k, t))
        i = m.end()
    return out


class Graph:
    def __init__(self):
        self.directed = self.strict = False
        self.nodes = {}         # id -> attributes
        self.edges = []         # (tail, head, attributes)


def parse(s):
    ts = tokens(s)
    pos = [0]

    def peek(k=0):
        return ts[pos[0] + k] if pos[0] + k < len(ts) else ("end", "")

    def take(*want):
        t = peek()
        if want and t not in want and t[0] not in want:
            raise DotError("expected %s, found %r" % (want, t))
        pos[0] += 1
        return t
    g = Graph()
    if peek() == ("key", "strict"):
        take()
        g.strict = True
    g.directed = take(("key", "digraph"), ("key", "graph"))[1] == "digraph"
    if peek()[0] in ("val", "html"):
        take()
    take(("punct", "{"))
    dn, de = {}, {}

    def attrs():
        out = {}
        while peek() == ("punct", "["):
            take()
            while peek() != ("punct", "]"):
                k = take("val", "html")[1]
                take(("punct", "="))
                t = take("val", "html")
                v = t[1] if t[0] == "val" else ("html", t[1])
                out[k] = v
                if peek() in (("punct", ","), ("punct", ";")):
                    take()
            take()
        return out

    def node(a=None):
        i = take("val", "html")[1]
        while peek() == ("punct", ":"):
            take()
            take("val", "html")
        if i not in g.nodes:
            g.nodes[i] = dict(dn)
        return i
    while peek() != ("punct", "}"):
        t = peek()
        if t == ("punct", ";"):
            take()
        elif t[0] == "key" and t[1] in ("node", "edge", "graph"):
            take()
            a = attrs()
            if t[1] == "node":
                dn.update(a)
            elif t[1] == "edge":
                de.update(a)
        elif t[0] in ("val", "html"):
            if peek(1) == ("punct", "="):
                take(), take(), take("val", "html")
                continue
            chain = [node()]
            while peek()[0] == "edge":
                op = take()[1]
                if (op == "->") != g.directed:
                    raise DotError("edge operator %s" % op)
                chain.append(node())
            a = attrs()
            if len(chain) == 1:
                g.nodes[chain[0]].update(a)
            for x, y in zip(chain, chain[1:]):
                same = [e for e in g.edges if e[:2] == (x, y)] if g.strict else []
                if same:
                    same[0][2].update(a)
                else:
                    g.edges.append((x, y, dict(de, **a)))
        else:
            raise DotError("unexpected %r" % (t,))
    take()
    if peek()[0] != "end":
        raise DotError("text after the graph")
    return g


def unescape(v):
    """Text shown for a label (escString)."""
    if not isinstance(v, str):
        return v
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "l": "\n", "r": "\n"}.get(m.group(1), m.group(1)), v, flags=re.S)
