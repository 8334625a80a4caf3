"""Seeded generators of names, identifiers, numbers and conditions."""

UNI = ["Zażółć gęślą", "審査する", "Übergrößenträger", "naïve café", "Ωmega ≤ β", "emoji 🚀 done", "e\u0301 combining",
       "\u200bzero width", "rtl \u05e9\u05dc\u05d5\u05dd", "nbsp\u00a0here"]
NUMLIKE = ["1", "007", "3.50", "1e5", "-2", "0", "1,5", "12%", "0x1F", "+4", "1_000", "٣", "7.0", "100.00", "12.0", "1.", "-0"]
NALIKE = ["NA", "N/A", "None", "null", "nan", "NaN", "True", "false", "#N/A", "n/a", "-", "inf", "yes", "no", "else"]
PUNCT = ["a & b", "<tag>", "x < y > z", "say \"hi\"", "it's", "a;b|c", "50% [off] {x}", "back\\slash", "p->q", "a=b",
         "&amp;", "&#65;", "]]>", "<!-- c -->", "#hash", "a/b?c=d", "semi;colon", "comma, separated, list", "colon: x"]
WS = [" lead", "trail ", "two  spaces", "tab\there", "line\nbreak", "  both  ", "\n", " "]
WORDS = ["check", "order", "ship", "goods", "invoice", "approve", "claim", "customer", "send", "receive", "payment",
         "review", "archive", "notify", "plan", "audit"]


def word(rng):
    return rng.choice(WORDS)


def plain(rng):
    n = rng.randint(1, 3)
    return " ".join(rng.choice(WORDS) for _ in range(n)).capitalize()


def name(rng, ws=True, empty=0.12):
    """A hostile display name."""
    r = rng.random()
    if r < empty:
        return ""
    if r < 0.50:
        return plain(rng)
    if r < 0.60:
        return rng.choice(UNI)
    if r < 0.68:
        return rng.choice(NUMLIKE)
    if r < 0.75:
        return rng.choice(NALIKE)
    if r < 0.87:
        return rng.choice(PUNCT)
    if r < 0.93:
        return rng.choice(WS) if ws else plain(rng)
    if r < 0.97:
        return plain(rng) + " " + rng.choice(PUNCT + UNI)
    return (plain(rng) + " ") * rng.choice([5, 20, 40, 90, 300]) + "end"


class Ids:
    """Unique identifiers in several styles; some are prefixes of others or look like numbers or keywords."""
    KEY = ["id", "name", "node", "type", "process", "task", "graph", "start", "end", "x", "None", "default", "edge"]

    def __init__(self, rng, simple=False):
        self.rng, self.used, self.n, self.simple = rng, set(), 0, simple
        self.style = rng.randint(0, 9)

    def new(self, stem="e"):
        rng = self.rng
        while True:
            self.n += 1
            st = self.style if rng.random() < 0.8 else rng.randint(0, 9)
            if self.simple:
                v = "%s_%d" % (stem, self.n)
            elif st == 0:
                v = "sid-%08X-%04X" % (rng.getrandbits(32), rng.getrandbits(16))
            elif st == 1:
                v = "%s_%d" % (stem, self.n)
            elif st == 2:
                v = "_%s.%d" % (stem, self.n)
            elif st == 3:
                v = "%s%s" % (stem[0], "1" * rng.randint(1, 9))
            elif st == 4:
                v = "%s_%07x" % (stem.capitalize(), rng.getrandbits(28))
            elif st == 5:
                v = "%s-ä%d" % (stem, self.n)
            elif st == 7:       # short ids over a tiny alphabet: concatenations of two of them are ambiguous
                v = "".join(rng.choice("ab_") for _ in range(rng.randint(1, 2 + self.n // 4)))
                if v[0] == "_" and rng.random() < 0.7:
                    continue
            elif st == 8:       # ids that differ only in the case of their letters
                v = "".join(rng.choice((c, c.upper())) for c in rng.choice(("element", "ab" + "c" * (self.n // 8))))
            elif st == 9:       # ids that look derived from others
                v = "%s%d%s" % (stem, self.n, rng.choice(["_gui", "_di", "_", ".", "-", "_shape", "_1", "__", "_label", "-copy"]))
            else:
                v = rng.choice(self.KEY) if rng.random() < 0.4 else "a" + stem + str(rng.randint(1, 300))
            if v not in self.used:
                self.used.add(v)
                return v


def boolean(rng):
    """A value of XML Schema type boolean, now and then in its numeric form."""
    return rng.choice(("true", "false")) if rng.random() < 0.8 else rng.choice(("1", "0"))


def boolnorm(v):
    return {"1": "true", "0": "false"}.get(v, v)


def coord(rng, neg=True):
    r = rng.random()
    lo = -300 if neg else 1
    if r < 0.6:
        return str(rng.randint(lo, 2500))
    if r < 0.75:
        return "%d.%d" % (rng.randint(lo, 2500), rng.choice([0, 5, 25, 75]))
    if r < 0.9:
        return "%d.%0*d" % (rng.randint(lo, 2500), rng.randint(1, 13), rng.randint(1, 9))
    if r < 0.94:
        return "0"
    if r < 0.96:
        return rng.choice(["123456.7890625", "1234567890.5", "98765432101234", "0.000001", "16777217", "0.1", "1099511627777.25",
                           "100000000000000000000", "33.333333333333336", "00012.50", "1e3", "1.25E2", "+12.5", ".5", "7."])
    if neg and r < 0.975:
        return rng.choice(["-0.5", "-0.25", "-0.75", "-0.0625", "-0", "-0.0", "-1.5", "-.5", "-2e-1", "-0.9999999"])
    return "%d.0" % rng.randint(lo, 100000)
