"""C25: crossing and segment counts match the drawn flow lines."""
from fractions import Fraction

from .. import laywork, objview, sources, text, xmlmodel, xmlwork

RULE = ("Diagrams with chosen waypoints (small grids full of touching, collinear and overlapping lines, zero-length pieces, stars, "
        "parallel lines, nearly touching lines, large and fractional coordinates, figures far from the origin), imported from documents or set on built diagrams, and laid out diagrams are "
        "measured; counts are compared with exact rational geometry over the coordinates that were given, then again with flows in "
        "another order and lines reversed. Non-trivial: at least two segments; distinct by coordinates.")
ASSUMPTIONS = ["coordinates are integers or multiples of 1/8 below 10^6, or multiples of 1/1024 below 1000, for which double precision arithmetic is exact",
               "flows without waypoints contribute no segments"]
COUNT = {"quick": 11000, "thorough": 580000}
MIN = {"cases": 500, "segments": 5000, "pairs": 100000, "crossings": 2000, "touching": 500, "collinear_overlaps": 200,
       "zero_length": 50, "shared_ends": 1000, "permuted": 200,
       "figures_over_200_segments": 5}


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def relation(s, t):
    """none, shared (a common end point), touch, overlap (collinear), cross"""
    a, b = s
    c, d = t
    if a in t or b in t:
        return "shared"
    if on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
        return "overlap" if cross(a, b, c) == 0 and cross(a, b, d) == 0 else "touch"
    x, y, u, v = cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b)
    if x * y < 0 and u * v < 0:
        return "cross"
    return "none"


def exact(v):
    """Eight times the number v."""
    v = 8 * Fraction(str(v))
    return int(v) if v.denominator == 1 else v


def expected(ctx, lines):
    segs = []
    for wps in lines:
        p = [(exact(x), exact(y)) for x, y in wps]
        segs += list(zip(p, p[1:]))
    n = 0
    for i in range(len(segs)):
        if segs[i][0] == segs[i][1]:
            ctx.count("zero_length")
        for j in range(i):
            r = relation(segs[i], segs[j])
            ctx.count({"none": "apart", "shared": "shared_ends", "touch": "touching", "overlap": "collinear_overlaps",
                       "cross": "proper_crossings"}[r])
            n += r in ("touch", "overlap", "cross")
    ctx.count("segments", len(segs))
    ctx.count("figures_over_200_segments", len(segs) > 200)
    ctx.count("pairs", len(segs) * (len(segs) - 1) // 2)
    ctx.count("crossings", n)
    return len(segs), n


def num(rng, v):
    """One of the ways to write the number v."""
    s = str(int(v)) if v == int(v) else repr(float(v))
    r = rng.random()
    if r < 0.6:
        return s
    if r < 0.8:
        return repr(float(v)) + ("0" if rng.random() < 0.3 else "")
    return s


def polylines(rng):
    style = rng.choice(["grid", "grid", "tiny", "ortho", "star", "parallel", "big", "frac", "line", "mixed", "needle", "fine"])
    n = rng.choice([1, 2, 3, 5, 8, 12])
    many = rng.random() < 0.004
    if many:
        n = rng.choice([60, 110, 180])

    def pt(style):
        if style == "grid":
            return rng.randint(0, 5), rng.randint(0, 5)
        if style == "tiny":
            return rng.randint(-1, 1), rng.randint(-1, 1)
        if style == "big":
            return rng.randint(-10 ** 5, 10 ** 6 - 1), rng.randint(-10 ** 5, 10 ** 6 - 1)
        if style == "frac":
            return rng.randint(-40, 40) / 8.0, rng.randint(-40, 40) / 8.0
        if style == "fine":
            return rng.randint(-3, 3) / 1024.0 + rng.randint(0, 2), rng.randint(-3, 3) / 1024.0 + rng.randint(0, 2)
        return rng.randint(0, 20) * 10, rng.randint(0, 20) * 10
    out = []
    for k in range(n):
        m = rng.choice([1, 2, 2, 2, 3, 4, 6]) if rng.random() < 0.9 else 0
        if many and rng.random() < 0.02:
            m = rng.choice([40, 120])
        if style == "ortho":
            p = [pt("")]
            for _ in range(m - 1):
                x, y = pt("")
                p.append((x, p[-1][1]) if rng.random() < 0.5 else (p[-1][0], y))
        elif style == "star":
            p = [(100, 100)] + [pt("") for _ in range(max(0, m - 1))] if rng.random() < 0.6 else [pt("") for _ in range(m)]
        elif style == "parallel":
            y = rng.randint(0, 3)
            p = [(rng.randint(0, 9) * 10, y * 10 + (j % 2) * 0) for j in range(m)]
        elif style == "line":
            p = [(t, 2 * t + 1) for t in (rng.randint(-4, 8) for _ in range(m))]
        elif style == "needle":
            # long lines that nearly touch: a few eighths apart
            b = rng.choice([100, 5000, 90000])
            p = [(j * b + rng.randint(-2, 2) / 8.0, rng.choice([0, 0, b / 5.0]) + rng.randint(-2, 2) / 8.0)
                 for j in (rng.randint(0, 5) for _ in range(m))]
        elif style == "mixed":
            p = [pt(rng.choice(["grid", "frac", "tiny"])) for _ in range(m)]
        else:
            p = [pt(style) for _ in range(m)]
        if p and rng.random() < 0.08:
            p.insert(rng.randrange(len(p)), p[rng.randrange(len(p))])
        out.append(p)
    if style not in ("big", "fine") and rng.random() < 0.25:
        # the same figure far from the origin
        far = [rng.choice([0, 1, -1]) * rng.choice([1000, 54321, 400000]) + rng.randint(-16, 16) / 8.0 for _ in range(2)]
        out = [[(x + far[0], y + far[1]) for x, y in p] for p in out]
    return out


def measure(ctx, g, lines, what=""):
    from bpmn_python import diagram_layout_metrics as lm
    segs, n = expected(ctx, lines)
    ctx.equal(segs, ctx.run("count_segments", lm.count_segments, g), "number of segments " + what)
    ctx.equal(n, ctx.run("count_crossing_points", lm.count_crossing_points, g), "number of crossings " + what)


def built(ctx, rng, lines):
    """A diagram with one flow per line whose waypoints were set through the public element."""
    C = objview.consts()
    g = objview.obj(ctx)
    g.create_new_diagram_graph("c")
    p = g.add_process_to_diagram("p")
    k = 1
    while k * (k - 1) < len(lines) or k < 2:
        k += 1
    ids = [g.add_task_to_diagram(p, "t%d" % j)[0] for j in range(k)]
    pairs = [(a, b) for a in ids for b in ids if a != b]
    rng.shuffle(pairs)
    form = rng.choice([lambda v: v, lambda v: num(rng, v), lambda v: float(v)])
    for (a, b), w in zip(pairs, lines):
        _, f = g.add_sequence_flow_to_diagram(p, a, b, "")
        f[C.waypoints] = [(form(x), form(y)) for x, y in w]
    return g


def document(ctx, rng, lines):
    gen = xmlmodel.Gen(rng, size=max(3, len(lines)), collab=rng.random() < 0.3, lanes=False, di="full")
    m = gen.model()
    edges = list(m["edges"])
    used = []
    for e, w in zip(edges, lines):
        if len(w) < 1:
            m["edges"].remove(e)
            continue
        e["wps"] = [(num(rng, x), num(rng, y)) for x, y in w]
        used.append(w)
    for e in edges[len(lines):]:
        m["edges"].remove(e)
    data = xmlmodel.write(m, xmlmodel.Lex())
    ctx.input("document.bpmn", data.decode())
    return xmlwork.load(ctx, xmlwork.put(ctx, data)), used


def case(ctx, i, rng):
    r = rng.random()
    if r < 0.15:
        g = laywork.diagram(ctx, rng)
        if len(g.diagram_graph.edges()) > 60:
            return
        laywork.layout(ctx, g)
        C = objview.consts()
        lines = [[(Fraction(str(x)), Fraction(str(y))) for x, y in d.get(C.waypoints) or []]
                 for _, _, d in g.diagram_graph.edges(data=True)]
        if any((8 * v).denominator != 1 for w in lines for q in w for v in q):
            return
        ctx.count("laid_out")
        measure(ctx, g, lines, "after layout")
        return
    lines = polylines(rng)
    ctx.input("lines", lines)
    ctx.seen(lines, sum(max(0, len(w) - 1) for w in lines) > 1)
    ctx.sample({"lines": lines[:6]})
    if r < 0.6:
        g = built(ctx, rng, lines)
    else:
        g, lines = document(ctx, rng, lines)
    measure(ctx, g, lines)
    if rng.random() < 0.5:
        again = [list(reversed(w)) if rng.random() < 0.5 else w for w in lines]
        rng.shuffle(again)
        measure(ctx, built(ctx, rng, again), again, "with flows reordered and reversed")
        ctx.count("permuted")


def FIXED():
    return xmlwork.corpus()


def fixed_case(ctx, path, rng):
    ctx.input("file", path)
    ctx.seen(path)
    n = xmlwork.drop_foreign(xmlmodel.read(path))
    lines = [w for e in n["edges"].values() for w in e[-1:]]
    if any((8 * Fraction(v)).denominator != 1 for w in lines for q in w for v in q):
        return
    measure(ctx, xmlwork.load(ctx, path), lines, "of " + path)
