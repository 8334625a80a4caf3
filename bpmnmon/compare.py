"""Comparators over the normal form. Each returns nothing or raises core.Violation."""


from .text import boolnorm
from .xmlmodel import BOOLS


def lex(attr, v):
    """Value of an attribute up to the two spellings of XML booleans."""
    return boolnorm(v) if attr in BOOLS else v


def keys(ctx, exp, got, what):
    e, g = set(exp), set(got)
    ctx.check(not e - g, "%s lost: %s", what, sorted(map(str, e - g))[:5])
    ctx.check(not g - e, "%s invented: %s", what, sorted(map(str, g - e))[:5])


def flowlist(ctx, exp, got, listed, msgs, what):
    """Every expected flow exactly once; listed ones in their order; ids of message flows may be listed as well."""
    rest = [x for x in got if x not in msgs]
    extra = [x for x in got if x in msgs]
    ctx.check(len(set(extra)) == len(extra), "%s: message flow listed twice in %s", what, got)
    ctx.check(sorted(rest) == sorted(exp), "%s: expected flows %s, got %s", what, exp, got)
    ctx.check([x for x in rest if x in listed] == [x for x in exp if x in listed],
              "%s: order changed, expected %s, got %s", what, exp, got)


def msgids(n):
    return set(n["collab"]["msgflows"]) if n["collab"] else set()


def nodes(ctx, exp, got, where):
    ctx.check(not [d for d in got["dups"] if d.startswith("node")], "%s: duplicated %s", where, got["dups"])
    ctx.check(not [u for u in got.get("unknown", []) if not u.startswith("laneSet")], "%s: unexpected elements %s", where,
              got.get("unknown"))
    keys(ctx, exp["nodes"], got["nodes"], where + ": flow node")
    msgs = msgids(exp)
    for i, e in exp["nodes"].items():
        g = got["nodes"][i]
        for k in ("kind", "name", "container", "evdefs"):
            ctx.equal(e[k] if k != "name" else e[k] or "", g[k] if k != "name" else g[k] or "",
                      "%s: %s of node %s" % (where, k, i))
        for a, v in e["attrs"].items():
            w = g["attrs"].get(a)
            ctx.check(w != "" or v == "" or "root" not in got, "%s: attribute %s of %s %s is exported empty", where, a, e["kind"], i)
            ctx.check((lex(a, v) or None) == (lex(a, w) or None), "%s: attribute %s of %s %s: expected %r, got %r", where, a, e["kind"], i,
                      v, w)
        for k in ("incoming", "outgoing"):
            flowlist(ctx, e[k], g[k], e.get("listed", {}).get(k, e[k]), msgs, "%s: %s of node %s" % (where, k, i))
    ctx.count("nodes_compared", len(exp["nodes"]))


def name_ok(e, g, cond):
    if (e or "") == (g or ""):
        return True
    return not e and cond is not None and g == cond[1]      # a condition may stand in for a missing name


def flows(ctx, exp, got, where, cond_as_name=True):
    ctx.check(not [d for d in got["dups"] if "flow" in d.lower()], "%s: duplicated %s", where, got["dups"])
    keys(ctx, exp["flows"], got["flows"], where + ": sequence flow")
    for i, e in exp["flows"].items():
        g = got["flows"][i]
        for k in ("container", "source", "target"):
            ctx.equal(e[k], g[k], "%s: %s of flow %s" % (where, k, i))
        ctx.equal(e["cond"], g["cond"], "%s: condition of flow %s" % (where, i))
        ctx.check(name_ok(e["name"], g["name"], e["cond"] if cond_as_name else None),
                  "%s: name of flow %s: expected %r, got %r", where, i, e["name"], g["name"])
    em = exp["collab"]["msgflows"] if exp["collab"] else {}
    gm = got["collab"]["msgflows"] if got["collab"] else {}
    keys(ctx, em, gm, where + ": message flow")
    for i, e in em.items():
        ctx.equal(e, gm[i], "%s: message flow %s" % (where, i))
    ctx.count("flows_compared", len(exp["flows"]))
    ctx.count("message_flows_compared", len(em))


def containers(ctx, exp, got, where):
    ctx.check(not [d for d in got["dups"] if not d.startswith("node") and "flow" not in d.lower()], "%s: duplicated %s",
              where, got["dups"])
    ctx.check(not [u for u in got.get("unknown", []) if u.startswith("laneSet")], "%s: %s", where, got.get("unknown"))
    keys(ctx, exp["processes"], got["processes"], where + ": process")
    ctx.equal(list(exp["processes"]), list(got["processes"]), where + ": order of processes")
    for i, e in exp["processes"].items():
        g = got["processes"][i]
        for a in ("name", "isClosed", "isExecutable", "processType"):
            ctx.equal(lex(a, e[a] or ""), lex(a, g[a] or ""), "%s: %s of process %s" % (where, a, i))
        laneset(ctx, e["laneset"], g["laneset"], "%s: lane set of process %s" % (where, i))
    if exp["collab"] is None:
        ctx.check(got["collab"] is None, "%s: a collaboration was invented", where)
    else:
        ctx.check(got["collab"] is not None, "%s: the collaboration was lost", where)
        ctx.equal(exp["collab"]["id"], got["collab"]["id"], where + ": id of collaboration")
        e, g = exp["collab"]["participants"], got["collab"]["participants"]
        keys(ctx, e, g, where + ": participant")
        for i in e:
            ctx.equal(e[i], g[i], "%s: participant %s" % (where, i))
        ctx.count("participants_compared", len(e))


def laneset(ctx, e, g, what):
    if e is None:
        ctx.check(g is None, "%s invented", what)
        return
    ctx.check(g is not None, "%s lost", what)
    ctx.equal(e["id"], g["id"], what + ": id")
    ctx.equal([x["id"] for x in e["lanes"]], [x["id"] for x in g["lanes"]], what + ": lanes")
    ctx.count("lanes_compared", len(e["lanes"]))
    for a, b in zip(e["lanes"], g["lanes"]):
        ctx.equal(a["name"], b["name"], what + ": name of lane " + a["id"])
        ctx.equal(a["refs"], b["refs"], what + ": flow node references of lane " + a["id"])
        laneset(ctx, a["child"], b["child"], what + ": child lane set of " + a["id"])
        if a["child"]:
            ctx.count("child_lane_sets_compared")


def di(ctx, exp, got, where, names=True):
    keys(ctx, exp["shapes"], got["shapes"], where + ": shape of")
    sub = {i for i, n in exp["nodes"].items() if n["kind"] == "subProcess"}
    for i, e in exp["shapes"].items():
        g = got["shapes"][i]
        ctx.check(len(g) == 1, "%s: %d shapes of %s", where, len(g), i)
        e, g = e[0], g[0]
        for k in ("x", "y", "w", "h"):
            ctx.equal(e[k], g[k], "%s: %s of shape of %s" % (where, k, i))
        if i in sub:
            ctx.equal(boolnorm(e["isExpanded"] or "false"), boolnorm(g["isExpanded"] or "false"), "%s: isExpanded of %s" % (where, i))
        ctx.equal(boolnorm(e["isHorizontal"]), boolnorm(g["isHorizontal"]), "%s: isHorizontal of %s" % (where, i))
    keys(ctx, exp["edges"], got["edges"], where + ": edge of")
    for i, e in exp["edges"].items():
        g = got["edges"][i]
        ctx.check(len(g) == 1, "%s: %d edges of %s", where, len(g), i)
        ctx.equal(e[0], g[0], "%s: waypoints of %s" % (where, i))
    if names:
        ctx.equal(exp["diagram"], got["diagram"], where + ": diagram attributes")
        ctx.equal(exp["plane"], got["plane"], where + ": plane attributes")
    ctx.count("shapes_compared", len(exp["shapes"]))
    ctx.count("edges_compared", len(exp["edges"]))


def everything(ctx, exp, got, where, cond_as_name=True):
    nodes(ctx, exp, got, where)
    flows(ctx, exp, got, where, cond_as_name)
    containers(ctx, exp, got, where)
    di(ctx, exp, got, where)
