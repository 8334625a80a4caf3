"""C28: typed BPMN element objects accept only values of the documented type."""
import importlib

from .. import core, text

RULE = ("Pools of objects of all 26 element classes go through random histories of accepted and rejected assignments and constructor "
        "calls with hostile values; after every step every attribute of every object in the pool is compared with a shadow model. "
        "The first cases try every class, attribute and value once. Non-trivial: any history; distinct by the sequence of calls.")
ASSUMPTIONS = ["instances of subclasses count as instances; the documented types are those of the class docstrings and BPMN 2.0 optionality"]
COUNT = {"quick": 30000, "thorough": 1500000}
MIN = {"cases": 500, "accepted": 10000, "rejected": 10000, "observed_attributes": 200000, "constructor_rejections": 300,
       "lists_changed_in_place": 300}

# attribute -> (getter, setter, type, default); type: str?, str, bool, bool?, strlist, [Class], Class?, enum values
ID = {"id": ("get_id", "set_id", "str?", None)}
NAME = {"name": ("get_name", "set_name", "str?", None)}
FLOWNODE = dict(ID, **NAME, incoming=("get_incoming", "set_incoming", "strlist", []),
                outgoing=("get_outgoing", "set_outgoing", "strlist", []))
DEFAULT = {"default": ("get_default", "set_default", "str?", None)}
LANESETS = {"lane_set_list": ("get_lane_set_list", "set_lane_set_list", ["LaneSet"], []),
            "flow_element_list": ("get_flow_element_list", "set_flow_element_list", ["FlowElement"], [])}
EVDEFS = {"event_definition_list": ("get_event_definition_list", "set_event_definition_list", ["EventDefinition"], [])}
PARALLEL = {"parallel_multiple": ("parallel_multiple", "set_parallel_multiple", "bool", False)}
DIRECTION = {"gateway_direction": ("get_gateway_direction", "set_gateway_direction",
                                   ("Unspecified", "Converging", "Diverging", "Mixed"), "Unspecified")}
REFS = {"source_ref": ("get_source_ref", "set_source_ref", "str", None),
        "target_ref": ("get_target_ref", "set_target_ref", "str", None)}
P = "bpmn_python.graph.classes."
CLASSES = {
    "BaseElement": ("base_element_type", ID),
    "ConditionExpression": ("condition_expression_type", {"condition": ("get_condition", "set_condition", "str", None)}),
    "FlowElement": ("flow_element_type", dict(ID, **NAME)),
    "FlowNode": ("flow_node_type", FLOWNODE),
    "LaneSet": ("lane_set_type", dict(ID, **NAME, lane_list=("get_lane_list", "set_lane_list", ["Lane"], []))),
    "Lane": ("lane_type", dict(ID, **NAME, refs=("get_flow_node_ref_list", "set_flow_node_ref_list", "strlist", []),
                               child=("get_child_lane_set", "set_child_lane_set", "LaneSet?", None))),
    "MessageFlow": ("message_flow_type", dict(ID, **NAME, **REFS,
                                              message_ref=("get_message_ref", "set_message_ref", "str?", None))),
    "Participant": ("participant_type", dict(ID, **NAME, process_ref=("get_process_ref", "set_process_ref", "str?", None))),
    "SequenceFlow": ("sequence_flow_type", dict(ID, **NAME, **REFS,
                                                is_immediate=("is_immediate", "set_is_immediate", "bool?", None),
                                                condition=("get_condition_expression", "set_condition_expression",
                                                           "ConditionExpression?", None))),
    "Activity": ("activities.activity_type", dict(FLOWNODE, **DEFAULT)),
    "Task": ("activities.task_type", dict(FLOWNODE, **DEFAULT)),
    "SubProcess": ("activities.subprocess_type", dict(FLOWNODE, **DEFAULT, **LANESETS,
                                                      triggered=("triggered_by_event", "set_triggered_by_event", "bool", False))),
    "Event": ("events.event_type", FLOWNODE),
    "CatchEvent": ("events.catch_event_type", dict(FLOWNODE, **PARALLEL, **EVDEFS)),
    "ThrowEvent": ("events.throw_event_type", dict(FLOWNODE, **EVDEFS)),
    "StartEvent": ("events.start_event_type", dict(FLOWNODE, **PARALLEL, **EVDEFS)),
    "EndEvent": ("events.end_event_type", dict(FLOWNODE, **EVDEFS)),
    "IntermediateCatchEvent": ("events.intermediate_catch_event_type", dict(FLOWNODE, **PARALLEL, **EVDEFS)),
    "IntermediateThrowEvent": ("events.intermediate_throw_event_type", dict(FLOWNODE, **EVDEFS)),
    "Gateway": ("gateways.gateway_type", dict(FLOWNODE, **DIRECTION)),
    "ExclusiveGateway": ("gateways.exclusive_gateway_type", dict(FLOWNODE, **DIRECTION, **DEFAULT)),
    "InclusiveGateway": ("gateways.inclusive_gateway_type", dict(FLOWNODE, **DIRECTION, **DEFAULT)),
    "ParallelGateway": ("gateways.parallel_gateway_type", dict(FLOWNODE, **DIRECTION)),
    "RootElement": ("root_element.root_element_type", ID),
    "CallableElement": ("root_element.callable_element_type", dict(ID, **NAME)),
    "EventDefinition": ("root_element.event_definition_type", ID),
    "Process": ("root_element.process_type", dict(
        ID, **NAME, **LANESETS, process_type=("get_process_type", "set_process_type", ("None", "Public", "Private"), "None"),
        is_closed=("is_closed", "set_is_closed", "bool", False),
        is_executable=("is_executable", "set_is_executable", "bool", False))),
}
SUB = {"FlowElement": {"FlowElement", "FlowNode", "SequenceFlow", "Activity", "Task", "SubProcess", "Event", "CatchEvent",
                       "ThrowEvent", "StartEvent", "EndEvent", "IntermediateCatchEvent", "IntermediateThrowEvent", "Gateway",
                       "ExclusiveGateway", "InclusiveGateway", "ParallelGateway"},
       "LaneSet": {"LaneSet"}, "Lane": {"Lane"}, "EventDefinition": {"EventDefinition"},
       "ConditionExpression": {"ConditionExpression"}}
FLOWS = ("MessageFlow", "SequenceFlow")


class Str(str):
    pass


class Lst(list):
    pass


class StrLike:
    """Behaves like a string in many ways, but is none."""

    def __str__(self):
        return "Mixed"

    def __eq__(self, o):
        return o == "Mixed"

    def __hash__(self):
        return hash("Mixed")


def cls(name):
    return getattr(importlib.import_module(P + CLASSES[name][0]), name)


class Obj:
    def __init__(self, name, obj, shadow):
        self.name, self.obj, self.shadow = name, obj, shadow


def create(ctx, rng, name):
    shadow = {a: list(d) if isinstance(d, list) else d for a, (_, _, _, d) in CLASSES[name][1].items()}
    c = cls(name)
    if name in FLOWS:
        s, t = text.name(rng), text.name(rng)
        shadow["source_ref"], shadow["target_ref"] = s, t
        o = ctx.run(name, c, s, t) if rng.random() < 0.5 else ctx.run(name, c, target_ref=t, source_ref=s)
    else:
        o = ctx.run(name, c)
    return Obj(name, o, shadow)


def junk(rng, pool):
    return rng.choice([0, 1, -1, 1.5, float("nan"), b"bytes", (), ("a",), {}, {"a": 1}, set(), object(), StrLike(), str, list, bool,
                       type, Ellipsis, bytearray(b"x"), range(3), 2 ** 70, "a".join, iter(["a"]), frozenset(), complex(1)])


def good(rng, typ, pool):
    """A value of the type, or Skip."""
    s = text.name(rng) if rng.random() < 0.8 else Str(text.name(rng))
    if typ == "str":
        return s
    if typ == "str?":
        return None if rng.random() < 0.3 else s
    if typ == "bool":
        return rng.random() < 0.5
    if typ == "bool?":
        return rng.choice([None, True, False])
    if typ == "strlist":
        v = [text.name(rng) for _ in range(rng.choice([0, 1, 2, 5, 5, 40]))]
        return Lst(v) if rng.random() < 0.1 else v
    if isinstance(typ, tuple):
        v = rng.choice(typ)
        return Str(v) if rng.random() < 0.1 else v
    if isinstance(typ, list):
        c = [o.obj for o in pool if o.name in SUB[typ[0]]]
        return [rng.choice(c) for _ in range(rng.choice([0, 1, 1, 3]))] if c else []
    c = [o.obj for o in pool if o.name in SUB[typ[:-1]]]
    return rng.choice(c) if c and rng.random() < 0.8 else None


def bad(rng, typ, pool):
    """(value, expected error type)"""
    s = text.name(rng)
    if typ == "str":
        return rng.choice([None, True, [s], (s,), s.encode(), junk(rng, pool)]), TypeError
    if typ == "str?":
        return rng.choice([True, False, [s], (s,), s.encode(), junk(rng, pool)]), TypeError
    if typ == "bool":
        return rng.choice([None, "true", "false", "", 0, 1, "True", [True], junk(rng, pool)]), TypeError
    if typ == "bool?":
        return rng.choice(["true", "false", "", 0, 1, [], junk(rng, pool)]), TypeError
    if typ == "strlist":
        l = [text.name(rng) for _ in range(rng.choice([0, 1, 3, 3, 40]))]
        l.insert(rng.choice([rng.randint(0, len(l)), len(l)]), rng.choice([None, 1, True, b"x", ["a"], ("a",), junk(rng, pool)]))
        return rng.choice([None, s, (s,), {s}, {s: s}, iter([s]), l, l, l, junk(rng, pool)]), TypeError
    if isinstance(typ, tuple):
        if rng.random() < 0.5:
            v = rng.choice([x for x in (typ[0].lower(), typ[1].upper(), typ[0] + " ", " " + typ[1], "", typ[0][:3], s,
                                        typ[0] + typ[1], "none", "unspecified", ",".join(typ)) if x not in typ])
            return v, ValueError
        return rng.choice([None, True, 0, [typ[0]], (typ[0],), list(typ), junk(rng, pool)]), TypeError
    name = typ[0] if isinstance(typ, list) else typ[:-1]
    wrong = [o.obj for o in pool if o.name not in SUB[name]]
    right = [o.obj for o in pool if o.name in SUB[name]]
    w = rng.choice(wrong + [None, s, 1, cls(name)]) if isinstance(typ, list) else rng.choice(wrong + [s, 1, cls(name), [], True])
    if isinstance(typ, list):
        l = [rng.choice(right) for _ in range(rng.choice([0, 1, 2, 2, 40]))] if right else []
        l.insert(rng.choice([rng.randint(0, len(l)), len(l)]), w)
        extra = [tuple(right)] + [r for r in right[:1]]
        return rng.choice([None, l, l, l, s, {}, junk(rng, pool)] + extra), TypeError
    return rng.choice([w, w, junk(rng, pool), [r for r in right[:1]]]), TypeError


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bool)) or a is None:
        return type(b) in (type(a), type(a).__mro__[1]) and a == b if not isinstance(a, bool) else a is b
    return a is b


def observe(ctx, pool):
    for k, o in enumerate(pool):
        for a, (g, _, _, _) in CLASSES[o.name][1].items():
            ctx.count("observed_attributes")
            v = ctx.run("%s.%s" % (o.name, g), getattr(o.obj, g))
            ctx.check(same(o.shadow[a], v), "%s.%s of object %d is %s, expected %s", o.name, a, k, core.short(v),
                      core.short(o.shadow[a]))


def assign(ctx, rng, o, a, pool, ok):
    g, st, typ, _ = CLASSES[o.name][1][a]
    f = getattr(o.obj, st)
    if ok:
        v = good(rng, typ, pool)
        ctx.run("%s.%s" % (o.name, st), f, v)
        o.shadow[a] = list(v) if isinstance(v, list) else v
        ctx.count("accepted")
        if isinstance(v, list) and rng.random() < 0.2:
            # the getter returns a list the user can extend and set again
            w = list(getattr(o.obj, g)())
            w += w[:1]
            ctx.run("%s.%s" % (o.name, st), f, w)
            o.shadow[a] = list(w)
        elif isinstance(v, list) and rng.random() < 0.2:
            # the list of one object is changed in place: no other object, present or future, may see that
            w = getattr(o.obj, g)()
            old = list(w)
            x = good(rng, typ, pool) or [text.name(rng)] if typ == "strlist" else good(rng, typ, pool)
            w.extend(x)
            now = list(getattr(o.obj, g)())
            ctx.check(same(old, now) or same(old + list(x), now), "%s.%s after extending the returned list", o.name, a)
            o.shadow[a] = now
            ctx.count("lists_changed_in_place")
    else:
        v, err = bad(rng, typ, pool)
        ctx.rejected("%s.%s(%s)" % (o.name, st, core.short(v, 60)), f, v, types=err)
        ctx.count("rejected")
    return (o.name, a, ok)


def initial(ctx, rng, o, a, pool):
    """The initial list of an object, changed in place before anything was assigned: no other object may see that."""
    g, _, typ, _ = CLASSES[o.name][1][a]
    if typ == "strlist":
        x = "changed in place"
    else:
        if not [q for q in pool if q.name in SUB[typ[0]]]:
            pool.append(create(ctx, rng, typ[0]))
        x = rng.choice([q for q in pool if q.name in SUB[typ[0]]]).obj
    getattr(o.obj, g)().append(x)
    now = list(getattr(o.obj, g)())
    ctx.check(same([], now) or same([x], now), "%s.%s after extending the initial list: %s", o.name, a, core.short(now))
    o.shadow[a] = now
    ctx.count("lists_changed_in_place")
    observe(ctx, pool)


def constructors(ctx, rng):
    for name in FLOWS:
        c = cls(name)
        b, _ = bad(rng, "str", [])
        s = text.name(rng)
        for args in ((b, s), (s, b), (b, b)):
            ctx.rejected("%s%s" % (name, core.short(args, 60)), c, *args, types=TypeError)
            ctx.count("constructor_rejections")


def case(ctx, i, rng):
    pool = [create(ctx, rng, n) for n in rng.choices(list(CLASSES), k=rng.choice([3, 6, 9]))]
    observe(ctx, pool)
    for o in pool:
        if rng.random() < 0.1:
            lists = [a for a, v in sorted(CLASSES[o.name][1].items()) if v[2] == "strlist" or isinstance(v[2], list)]
            if lists:
                initial(ctx, rng, o, rng.choice(lists), pool)
    log = []
    for _ in range(rng.choice([5, 12, 25])):
        r = rng.random()
        if r < 0.12:
            pool.append(create(ctx, rng, rng.choice(list(CLASSES))))
            log.append(("new", pool[-1].name))
        elif r < 0.17:
            constructors(ctx, rng)
        else:
            o = rng.choice(pool)
            log.append(assign(ctx, rng, o, rng.choice(list(CLASSES[o.name][1])), pool, rng.random() < 0.5))
        observe(ctx, pool)
    ctx.seen(tuple(log))
    ctx.sample({"history": log[:10]})


def FIXED():
    return list(CLASSES)


def fixed_case(ctx, name, rng):
    """Every attribute of one class: every kind of value several times; two objects side by side."""
    pool = [create(ctx, rng, n) for n in CLASSES]
    a1, a2 = create(ctx, rng, name), create(ctx, rng, name)
    pool += [a1, a2]
    observe(ctx, pool)
    for a, v in CLASSES[name][1].items():
        if v[2] == "strlist" or isinstance(v[2], list):
            initial(ctx, rng, a1, a, pool)
            observe(ctx, [create(ctx, rng, name)])
    for a in CLASSES[name][1]:
        for ok in [True, False] * 14:
            assign(ctx, rng, a1, a, pool, ok)
            observe(ctx, [a1, a2])
    # a fresh object after all this still starts with the defaults
    observe(ctx, [create(ctx, rng, name)])
    constructors(ctx, rng)
    ctx.seen(("every attribute", name))
