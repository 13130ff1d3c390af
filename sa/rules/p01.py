from ..absint import K, NONE, R, S, State, Tup
from ..loader import ClassInfo
from ..model import attr, depends, interp, run, short, var
from .common import over, nonempty
from .nodes import NODE, exact_list, fields, node_classes, type_of

PROPERTY = {
    "id": "P01",
    "title": "The data of a visited node exposes everything the node contains",
    "statement": "Visiting a node of any type with the base visitor gives a dictionary with its type (unique for each class of nodes), unnamed and named arguments, tags, internal tags, subtype, its full context (unless add_context is false), the same data of its parent (unless add_parent is false), and one key for each field of the node, named after the field (the name of a footnote macro and the group of a blockgroup item are left to the nodes they refer to). Values are exposed unchanged; fields that hold nodes are exposed as the result of visiting with the same options every one of those nodes, in the same order or under the same key, and the result of visiting None is an empty dictionary.",
    "quantifier": {"over": ["inputs", "configurations"], "text": "every class of node, whatever its fields contain, every combination of visitor options"},
    "why_tests_cant": "Tests compare a few nodes of each type, most of them without labels, parent or nested options; a template or a YAML consumer relies on every field being there for every node.",
    "anchors": {
        "files": ["mau/visitors/base_visitor.py", "mau/nodes"],
        "state": [{"name": "Node", "meaning": "element of the document tree", "where": "mau/nodes/node.py"}],
        "mechanism": [{"name": "accept and the visiting methods", "where": "mau/visitors/base_visitor.py"}],
        "observe_at": ["output of the YAML visitor", "variables available in templates"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of accept for every class of node, resolving the dispatch statically, compared field by field with the fields its constructor sets"
LEVEL_NOTE = "ConditionNode is internal to conditional elements and is never part of a document, so it is not included."
EXPLANATION = "For each subclass of Node the constructor is evaluated to find the fields, then accept is evaluated on an arbitrary instance with the base visitor; nested visits are opaque and remember the node and the options they received."
ASSUMPTIONS = ["an element of the document is visited only through accept"]

SKIP = ("ConditionNode",)
HIDDEN = {("MacroFootnoteNode", "name"), ("BlockGroupItemNode", "group")}
META = {"args": "unnamed_args", "kwargs": "named_args", "tags": "tags", "internal_tags": "internal_tags", "subtype": "subtype"}
OPTIONS = ("add_context", "add_parent")


def accepted(ip, st, fi, args, kwargs, node):
    me = ip.snap(st, args[0])
    if me == NODE:
        return NotImplemented
    kw, rest = (), ()
    if fi.node.args.kwarg is not None:
        env = ip.bind(st, fi.node.args, args, kwargs, fi.qual, None, fi.module)
        d = env.get(fi.node.args.kwarg.arg)
        ob = st.heap.get(d.oid) if isinstance(d, R) else None
        for q in ob.parts if ob is not None else (("rest", None),):
            if q[0] == "kv" and isinstance(q[1], K):
                kw += ((q[1].v, ip.snap(st, q[2])),)
            else:
                rest = ("rest",)
    return [(st, S("accepted", (me, kw, rest)))]


def visit_outs(ctx, ci, visitor="BaseVisitor"):
    fi = ctx.prog.method(ci.name, "accept")
    ip = interp(ctx.prog, {"*.accept": accepted})
    st = State()
    vis = ip.lazy_obj(st, visitor, "visitor")
    kw = {k: S("var", (k,), ("bool",)) for k in OPTIONS}
    outs = run(ip, fi, self_cls=ci.name, self_path="node", args={"visitor": vis}, state=st, kwargs=kw)
    ctx.saw(ip)
    ctx.paths += len(outs)
    return outs


def option(o, k):
    return o.st.facts.get(S("truth", (S("var", (k,), ("bool",)),)), o.st.facts.get(S("truth", (var(k),))))


def check(ctx):
    n = 0
    classes = node_classes(ctx.prog, SKIP)
    types = {}
    for ci in classes:
        ty = type_of(ctx.prog, ci)
        if ty in types:
            ctx.check("type-unique", f"{ci.name}", False, f"{ci.name} and {types[ty]} have the same type {ty!r}", (f"{ci.module.path}:{ci.node.lineno}", ci.name))
        else:
            ctx.check("type-unique", f"{ci.name}", True)
        types.setdefault(ty, ci.name)
        fs = fields(ctx, ci)
        seen = {}
        for o in visit_outs(ctx, ci):
            if o.exc:
                ctx.check("no-error", ci.name, False, f"{o.exc_name} escapes from the visit", o.exc_where, o.path_text)
                continue
            n += 1
            ps = o.parts(o.value)
            if ps is None or any(q[0] != "kv" or not isinstance(q[1], K) for q in ps):
                ctx.check("data", ci.name, None, "the data is not a dictionary with constant keys")
                continue
            data = {q[1].v: q[2] for q in ps}
            base(ctx, o, ci.name, data, NODE, ty, seen)
            for k in OPTIONS:
                key = {"add_context": "_context", "add_parent": "parent"}[k]
                v = option(o, k)
                if v is None:
                    continue
                ctx.check("option", f"{ci.name}:{k}", (key in data) == v, f"{key} is {'present' if key in data else 'missing'} when {k} is {v}", o.where(), o.path_text)
            if option(o, "add_parent") is not False:
                parent(ctx, o, ci.name, data)
            for f in fs:
                if (ci.name, f.name) in HIDDEN:
                    continue
                if f.name not in data:
                    ctx.check("field", f"{ci.name}.{f.name}", False, f"the data of a node of type {ty} does not contain {f.name}", o.where(), o.path_text)
                    continue
                one(ctx, o, ci.name, f, data[f.name])
    ctx.need("coverage", "visits", n > 30, "no visit analysed")
    none(ctx)


def base(ctx, o, name, data, node, ty, seen, where=""):
    cons = name + where
    t = o.snap(data["_type"]) if "_type" in data else None
    want = K(ty) if ty is not None else attr(node, "type")
    ctx.check("type", cons, t == want or t == attr(node, "type"), f"_type is {short(t)} for {name} ({ty})", o.where(), o.path_text)
    for k, a in META.items():
        v = data.get(k)
        want = attr(node, "arguments", a)
        if v is None:
            ctx.check("arguments", f"{cons}.{k}", False, f"the data does not contain {k}", o.where(), o.path_text)
            continue
        ok = exact_list(o, v, want) if k != "subtype" else (o.snap(v) == want or (None if depends(o.snap(v), want) else False))
        ctx.check("arguments", f"{cons}.{k}", ok, f"{k} is {short(o.deep(v, 3))}", o.where(), o.path_text)
    if "_context" in data and option(o, "add_context") is False:
        ctx.check("context", cons, False, "the context is given although add_context is false", o.where(), o.path_text)
    elif "_context" in data:
        ps = o.parts(data["_context"])
        c = attr(node, "info", "context")
        if ps is None or any(q[0] != "kv" for q in ps):
            ctx.check("context", cons, None if depends(o.deep(data["_context"], 4), c) else False, "unknown context")
        else:
            d = {q[1].v: o.snap(q[2]) for q in ps}
            for k in ("start_line", "start_column", "end_line", "end_column", "source"):
                ctx.check("context", f"{cons}.{k}", d.get(k) == attr(c, k), f"{k} of the context is {short(d.get(k))}", o.where(), o.path_text)
    elif option(o, "add_context") is None:
        ctx.check("context", cons, False, "the context is missing", o.where(), o.path_text)


def parent(ctx, o, name, data):
    p = attr(NODE, "parent")
    if "parent" not in data:
        ctx.check("parent", name, False, "the data of the parent is missing", o.where(), o.path_text)
        return
    v = data["parent"]
    ps = o.parts(v)
    if ps is None or any(q[0] != "kv" or not isinstance(q[1], K) for q in ps):
        t = o.deep(v, 3)
        ctx.check("parent", name, None if depends(t, p) else False, f"the data of the parent is {short(t)}", o.where(), o.path_text)
        return
    nn = o.st.facts.get(S("isnone", (p,)))
    if nn is None:
        tr = o.st.facts.get(S("truth", (p,)))
        nn = None if tr is None else not tr
    if not ps:
        ctx.check("parent", name, True if nn else (None if nn is None else False), "the data of the parent is empty", o.where(), o.path_text)
        return
    base(ctx, o, name, {q[1].v: q[2] for q in ps}, p, None, None, ".parent")


def visited(o, t):
    """(node visited, options) of the result of a visit."""
    if isinstance(t, S) and t.op == "accepted":
        return t
    if isinstance(t, S):
        for a in t.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                r = visited(o, x) if isinstance(x, (S, Tup)) else None
                if r is not None:
                    return r
    return None


def options(ctx, o, cons, a):
    have = dict(a.args[1])
    stars = a.args[2]
    for k in OPTIONS:
        v = have.get(k)
        ok = v is not None and depends(v, lambda x: isinstance(x, S) and x.op == "var" and x.args[0] == k)
        if not ok and v is None and stars:
            ok = None
        ctx.check("options-inherited", f"{cons}:{k}", ok, f"nested nodes are visited without the option {k}", o.where(), o.path_text)


def one(ctx, o, name, f, v):
    cons = f"{name}.{f.name}"
    want = attr(NODE, f.name)
    t = o.snap(v)
    d = o.deep(v, 4)
    if f.kind == "value":
        ctx.check("field", cons, t == want or (None if depends(d, want) else False), f"{f.name} is exposed as {short(d)}", o.where(), o.path_text)
        return
    if f.kind == "list":
        ctx.check("field", cons, exact_list(o, v, want), f"{f.name} is exposed as {short(d)}", o.where(), o.path_text)
        return
    if f.kind == "node":
        missing = o.st.facts.get(S("isnone", (want,)))
        if missing is None:
            tr = o.st.facts.get(S("truth", (want,)))
            missing = None if tr is None else not tr
        if o.parts(v) == () or t == NONE:
            ctx.check("field", cons, True if missing and t != NONE else (None if missing is None else False), f"{f.name} is exposed as {short(d)}", o.where(), o.path_text)
            return
        a = visited(o, d)
        ctx.check("field", cons, a.args[0] == want if a is not None else (None if depends(d, want) and t != want and not (isinstance(t, S) and t.op == "attr") else False), f"{f.name} is exposed as {short(d)} and not as the visit of the node", o.where(), o.path_text)
        if a is not None:
            options(ctx, o, cons, a)
        return
    ps = o.parts(v)
    if ps is None:
        ctx.check("field", cons, False if t == want or not depends(d, want) else None, f"{f.name} is exposed as {short(d)} and not as the visit of its nodes", o.where(), o.path_text)
        return
    if not ps:
        ctx.check("field", cons, nonempty(o.st.facts, want) is False, f"{f.name} is exposed as an empty container", o.where(), o.path_text)
        return
    for q in ps:
        if q[0] != "each":
            ctx.check("field", cons, False if q[0] == "rest" and q[1] == want else None, f"{f.name} is exposed without visiting its nodes", o.where(), o.path_text)
            continue
        ov = over(q[1], want)
        if depends(q[1], lambda x: isinstance(x, S) and x.op in ("reversed", "sorted")):
            ctx.check("order", cons, None if depends(q[1], lambda x: x == K(-1)) else False, f"the nodes of {f.name} are visited in another order", o.where(), o.path_text)
        ctx.check("every-node", cons, ov if depends(q[1], want) else False, f"the nodes visited for {f.name} are {short(q[1])}", o.where(), o.path_text)
        for facts, sub in q[2]:
            items = [x for x in sub if x[0] in ("item", "kv")]
            ctx.check("every-node", cons + ":each", len(items) == 1, f"some of the nodes of {f.name} may be missing or repeated", o.where(), o.path_text)
            for x in items:
                val = x[2] if x[0] == "kv" else x[1]
                dv = o.deep(val, 3)
                a = visited(o, dv)
                if a is None:
                    ctx.check("every-node", cons + ":visit", None if not isinstance(dv, S) or dv.op not in ("elem", "val", "dict", "list") else False, f"a node of {f.name} is exposed as {short(dv)}", o.where(), o.path_text)
                    continue
                own = depends(a.args[0], want) and not (isinstance(a.args[0], S) and a.args[0].op == "at" and isinstance(a.args[0].args[1], K))
                ctx.check("every-node", cons + ":visit", own, f"a node of {f.name} is exposed as the visit of {short(a.args[0])}", o.where(), o.path_text)
                options(ctx, o, cons, a)
                if x[0] == "kv":
                    k = o.snap(x[1])
                    good = isinstance(k, S) and k.op in ("key", "elem", "at", "item", "getitem") and depends(k, want)
                    ctx.check("keys", cons, good or (None if depends(k, want) else False), f"the nodes of {f.name} are exposed under {short(k)}", o.where(), o.path_text)


def none(ctx):
    for m in ("visit", "visit_data"):
        if ctx.prog.find_method(ctx.prog.cls("BaseVisitor"), m) is None:
            continue
        fi = ctx.prog.method("BaseVisitor", m)
        ip = interp(ctx.prog, {"*.accept": accepted})
        outs = run(ip, fi, self_cls="BaseVisitor", self_path="visitor", args={"node": NONE})
        ctx.saw(ip)
        for o in outs:
            ctx.check("none", m, not o.exc and o.parts(o.value) == (), f"the visit of None is {o.exc_name or short(o.deep(o.value, 3))}", o.where(), o.path_text)
