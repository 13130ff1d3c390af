from ..absint import K, NONE, R, S, State, Tup
from ..model import attr, depends, interp, run, short, var
from .common import over, nonempty
from .nodes import NODE, exact_list, fields, node_classes

PROPERTY = {
    "id": "P02",
    "title": "Copies of nodes are complete, independent and attached to the copy",
    "statement": "`deepcopy` of any node returns a new node of the same class whose parent is the given one, with the same arguments and position and the same value of every other field. Every node it contains (content, labels, entries, footnotes, items, block, marker) is copied recursively, in the same order and under the same keys, as a child of the copy, and no container is shared with the original; references to headers and footnotes still point to the same node.",
    "quantifier": {"over": ["inputs"], "text": "every class of node, whatever its fields contain"},
    "why_tests_cant": "The copying functions are excluded from the coverage of the test suite; a field that is forgotten only shows in documents that copy that type of node with that field set (for instance a labelled image in a header listed by a ToC).",
    "anchors": {
        "files": ["mau/nodes"],
        "state": [{"name": "Node", "meaning": "element of the document tree", "where": "mau/nodes/node.py"}],
        "mechanism": [{"name": "deepcopy of each class", "where": "mau/nodes"}],
        "observe_at": ["content of ToC entries, footnotes and header links"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of deepcopy for every class, compared field by field with the fields its constructor sets"
LEVEL_NOTE = "The list of fields, and which of them hold nodes, is taken from the constructors and their annotations."
EXPLANATION = "For each subclass of Node the constructor is evaluated to find the fields, then deepcopy is evaluated on an arbitrary instance; nested copies are opaque and remember what was copied and the parent they received."
ASSUMPTIONS = []


def copied(ip, st, fi, args, kwargs, node):
    env = ip.bind(st, fi.node.args, args, kwargs, fi.qual, None, fi.module)
    names = [a.arg for a in fi.node.args.args]
    me = env[names[0]]
    t = ip.snap(st, me)
    if t == NODE:
        return NotImplemented
    par = env.get(names[1], NONE) if len(names) > 1 else NONE
    ci = st.heap[me.oid].cls if isinstance(me, R) else ip.p.cls("Node")
    r = ip.mk(st, S("copied", (t, ip.uid())), ("cls", ci))
    if isinstance(r, R):
        st.heap[r.oid] = st.heap[r.oid].with_attr("parent", par)
    return [(st, r)]


def check(ctx):
    n = 0
    for ci in node_classes(ctx.prog):
        fs = fields(ctx, ci)
        fi = ctx.prog.find_method(ci, "deepcopy")
        ip = interp(ctx.prog, {"*.deepcopy": copied})
        outs = run(ip, fi, self_cls=ci.name, self_path="node", args={"parent": var("parent")})
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            name = ci.name
            if o.exc:
                ctx.check("no-error", name, False, f"{o.exc_name} escapes from deepcopy", o.exc_where, o.path_text)
                continue
            n += 1
            v = o.value
            ob = o.obj(v)
            if ob is None or ob.kind != "obj":
                ctx.check("new-node", name, False if o.snap(v) == NODE else None, "deepcopy does not return a new node", o.where(), o.path_text)
                continue
            ctx.check("new-node", name, ob.path is None, f"deepcopy returns {short(o.snap(v))}", o.where(), o.path_text)
            if ob.path is not None:
                continue
            ctx.check("same-class", name, ob.cls is ci or None if ob.cls is ci or not hasattr(ob.cls, "name") else False, f"the copy is a {getattr(ob.cls, 'name', ob.cls)}", o.where(), o.path_text)
            have = dict(ob.attrs)
            par = have.get("parent")
            ctx.check("parent", name, par is not None and o.snap(par) == var("parent"), f"the parent of the copy is {short(o.snap(par)) if par is not None else 'not set'}", o.where(), o.path_text)
            for b in ("arguments", "info"):
                basic(ctx, o, name, b, have.get(b))
            for f in fs:
                one(ctx, o, name, f, have.get(f.name), v)
    ctx.need("coverage", "copies", n > 20, "no copy analysed")


def basic(ctx, o, name, b, v):
    cons = f"{name}.{b}"
    if v is None:
        ctx.check("field-copied", cons, False, f"the copy has no {b}", o.where(), o.path_text)
        return
    want = attr(NODE, b)
    d = o.deep(v, 4)
    ctx.check("field-copied", cons, depends(d, want), f"{b} of the copy is {short(d)}", o.where(), o.path_text)
    ob = o.obj(v)
    if ob is not None and ob.kind == "obj" and ob.path is None and depends(d, want):
        # built by hand: every attribute comes from the same attribute
        for k, x in ob.attrs:
            t = o.deep(x, 3)
            ctx.check("field-copied", f"{cons}.{k}", depends(t, attr(want, k)) or (None if depends(t, want) else False), f"{b}.{k} of the copy is {short(t)}", o.where(), o.path_text)


def one(ctx, o, name, f, v, copy):
    cons = f"{name}.{f.name}"
    want = attr(NODE, f.name)
    if v is None:
        ctx.check("field-copied", cons, False, f"the copy has no field {f.name}", o.where(), o.path_text)
        return
    t = o.snap(v)
    none = o.st.facts.get(S("isnone", (want,)))
    empty = nonempty(o.st.facts, want) is False or none
    if f.kind == "value" or f.link:
        ok = t == want or (empty and isinstance(t, K)) or (t.op == "phi" and set(t.args[2:]) <= {want, NONE} if isinstance(t, S) else False)
        if not ok and isinstance(t, S) and t.op in ("copied", "deepcopy"):
            ctx.check("link-kept", cons, False, f"{f.name} of the copy is another copy, not the node linked by the document", o.where(), o.path_text)
            return
        if not ok:
            d = o.deep(v, 3)
            ok = None if depends(d, want) else False
        ctx.check("field-copied", cons, ok, f"{f.name} of the copy is {short(t)}", o.where(), o.path_text)
        return
    if f.kind == "list":
        if empty and o.parts(v) == ():
            return
        ctx.check("field-copied", cons, exact_list(o, v, want), f"{f.name} of the copy is {short(o.deep(v, 3))}", o.where(), o.path_text)
        return
    if f.kind == "node":
        if t == NONE and empty:
            return
        nested(ctx, o, cons, v, want, copy, f.name)
        return
    # containers of nodes
    if t == want:
        ctx.check("independent", cons, False, f"{f.name} is shared between the node and its copy", o.where(), o.path_text)
        return
    ps = o.parts(v)
    if ps is None:
        ctx.check("complete", cons, None if depends(o.deep(v, 3), want) else False, f"{f.name} of the copy is {short(t)}", o.where(), o.path_text)
        return
    if not ps and empty:
        return
    got = False
    for q in ps:
        if q[0] == "rest":
            ctx.check("independent", cons, False if q[1] == want else None, f"the nodes of {f.name} are shared between the node and its copy", o.where(), o.path_text)
            got = True
        elif q[0] == "each":
            got = True
            ov = over(q[1], want)
            if depends(q[1], lambda x: isinstance(x, S) and x.op == "reversed"):
                ctx.check("order", cons, None if depends(q[1], lambda x: x == K(-1)) else False, f"the nodes of {f.name} are copied in another order", o.where(), o.path_text)
            ctx.check("complete", cons, ov if depends(q[1], want) else False, f"only part of {f.name} is copied ({short(q[1])})", o.where(), o.path_text)
            for facts, sub in q[2]:
                items = [x for x in sub if x[0] in ("item", "kv")]
                ctx.check("complete", cons + ":each", len(items) == 1, f"a node of {f.name} may be skipped or repeated in the copy", o.where(), o.path_text)
                for x in items:
                    val = x[2] if x[0] == "kv" else x[1]
                    nested(ctx, o, cons, val, None, copy, f.name, want)
                    if x[0] == "kv":
                        k = o.snap(x[1])
                        good = isinstance(k, S) and k.op in ("key", "elem", "at", "item", "getitem") and depends(k, want)
                        ctx.check("keys", cons, good or (None if depends(k, want) else False), f"the nodes of {f.name} are stored under {short(k)}", o.where(), o.path_text)
        else:
            ctx.check("complete", cons, None, "unknown part")
            got = True
    ctx.check("complete", cons + ":nonempty", got, f"{f.name} of the copy is empty", o.where(), o.path_text)


def nested(ctx, o, cons, v, want, copy, fname, base=None):
    t = o.snap(v)
    if isinstance(t, S) and t.op in ("copied", "deepcopy"):
        src = t.args[0]
        ok = src == want if want is not None else depends(src, base)
        if want is None and ok and isinstance(src, S) and src.op == "at" and isinstance(src.args[1], K):
            ok = False
        ctx.check("recursive", cons, ok, f"{fname} of the copy is a copy of {short(src)}", o.where(), o.path_text)
        if t.op == "copied":
            p = o.get(v, "parent")
            ok = p == copy or o.snap(p) == o.snap(copy)
            ctx.check("attached", cons, ok, f"the parent of the nodes copied in {fname} is {short(o.snap(p))} and not the copy", o.where(), o.path_text)
        return
    base = base if base is not None else want
    shared = isinstance(t, S) and t.op in ("elem", "val", "attr", "item", "at") and depends(t, base)
    ctx.check("recursive", cons, False if shared or not depends(t, base) else None, f"{fname} of the copy contains {short(t)}, which is not a copy", o.where(), o.path_text)
