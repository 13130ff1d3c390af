from .. import summaries as su
from ..absint import Cl, Exc, K, NONE, R, S, State, Tup
from ..loader import ClassInfo
from ..model import Out, attr, call, depends, interp, run, short, subterms, var
from .common import message
from .nodes import node_classes, type_of

PROPERTY = {
    "id": "P21",
    "title": "A node is rendered with the most specific template that matches it",
    "statement": "A template name `TYPE[.SUBTYPE][.KEY__VALUE][.tg_TAG][.pt_TYPE][.pts_SUBTYPE][.pts_KEY__VALUE][.pf_PREFIX]` makes exactly the claims written in it, in any order, and the template matches a node exactly when the node has that type and satisfies all of them (subtype, custom fields, all the tags, type, subtype and custom fields of the parent, which must exist) while the prefix being searched is the claimed one, or no prefix when none is claimed; the custom fields of a node are its own style (style), name (macro, blockgroup), role (label), ctype (include) and position (block group item). Among the templates that match, those of the first configured prefix that has one win over those of the following prefixes and of no prefix, and then the most specific one, comparing the claims on custom fields, subtype, prefix, parent type, parent custom fields, parent subtype and tags in this order. A node without any matching template is an error located at the node.",
    "quantifier": {"over": ["inputs"], "text": "every set of templates, every list of prefixes, every node"},
    "why_tests_cant": "The templates are chosen by the user: tests try a few names on a few nodes, the claim is on every combination of claims, nodes, parents and prefixes.",
    "anchors": {
        "files": ["mau/visitors/jinja_visitor.py"],
        "state": [{"name": "templates", "meaning": "templates of each type, the most specific first", "where": "mau/visitors/jinja_visitor.py JinjaVisitor"}],
        "mechanism": [{"name": "claims and specificity", "where": "mau/visitors/jinja_visitor.py Template"}],
        "observe_at": ["Template.match", "Template.from_name", "JinjaVisitor._find_matching_template"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of template names, claims and selection: each outcome must follow from the claims (case splits on symbolic claims and nodes)"
LEVEL_NOTE = "Claims are analysed alone and all together, with up to two custom fields and tags with unknown values; the selection with up to three templates and two prefixes. Nodes, values and template names are unknown."
EXPLANATION = "For every outcome of the match the facts assumed on its path are read as truth values of the claims: a match needs all of them true, a refusal needs one false. The parts of a name are symbols whose prefix is decided by the facts of the path; specificity and selection are compared with the order of the claims and of the templates."
ASSUMPTIONS = ["list.sort is stable", "prefixes of name parts are tested with str methods"]


def check(ctx):
    names(ctx)
    matching(ctx)
    specificity(ctx)
    order(ctx)
    selection(ctx)
    custom_fields(ctx)


def template(ip, st, **claims):
    """A template with these claims, created by its constructor."""
    kw = {"type": var("T_type"), "content": var("T_content"), "name": var("T_name")}
    for k, v in claims.items():
        if isinstance(v, dict):
            v = ip.new_list(st, tuple(("kv", K(a), b) for a, b in v.items()), kind="dict")
        elif isinstance(v, list):
            v = ip.new_list(st, tuple(("item", x) for x in v))
        kw[k] = v
    outs = call(ip, st, Cl(ip.p.cls("Template")), kwargs=kw)
    outs = [o for o in outs if o.exc is None]
    return outs[0].st, outs[0].value


def text(n):
    return S("var", (n,), ("str",))


# --------------------------------------------------------------------- match
CLAIMS = {
    "subtype": ("subtype", lambda: text("c_subtype")),
    "prefix": ("prefix", lambda: text("c_prefix")),
    "parent_type": ("parent_type", lambda: text("c_ptype")),
    "parent_subtype": ("parent_subtype", lambda: text("c_psubtype")),
    "custom": ("custom", lambda: {"k1": text("c_k1"), "k2": text("c_k2")}),
    "parent_custom": ("parent_custom", lambda: {"k3": text("c_k3"), "k4": text("c_k4")}),
    "tags": ("tags", lambda: [text("c_t1"), text("c_t2")]),
}


def truths(o, value):
    """Facts of the outcome, with the truth of the value returned."""
    f = dict(o.st.facts)
    if isinstance(o.value, S):
        v = o.value
        pol = value
        while isinstance(v, S) and v.op == "not":
            v, pol = v.args[0], not pol
        f[v] = pol
    return f


def eqfact(f, claim, pred):
    """Truth of `claim == x` for an x accepted by pred."""
    res = None
    for k, v in f.items():
        if isinstance(k, S) and k.op in ("eq", "is") and claim in k.args:
            other = [x for x in k.args if x != claim]
            if len(other) == 1 and pred(other[0]):
                res = v
    return res


def whole_parent(f, parent):
    for k, v in f.items():
        if isinstance(k, S) and k.args and k.args[0] == parent:
            if k.op == "isnone":
                return not v
            if k.op == "truth":
                return v
    return None


def claim_truth(o, f, name, node):
    """True, False or None (not known) for a claim; custom and tags are
    split."""
    parent = attr(node, "parent")
    if name == "type":
        return [eqfact(f, var("T_type"), lambda x: x == attr(node, "type"))]
    if name == "prefix":
        return [eqfact(f, text("c_prefix"), lambda x: x == var("prefix"))]
    if name == "noprefix":
        for k, v in f.items():
            if isinstance(k, S) and k.op == "isnone" and k.args[0] == var("prefix"):
                return [v]
            if isinstance(k, S) and k.op in ("eq", "is") and var("prefix") in k.args and (NONE in k.args or None in k.args):
                return [v]
        return [None]
    if name == "subtype":
        return [eqfact(f, text("c_subtype"), lambda x: x == attr(attr(node, "arguments"), "subtype"))]
    if name in ("parent_type", "parent_subtype"):
        if whole_parent(f, parent) is False:
            return [False]
        if name == "parent_type":
            return [eqfact(f, text("c_ptype"), lambda x: x == attr(parent, "type"))]
        return [eqfact(f, text("c_psubtype"), lambda x: x == attr(attr(parent, "arguments"), "subtype"))]
    if name in ("custom", "parent_custom"):
        owner = node if name == "custom" else parent
        if name == "parent_custom" and whole_parent(f, parent) is False:
            return [False]
        fields = attr(owner, "custom_template_fields")
        res = []
        for k in ("k1", "k2") if name == "custom" else ("k3", "k4"):
            t = eqfact(f, text("c_" + k), lambda x: depends(x, fields) and depends(x, K(k)))
            for a, v in f.items():
                if isinstance(a, S) and a.op == "in" and a.args == (K(k), fields) and not v:
                    t = False
            res.append(t)
        return res
    if name == "tags":
        tags = attr(attr(node, "arguments"), "tags")
        res = {}
        for k, v in f.items():
            if not isinstance(k, S):
                continue
            if k.op == "subset" and depends(k.args[1], tags) and not depends(k.args[0], tags):
                claimed = [c for c in ("c_t1", "c_t2") if depends(k.args[0], text(c))]
                if v:
                    for c in claimed:
                        res[c] = True
                else:
                    res["some"] = False
                    if len(claimed) == 2:
                        return [False]
                    for c in claimed:
                        res[c] = False
            if k.op == "in" and depends(k.args[1], tags):
                for c in ("c_t1", "c_t2"):
                    if k.args[0] == text(c):
                        res[c] = v
        return [res.get("c_t1"), res.get("c_t2")]
    raise AssertionError(name)


def matching(ctx):
    prog = ctx.prog
    fi = prog.method("Template", "match")
    sets = [()] + [(c,) for c in CLAIMS] + [tuple(CLAIMS)]
    for claims in sets:
        ip = interp(prog, raise_mode=True)
        st = State()
        st, t = template(ip, st, **{CLAIMS[c][0]: CLAIMS[c][1]() for c in claims})
        for c in claims:
            for v in (CLAIMS[c][1](),):
                if isinstance(v, S):
                    # a claim is a text that is not empty
                    st.facts[S("truth", (v,))] = True
                    st.facts[S("isnone", (v,))] = False
        st.facts[S("truth", (var("T_type"),))] = True
        outs = run(ip, fi, self_val=t, state=st)
        ctx.saw(ip)
        ctx.paths += len(outs)
        label = "all" if len(claims) > 1 else claims[0] if claims else "none"
        node = var("node")
        yes = no = 0
        for exc, desc, f, nd, where, stack, facts in ip.partials:
            if exc == "AttributeError" and "parent" in desc:
                ctx.check("match", f"{label}:no parent", False, "the match fails on a node without parent", where)
        needed = ["type", *claims] + ([] if "prefix" in claims else ["noprefix"])
        for o in outs:
            where = o.exc_where if o.exc else o.where()
            if o.exc:
                ctx.check("match", f"{label}:error", False, f"{o.exc_name} is raised by the match", where, o.path_text)
                continue
            for value in (True, False):
                if isinstance(o.value, K) and bool(o.value.v) != value:
                    continue
                if not isinstance(o.value, (K, S)):
                    ctx.check("match", label, None, "", where)
                    continue
                f = truths(o, value)
                for c in needed:
                    ts = claim_truth(o, f, c, node)
                    if value:
                        yes += 1
                        ok = True if all(x is True for x in ts) else False
                        ctx.check("match", f"{label}:{c}", ok, "a template matches a node although this claim " + ("is false" if False in ts else "is not verified"), where, o.path_text)
                if not value:
                    no += 1
                    ok = any(False in claim_truth(o, f, c, node) for c in needed)
                    ctx.check("match", f"{label}:refused", ok, "a template that satisfies all its claims does not match", where, o.path_text)
        ctx.check("match", f"{label}:possible", yes > 0 and no > 0, "the match has always the same result", None)


# --------------------------------------------------------------- specificity
LEVELS = ["custom", "subtype", "prefix", "parent_type", "parent_custom", "parent_subtype", "tags"]


def specificity(ctx):
    """What the templates are sorted by grows with each claim and follows the
    order of the claims."""
    prog = ctx.prog

    def value(claims):
        ip = interp(prog)
        st = State()
        st, t = template(ip, st, **{CLAIMS[c][0]: CLAIMS[c][1]() for c in claims})
        for c in claims:
            v = CLAIMS[c][1]()
            if isinstance(v, S):
                st.facts[S("truth", (v,))] = True
                st.facts[S("isnone", (v,))] = False
        fi = prog.find_method(prog.cls("Template"), "specificity")
        ctx.need("anchor", "Template.specificity", fi is not None, "not found")
        outs = [o for o in run(ip, fi, self_val=t, state=st) if o.exc is None]
        ctx.saw(ip)
        res = set()
        for o in outs:
            v = o.value
            items = v.items if isinstance(v, Tup) else None
            if items is None or not all(isinstance(x, K) and isinstance(x.v, (int, bool)) for x in items):
                return None, o
            res.add(tuple(int(x.v) for x in items))
        return (res.pop() if len(res) == 1 else None), outs[0] if outs else None

    vals = {}
    for c in [()] + [(c,) for c in LEVELS]:
        vals[c], o = value(c)
    base = vals[()]
    for c in LEVELS:
        v = vals[(c,)]
        ctx.check("specificity", c, None if v is None or base is None else v > base, f"a template with a claim on {c} is not more specific than one without", None)
    for a, b in zip(LEVELS, LEVELS[1:]):
        va, vb = vals[(a,)], vals[(b,)]
        ctx.check("specificity", f"{a}>{b}", None if va is None or vb is None else va > vb, f"a claim on {b} wins over one on {a}", None)
        rest, o = value(tuple(LEVELS[LEVELS.index(b):]))
        ctx.check("specificity", f"{a}>all that follow", None if va is None or rest is None else va > rest, f"many claims that follow win over one on {a}", None)


# --------------------------------------------------------------------- names
PREFIXES = {"pt_": "parent_type", "pts_": "parent_subtype", "pf_": "prefix", "tg_": "tags", "": "subtype"}


def starts(f, p, pre):
    """Does the part p start with pre? (from the facts of the path)"""
    for k, v in f.items():
        if not isinstance(k, S):
            continue
        if k.op == "eq" and S("removeprefix", (p, K(pre))) in [S(x.op, x.args) if isinstance(x, S) else x for x in k.args] and p in k.args:
            return not v
        if k.op == "startswith" and k.args[:2] == (p, K(pre)):
            return v
    return None


def stripped(v, p, pre, f=None):
    if pre == "":
        if isinstance(v, S) and v.op == "removeprefix" and v.args[0] == p and f is not None:
            # nothing to remove on this path
            return starts(f, p, v.args[1].v) is False
        return v == p
    if isinstance(v, S) and v.args and v.args[0] == p:
        if v.op == "removeprefix":
            return v.args[1] == K(pre)
        if v.op == "slice":
            return v.args[1] == K(len(pre)) and (len(v.args) < 3 or v.args[2] in (NONE, None))
    return False


def pairs(o, r):
    ps = o.parts(r)
    if ps is None:
        return None
    if any(q[0] != "kv" for q in ps):
        return None
    return [(o.snap(q[1]) if not isinstance(q[1], K) else q[1], o.snap(q[2])) for q in ps]


def halves(p, pre, kv, f):
    """Are these the two sides of `__` in the part?"""
    a, b = kv

    def side(t, n):
        for x in subterms(t):
            if isinstance(x, S) and x.op == "at" and x.args[1] in (K(n), n):
                s = x.args[0]
                if isinstance(s, S) and s.op in ("split", "partition", "rsplit") and K("__") in s.args and stripped(s.args[0], p, pre, f):
                    return True
            if isinstance(x, S) and x.op == "unpack" and x.args[-1] in (n, K(n)):
                s = x.args[0]
                if isinstance(s, S) and s.op in ("split",) and K("__") in s.args and stripped(s.args[0], p, pre, f):
                    return True
        return False
    return side(a, 0) and side(b, 1 if not (isinstance(b, S) and b.args and isinstance(b.args[0], S) and b.args[0].op == "partition") else 2)


def names(ctx):
    prog = ctx.prog
    fi = prog.method("Template", "from_name")
    seen = set()
    for n in (1, 2, 3):
        def split(ip, st, fi_, args, kwargs, node):
            return None
        ip = interp(prog)
        st = State()
        name = text("name")
        ps = [text("p0"), *(text(f"p{i}") for i in range(1, n))]
        st.memo[S("split", (name, K(".")))] = ip.new_list(st, tuple(("item", x) for x in ps)).oid
        outs = run(ip, fi, self_val=Cl(prog.cls("Template")), args={"name": name, "content": text("content")}, state=st)
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            where = o.exc_where if o.exc else o.where()
            f = o.st.facts
            if o.exc:
                empty = f.get(S("truth", (ps[0],))) is False or any(v and isinstance(k, S) and k.op == "eq" and set(k.args) == {ps[0], K("")} for k, v in f.items())
                ctx.check("name", "refused", empty, f"{o.exc_name} for a template whose type is given", where, o.path_text)
                continue
            t = o.value
            ctx.check("name", "type", o.snap(o.get(t, "type")) == ps[0], f"the type claimed is {short(o.snap(o.get(t, 'type')))}", where, o.path_text)
            ctx.check("name", "content", o.snap(o.get(t, "content")) == text("content"), "the template has another content", where, o.path_text)
            ctx.check("name", "name", o.snap(o.get(t, "name")) == name, "the template has another name", where, o.path_text)
            # the claims found in the final state
            found = {}
            for fld in ("subtype", "prefix", "parent_type", "parent_subtype"):
                v = o.get(t, fld)
                found[fld] = [] if v in (None, NONE) else [o.snap(v)]
            tags = o.parts(o.get(t, "tags"))
            found["tags"] = None if tags is None or any(q[0] != "item" for q in tags) else [o.snap(q[1]) for q in tags]
            found["custom"] = pairs(o, o.get(t, "custom"))
            found["parent_custom"] = pairs(o, o.get(t, "parent_custom"))
            if any(v is None for v in found.values()):
                ctx.check("name", "claims", None, "", where, o.path_text)
                continue
            used = {k: 0 for k in found}
            kinds = []
            for p in ps[1:]:
                yes = [pre for pre in PREFIXES if pre and starts(f, p, pre)]
                if len(yes) > 1:
                    kinds = None  # a part can't start with two of them
                    break
                pre = yes[0] if yes else ""
                mine = [(fld, v) for fld, vs in found.items() for v in vs if depends(v if not isinstance(v, tuple) else S("pair", v), p)]
                kinds.append((p, pre, mine))
            if kinds is None:
                continue
            last = {}
            for p, pre, mine in kinds:
                fld = PREFIXES[pre]
                if pre in ("pts_", ""):
                    # a field or a subtype, according to the separator
                    cust = "parent_custom" if pre else "custom"
                    if mine and mine[0][0] == cust:
                        seen.add(cust)
                        ok = len(mine) == 1 and halves(p, pre, mine[0][1], f)
                        if not ok and len(mine) == 1:
                            ok = False if halves(p, pre, mine[0][1][::-1], f) else None
                        ctx.check("name", cust, ok, f"the part {p.args[0]} claims {short(mine)}", where, o.path_text)
                        continue
                last[fld] = (p, pre, mine) if fld != "tags" else None
                if fld == "tags":
                    ok = len(mine) == 1 and mine[0][0] == fld and stripped(mine[0][1], p, pre, f)
                    seen.add(fld)
                    ctx.check("name", fld, ok, f"a part starting with {pre!r} claims {short(mine)}", where, o.path_text)
            for fld, x in last.items():
                if x is None:
                    continue
                p, pre, mine = x
                seen.add(fld)
                ok = len(mine) == 1 and mine[0][0] == fld and stripped(mine[0][1], p, pre, f)
                ctx.check("name", fld, ok, f"a part " + (f"starting with {pre!r}" if pre else "without prefix") + f" claims {short(mine)}", where, o.path_text)
            if n == 1:
                ctx.check("name", "nothing else", not any(found.values()), f"claims that are not in the name: {short(found)}", where, o.path_text)
    long_name(ctx, fi)
    for fld in LEVELS:
        ctx.check("name", "recognised:" + fld, True if fld in seen else None, "", None)


def long_name(ctx, fi):
    """A name with all the claims."""
    name = "macro.pf_h.tg_a.k__v.pts_s.sub.pt_p.tg_b.pts_x__y.m__n.tg_c"
    want = {"type": "macro", "prefix": "h", "tags": ["a", "b", "c"], "custom": {"k": "v", "m": "n"}, "parent_subtype": "s", "subtype": "sub", "parent_type": "p", "parent_custom": {"x": "y"}}
    ip = interp(ctx.prog)
    outs = run(ip, fi, self_val=Cl(ctx.prog.cls("Template")), args={"name": K(name), "content": text("content")})
    ctx.saw(ip)
    for o in outs:
        if o.exc:
            ctx.check("name", "all claims", False, f"{o.exc_name} for a correct name", o.exc_where)
            continue
        for fld, w in want.items():
            v = o.get(o.value, fld)
            if isinstance(w, str):
                t = o.snap(v)
                ok = t == K(w) if isinstance(t, K) else None
            elif isinstance(w, list):
                ps = o.parts(v)
                ok = None if ps is None or any(q[0] != "item" or not isinstance(q[1], K) for q in ps) else [q[1].v for q in ps] == w
            else:
                ps = pairs(o, v)
                ok = None if ps is None or not all(isinstance(a, K) and isinstance(b, K) for a, b in ps) else {a.v: b.v for a, b in ps} == w
            ctx.check("name", f"all claims:{fld}", ok, f"the claim of {name} on {fld} is {short(o.deep(v, 2)) if v is not None else None}", o.where())


# --------------------------------------------------------------------- order
def environment(ip, st, tag, variables):
    """An environment with these variables, whose values are symbols."""
    r = ip.lazy_obj(st, "Environment", tag)
    d = ip.new_list(st, tuple(("kv", K(k), v if not isinstance(v, str) else text(v)) for k, v in variables.items()), kind="dict")
    st.heap[r.oid] = st.heap[r.oid].with_attr("_variables", d)
    return r


def build(ctx, sources, prefixes=()):
    """Outcomes of the constructor of the visitor with templates from these
    sources (default, providers, filesystem, custom)."""
    prog = ctx.prog
    box = {}

    def give(k):
        return lambda ip, st, fi, args, kwargs, node: [(st, box[k])]

    def get(ip, st, fi, args, kwargs, node):
        key = args[1] if len(args) > 1 else kwargs.get("key")
        if key == K("mau.visitor.templates.custom"):
            return [(st, box["custom"])]
        if key == K("mau.visitor.templates.prefixes"):
            return [(st, box["prefixes"])]
        return su.ENV["Environment.get"](ip, st, fi, args, kwargs, node)

    extra = {
        prog.func("load_templates_from_providers").full: give("providers"),
        prog.func("load_templates_from_filesystem").full: give("filesystem"),
        prog.method("Environment", "get").full: get,
    }
    ip = interp(prog, extra)
    st = State()
    for k in ("default", "providers", "filesystem", "custom"):
        box[k] = environment(ip, st, k, sources.get(k, {}))
    box["prefixes"] = ip.new_list(st, tuple(("item", text(p)) for p in prefixes))
    vis = ip.lazy_obj(st, "JinjaVisitor", "visitor")
    st.heap[vis.oid] = st.heap[vis.oid].with_attr("default_templates", box["default"])
    outs = run(ip, prog.method("JinjaVisitor", "__init__"), self_val=vis, state=st)
    ctx.saw(ip)
    ctx.paths += len(outs)
    return vis, box, outs


def table(o, vis):
    """{type: [(name, content), ...]} of the visitor, None when unknown."""
    ps = o.parts(o.get(vis, "templates"))
    if ps is None or any(q[0] != "kv" or not isinstance(q[1], K) for q in ps):
        return None
    res = {}
    for q in ps:
        l = o.parts(q[2])
        if l is None or any(x[0] != "item" for x in l):
            return None
        res[q[1].v] = [(o.snap(o.get(x[1], "name")), o.snap(o.get(x[1], "content"))) for x in l]
    return res


def order(ctx):
    """The visitor keeps the templates of each type in order of
    specificity."""
    want = ["block.k__v", "block.sub", "block.pf_p", "block.pt_p", "block.pts_k__v", "block.pts_s", "block.tg_a.tg_b", "block.tg_a", "block"]
    srcs = {"default": {}, "custom": {}}
    for i, n in enumerate(reversed(want)):
        srcs["default" if i % 2 else "custom"][n + ".j2"] = f"c{i}"
    srcs["default"]["style.j2"] = "s0"
    vis, box, outs = build(ctx, srcs)
    n = 0
    for o in outs:
        where = o.exc_where if o.exc else o.where()
        if o.exc:
            ctx.check("order", "error", None, "", where)
            continue
        t = table(o, vis)
        if t is None:
            ctx.check("order", "templates", None, "", where)
            continue
        n += 1
        got = [x[0].v if isinstance(x[0], K) else None for x in t.get("block", ())]
        if None in got or set(t) != {"block", "style"}:
            ctx.check("order", "types", None if None in got else False, f"templates are kept under the types {sorted(t)}", where)
            continue
        ctx.check("order", "all", sorted(got) == sorted(want), f"the templates kept are {got}", where)
        ctx.check("order", "specificity", got == want or sorted(got) != sorted(want), f"the templates are in the order {got}", where)
    ctx.check("order", "found", True if n else None, "")


# ----------------------------------------------------------------- selection
def fake_match(ip, st, fi, args, kwargs, node):
    me = args[0]
    rest = list(args[1:])
    n = rest[0] if rest else kwargs.get("node")
    p = rest[1] if len(rest) > 1 else kwargs.get("prefix", NONE)
    key = S("matches", (ip.snap(st, me), ip.snap(st, n), ip.snap(st, p)))
    if key in st.facts:
        return [(st, K(st.facts[key]))]
    outs = []
    for v in (True, False):
        s = st.fork()
        s.facts[key] = v
        ip.emit(s, "match", ip.snap(s, me), ip.snap(s, n), ip.snap(s, p), v, node=node)
        outs.append((s, K(v)))
    return outs


def visited(ip, st):
    ctxt = ip.new_list(st, tuple(("kv", K(k), S("var", ("data_" + k,), ("int",))) for k in ("start_line", "start_column", "end_line", "end_column", "source")), kind="dict")
    return ip.new_list(st, (("kv", K("_context"), ctxt),), kind="dict")


def selection(ctx):
    prog = ctx.prog
    fi = prog.method("JinjaVisitor", "_find_matching_template")
    m = prog.method("Template", "match")
    for nt in (0, 1, 2, 3):
        for np in (0, 1, 2):
            ip = interp(prog, {m.full: fake_match})
            st = State()
            vis = ip.lazy_obj(st, "JinjaVisitor", "visitor")
            ts = [ip.lazy_obj(st, "Template", f"t{i}") for i in range(nt)]
            pf = [text(f"pf{i}") for i in range(np)]
            node = ip.lazy_obj(st, "Node", "node", exact=False)
            mine = ip.new_list(st, tuple(("item", t) for t in ts))
            table = ip.new_list(st, (("kv", attr(var("node"), "type"), mine),), kind="dict")
            prefs = ip.new_list(st, tuple(("item", p) for p in pf))
            st.heap[vis.oid] = st.heap[vis.oid].with_attr("templates", table).with_attr("template_prefixes", prefs)
            outs = run(ip, fi, self_val=vis, state=st, args={"node": node, "data": visited(ip, st) if np else NONE})
            ctx.saw(ip)
            ctx.paths += len(outs)
            canon = [(f"t{i}", p) for p in [*pf, NONE] for i in range(nt)]
            for o in outs:
                where = o.exc_where if o.exc else o.where()
                f = {(k.args[0].args[0], k.args[2]): v for k, v in o.st.facts.items() if isinstance(k, S) and k.op == "matches" and k.args[1] == var("node")}
                if any(v and isinstance(k, S) and k.op == "eq" and all(x in pf for x in k.args) for k, v in o.st.facts.items()):
                    continue  # the same prefix twice
                if o.exc:
                    ctx.check("select", "no template", o.exc_name == "MauException", f"{o.exc_name} when no template is found", where, o.path_text)
                    ctx.check("select", "refused", all(f.get(c) is False for c in canon), "a node is refused although some templates were not tried or match", where, o.path_text)
                    if o.exc_name == "MauException":
                        msg = message(o)
                        c = o.get(msg, "context") if msg is not None else None
                        t = o.deep(c, 3) if c is not None else None
                        ctx.check("select", "position", None if t is None else False if t == NONE else True if depends(t, var("node")) or depends(t, var("data_start_line")) else None, "the error has no position", where, o.path_text)
                    continue
                win = next((c for c in canon if f.get(c) is not False), None)
                got = o.snap(o.value)
                ok = win is not None and f.get(win) is True and got == var(win[0])
                ctx.check("select", "winner", ok, f"{short(got)} is selected before {win[0] if win else 'none'} (prefix {short(win[1]) if win else ''})", where, o.path_text)


# ------------------------------------------------------------- custom fields
FIELDS = {
    "style": ("style",), "macro": ("name",), "label": ("role",),
    "include": ("ctype",), "blockgroup": ("name",), "blockgroup-item": ("position",),
}


def custom_fields(ctx):
    prog = ctx.prog
    n = 0
    for ci in node_classes(prog):
        fi = prog.find_method(ci, "custom_template_fields")
        if fi is None:
            continue
        ip = interp(prog)
        outs = run(ip, fi, self_cls=ci.name, self_path="node")
        ctx.saw(ip)
        ty = type_of(prog, ci)
        for o in outs:
            if o.exc:
                ctx.check("fields", ci.name, False, f"{o.exc_name}", o.exc_where)
                continue
            ps = pairs(o, o.value)
            if ps is None:
                ctx.check("fields", ci.name, None, "", o.where())
                continue
            n += 1
            d = {k.v: v for k, v in ps if isinstance(k, K)}
            for k, v in d.items():
                ctx.check("fields", f"{ci.name}:{k}", v == attr(var("node"), k) or (None if depends(v, attr(var("node"), k)) else False), f"the custom field {k} of {ty} is {short(v)}", o.where())
            for k in FIELDS.get(ty, ()):
                ctx.check("fields", f"{ci.name}:{k}", k in d, f"{ty} has no custom field {k}", o.where())
    ctx.need("coverage", "classes", n > 10, "no class analysed")
