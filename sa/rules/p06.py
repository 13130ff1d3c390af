from ..absint import K, LoopEv, NONE, R, S, flat
from ..chars import text
from ..model import attr, depends, short
from . import published, trees
from .common import SELF, own_value, alts, at_path, early_exit, elem_obj, func_outs, mentions, method_outs, objs, over
from .elements import Elements, PARSER
from .p05 import complete_copy, list_gets, merged_list, append_node, same, touches

PROPERTY = {
    "id": "P06",
    "title": "The table of contents contains every header, once, correctly nested",
    "statement": "Every header of the document (those of non-isolated blocks included) enters the table of contents with the level given by its equal signs; every header ends up with an internal id, the one set by the user or, only when there is none, the one computed by the configured function. Every ToC node receives all the headers, in order, as copies that carry level, ids, name, content and labels, and the same headers as a hierarchy in which a header is nested under the closest previous header of lower level. All entries belong to the ToC node they are shown in.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every document: any number of headers and ToC nodes, any sequence of levels",
    },
    "why_tests_cant": "Tests use a handful of header sequences; the claim is about every sequence of levels, any number of ToC nodes and all ways of setting ids.",
    "anchors": {
        "files": ["mau/parsers/managers/toc_manager.py", "mau/parsers/document_processors/header.py", "mau/parsers/document_processors/include.py", "mau/nodes/header.py"],
        "state": [{"name": "TocManager.headers / toc_nodes", "meaning": "headers and ToC nodes collected", "where": "mau/parsers/managers/toc_manager.py"}],
        "mechanism": [{"name": "TocManager.process, add_nodes_under_level", "where": "mau/parsers/managers/toc_manager.py"}],
        "observe_at": ["TocNode.plain_entries", "TocNode.nested_entries", "HeaderNode.internal_id"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: for-all-elements effects of the ToC manager; inductive step of the hierarchy builder (recursion arguments, guards, insertion point); interpretation of whole documents with configured id functions"
LEVEL_NOTE = "The hierarchy is decided on the recursive step (what is inserted where, what the recursion receives, when it returns), not by enumerating sequences; a non recursive builder is reported as undecided."
EXPLANATION = "TocManager.process is evaluated abstractly from an arbitrary state with arbitrary headers and ToC nodes; final values of every header and ToC node are compared with the required provenance. The recursive builder is decided on one generic iteration. All outcomes of the document processors that add a header or a ToC node must register it."
ASSUMPTIONS = ["header levels are at least one (guaranteed by the lexer: a header token has at least one equal sign)"]

HEADERS = attr(SELF, "headers")
TOCS = attr(SELF, "toc_nodes")
FUNC = attr(SELF, "header_internal_id_function")


def check(ctx):
    published.ids(ctx, "configured ids", published.HEADERS, "mau.parser.header_internal_id_function")
    process(ctx)
    hierarchy(ctx)
    registration(ctx)
    default_id(ctx)
    init(ctx)
    given_ids(ctx)


def process(ctx):
    p = "TocManager.process"
    outs = method_outs(ctx, "TocManager", "process")
    for o in outs:
        if o.exc:
            ctx.check("no-error", p, False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
            continue
        empty = o.st.facts.get(S("truth", (HEADERS,))) is False
        if not empty:
            for k, v in o.st.facts.items():
                if isinstance(k, S) and k.op == "eq" and depends(k, S("len", (HEADERS,))) and K(0) in k.args and v:
                    empty = True
        if empty:
            ctx.check("empty", p, True)
            continue
        for base, n in ((HEADERS, "headers"), (TOCS, "ToC nodes")):
            ctx.check("all-processed", f"{p}:{n}", not early_exit(o, base), f"processing stops before the last of the {n}", o.where(), o.path_text)
        ids(ctx, o, p)
        tocs(ctx, o, p)


def ids(ctx, o, p):
    e = S("elem", (HEADERS,))
    r, whole = elem_obj(o, HEADERS)
    if r is None or whole is False and at_path(o, e) is None:
        ctx.check("internal-id", p, None if touches(o, HEADERS) else False, "headers do not receive internal ids", o.where(), o.path_text)
        return
    init = attr(e, "internal_id")
    vals = alts(o.snap(o.get(r, "internal_id")))
    has_func = any(depends(a, FUNC) for a in vals)
    ctx.check("internal-id", p, has_func, f"headers without an id do not receive one from the configured function ({short(vals)})", o.where(), o.path_text)
    ctx.check("explicit-id", p, init in vals or any(depends(a, init) for a in vals), "the internal id set by the user is overwritten", o.where(), o.path_text)
    for a in vals:
        if a == init:
            continue
        ctx.check("internal-id-arg", p, depends(a, FUNC) and depends(a, e), f"the internal id of a header may become {short(a)}", o.where(), o.path_text)
    # the id is computed exactly when it is missing
    for ev in o.st.trace:
        if not isinstance(ev, LoopEv) or ev.partial or not over(ev.src, HEADERS):
            continue
        for facts, sub in ev.alts:
            f = dict(facts)
            missing = f.get(S("isnone", (init,)))
            if missing is None:
                t = f.get(S("truth", (init,)))
                missing = None if t is None else not t
            sets = [x for x, _ in flat(sub) if x.kind == "set" and x.data[0] == e and x.data[1] == "internal_id"]
            if not sets and missing is None:
                continue
            if missing is True:
                ctx.check("internal-id-when", p, bool(sets), "a header without internal id is skipped", o.where(), o.path_text)
            elif missing is False:
                ok = all(x.data[2] == init for x in sets)
                ctx.check("explicit-id", p, ok, "the internal id set by the user is overwritten", o.where(), o.path_text)
            else:
                ctx.check("explicit-id", p, None if any(depends(x.data[2], init) for x in sets) else False, "the internal id is computed without looking at the existing one", o.where(), o.path_text)


def tocs(ctx, o, p):
    e = S("elem", (TOCS,))
    r, whole = elem_obj(o, TOCS)
    if whole is False:
        ctx.check("plain-entries", p, False, "only some of the ToC nodes are populated", o.where(), o.path_text)
        return
    if r is None:
        ctx.check("plain-entries", p, None if touches(o, TOCS) else False, "ToC nodes are never populated", o.where(), o.path_text)
        return
    plain = o.get(r, "plain_entries")
    own_value(ctx, o, "plain-own", p, e, "plain_entries", "the plain entries of a ToC node")
    own_value(ctx, o, "nested-own", p, e, "nested_entries", "the hierarchy of a ToC node")
    for a in alts(o.snap(plain)):
        if a == attr(e, "plain_entries"):
            ctx.check("plain-entries", p, False, "a ToC node may be left without plain entries", o.where(), o.path_text)
    cands = [plain] if o.parts(plain) is not None else []
    if not cands:
        # joined value: look at the lists built in the loop
        cands = [R(oid) for oid, h in o.st.heap.items() if h.kind == "list" and h.path is None and any(q[0] == "each" and over(q[1], HEADERS) is not None and any(o.is_a(x[1], "HeaderNode") for _, sub in q[2] for x in sub if x[0] == "item") for q in h.parts)]
        if not cands:
            ctx.check("plain-entries", p, None if depends(o.snap(plain), HEADERS) else False, f"plain entries are {short(o.snap(plain))}", o.where(), o.path_text)
    h = S("elem", (HEADERS,))
    for c in cands:
        got = False
        for q in o.parts(c):
            if q[0] == "rest" and depends(q[1], HEADERS):
                ctx.check("plain-entries", p, False, "plain entries share the headers of the document instead of copying them", o.where(), o.path_text)
                got = True
            if q[0] != "each":
                continue
            got = True
            ctx.check("plain-entries", p, over(q[1], HEADERS), f"plain entries range over {short(q[1])} instead of all the headers", o.where(), o.path_text)
            for facts, sub in q[2]:
                items = [x[1] for x in sub if x[0] == "item"]
                ctx.check("plain-entries", p, len(items) == 1, "plain entries may skip or repeat headers", o.where(), o.path_text)
                for it in items:
                    if not o.is_a(it, "HeaderNode") or o.obj(it).path is not None:
                        t = o.snap(it)
                        ctx.check("plain-copy", p, False if t == h else None, "plain entries share the headers of the document", o.where(), o.path_text)
                        continue
                    ctx.check("entries-parent", p, same(o, o.get(it, "parent"), r), "a plain entry is not a child of the ToC node", o.where(), o.path_text)
                    for f in ("level", "name", "internal_id"):
                        v = o.snap(o.get(it, f))
                        ctx.check("plain-copy", f"{p}:{f}", depends(v, attr(h, f)), f"the {f} of a plain entry is {short(v)}", o.where(), o.path_text)
                    iid = o.snap(o.get(it, "internal_id"))
                    ctx.check("copy-after-ids", p, depends(iid, FUNC), "the entries are copied before the headers receive their internal ids", o.where(), o.path_text)
                    complete_copy(ctx, o, "plain-copy-content", p, it, o.get(it, "content"), attr(h, "content"))
                    lab = o.deep(o.get(it, "labels"), 3)
                    ctx.check("plain-copy", f"{p}:labels", depends(lab, attr(h, "labels")), "the labels of a header are missing in its plain entry", o.where(), o.path_text)
        if not got:
            ctx.check("plain-entries", p, False if not o.parts(c) else None, "plain entries stay empty", o.where(), o.path_text)
    # nested
    nested = o.get(r, "nested_entries")
    t = o.snap(nested)
    for a in alts(t):
        if a == attr(e, "nested_entries"):
            ctx.check("nested-entries", p, False, "a ToC node may be left without nested entries", o.where(), o.path_text)
    shared = o.get(at_path(o, SELF), "nested_headers")
    ctx.check("nested-own", p, not (isinstance(nested, R) and nested == shared), "a ToC node shares the hierarchy of the document, whose entries have another parent", o.where(), o.path_text)
    for it in [x for x in objs(o, "TocItemNode") if o.obj(x).path is None]:
        par = o.get(it, "parent")
        owner = None
        # which list holds it
        holders = [oid for oid, hh in o.st.heap.items() if hh.kind == "list" and R(it.oid) in (o.items(R(oid)) or [])]
        if isinstance(nested, R) and nested.oid in holders:
            ctx.check("entries-parent", p + ":nested", same(o, par, r), f"an entry of the hierarchy of a ToC node is a child of {short(o.snap(par))}", o.where(), o.path_text)
        hd = o.snap(o.get(it, "header"))
        ctx.check("nested-header", p, depends(hd, HEADERS), f"a ToC entry refers to {short(hd)}", o.where(), o.path_text)


def hierarchy(ctx):
    """The recursive builder, wherever it is: found as the function that
    recurses while the manager processes the headers."""
    outs = method_outs(ctx, "TocManager", "process")
    recs = {}
    for o in outs:
        for e in o.events("recurse"):
            recs.setdefault(e.data[0], e)
    names = sorted(n for n in recs)
    if not names:
        ctx.check("hierarchy", "TocManager", None, "the hierarchy is not built by a recursive function")
        return
    for n in names:
        try:
            fi = ctx.prog.func(n) if "." not in n else ctx.prog.method(*n.split("."))
        except Exception:
            ctx.check("hierarchy", n, None, "nested function")
            continue
        from ..model import interp, run
        ip = interp(ctx.prog)
        outs2 = run(ip, fi)
        ctx.saw(ip)
        ctx.paths += len(outs2)
        builder(ctx, n, fi, outs2)


def builder(ctx, n, fi, outs):
    items_seen = False
    for o in outs:
        if o.exc:
            continue
        # a generic iteration: one entry is created and appended to a list
        # received as argument; the recursion gets the entries of that entry
        for ev in loops(o.st.trace):
            for facts, sub in ev.alts:
                evs = [x for x, _ in flat(sub)]
                news = [x for x in evs if x.kind == "new" and x.data[0] == "TocItemNode"]
                rec = [x for x in evs if x.kind == "recurse" and x.data[0] == n]
                if not news and not rec:
                    continue
                items_seen = True
                ctx.check("hierarchy-step", n, len(news) == 1 and len(rec) == 1, "an iteration does not add exactly one entry followed by its children", ev.where, o.path_text)
                if len(news) != 1 or len(rec) != 1:
                    continue
                item = R(news[0].data[1])
                if o.obj(item) is None:
                    continue
                hd = o.snap(o.get(item, "header"))
                # header is at(nodes, i)
                apps = [x for x in evs if x.kind == "mut" and x.data[1] in ("append", "extend", "setitem", "insert") and len(x.data) > 4 and contains(x.data[4], item)]
                ctx.check("hierarchy-append", n, bool(apps) and all(x.data[1] == "append" for x in apps) if apps else False, "the entry is not appended to the list under construction", ev.where, o.path_text)
                raw = dict(rec[0].data[3])
                vals = [o.snap(v) for v in raw.values()]
                lv = [k for k, v in raw.items() if depends(o.snap(v), lambda t: isinstance(t, S) and t.op == "attr" and t.args[1] == "level")]
                exact = [k for k in lv if o.snap(raw[k]) == attr(hd, "level")]
                ctx.check("hierarchy-level", n, bool(exact), f"the children are not collected under the level of the entry: {[short(o.snap(raw[k])) for k in lv]}", ev.where, o.path_text)
                ent = o.get(item, "entries")
                ctx.check("hierarchy-children", n, any(v == ent for v in raw.values() if isinstance(v, R)), "the children are not added to the entries of their header", ev.where, o.path_text)
                if isinstance(hd, S) and hd.op in ("at", "getitem", "item"):
                    idx = hd.args[1]
                    nxt = [o.snap(v) for v in raw.values() if depends(o.snap(v), idx) and isinstance(o.snap(v), S) and o.snap(v).op in ("add", "binop", "sub", "mul")]
                    ctx.check("hierarchy-next", n, any(t == S("add", (idx, K(1))) for t in nxt) or (None if not nxt else False), f"the children do not start at the header after the entry: {[short(t) for t in nxt]}", ev.where, o.path_text)
                    # entered only when level of the header is greater
                    lows = [(k, v) for k, v in facts if isinstance(k, S) and k.op in ("lt", "le") and depends(k, attr(hd, "level"))]
                    par = [S("var", (a.arg,)) for a in fi.node.args.args]
                    if lows:
                        ok = all(deeper(k, v, attr(hd, "level")) for k, v in lows if any(depends(k, q) for q in par if q != S("var", ("nodes",))))
                        ctx.check("hierarchy-guard", n, ok, "a header that is not deeper than the current level is nested under it", ev.where, o.path_text)
                    else:
                        ctx.check("hierarchy-guard", n, False, "the level of a header is not compared with the current level", ev.where, o.path_text)
        # early return: the index that was reached is given back
        v = o.snap(o.value)
        ctx.check("hierarchy-return", n, v != NONE, "the position reached is not returned", o.where(), o.path_text)
        # leaving for a level: only when it is not deeper
        for e, c in flat(o.st.trace):
            if c or e.kind != "assume":
                continue
            k, pol = e.data
            if isinstance(k, S) and k.op in ("lt", "le") and depends(k, lambda t: isinstance(t, S) and t.op == "attr" and t.args[1] == "level"):
                lvl = [t for t in k.args if isinstance(t, S) and t.op == "attr" and t.args[1] == "level"]
                if lvl:
                    ctx.check("hierarchy-leave", n, not deeper(k, pol, lvl[0]), "the recursion stops at a header that is deeper than the current level: it is lost from the hierarchy or misplaced", e.where, o.path_text)
    ctx.check("hierarchy", n, items_seen or None, "no entry creation seen in a loop")
    # the index advances with the result of the recursion
    for o in outs:
        if o.exc:
            continue
        v = o.snap(o.value)
        if any(x.kind == "recurse" for x in o.events()):
            ctx.check("hierarchy-advance", n, depends(v, lambda t: isinstance(t, S) and t.op == "rec") or depends(v, lambda t: isinstance(t, S) and t.op == "phi"), f"headers consumed by the children are visited again ({short(v)})", o.where(), o.path_text)


def deeper(k, pol, lvl):
    """Does the comparison fact mean `lvl` is greater than the other side?"""
    a, b = k.args
    if k.op == "lt":
        if b == lvl:
            return pol is True  # x < lvl
        return False
    if k.op == "le":
        if a == lvl:
            return pol is False  # not (lvl <= x)
        return False
    return False


def contains(v, r):
    if v == r:
        return True
    if isinstance(v, (tuple, list)):
        return any(contains(x, r) for x in v)
    return False


def loops(trace):
    for e in trace:
        if isinstance(e, LoopEv):
            yield e
            for _, sub in e.alts:
                yield from loops(sub)


def registration(ctx):
    append_node(ctx, "TocManager", "add_header", "headers")
    append_node(ctx, "TocManager", "add_toc_node", "toc_nodes")
    for o in method_outs(ctx, "TocManager", "update"):
        ctx.check("merged", "TocManager.update", not o.exc, "merging raises an error")
        if not o.exc:
            merged_list(ctx, o, "merged", "TocManager.update", "headers")
            merged_list(ctx, o, "merged", "TocManager.update", "toc_nodes")
    el = Elements(ctx)
    seen = set()
    for i, name, outs in el:
        for o in outs:
            if o.exc:
                continue
            for k, v in el.sinks(o):
                if k != "nodes":
                    continue
                for cls, lst in (("HeaderNode", "headers"), ("TocNode", "toc_nodes")):
                    if not o.is_a(v, cls):
                        continue
                    seen.add(cls)
                    added = o.added(o.get(o.parser, el.a_toc, lst), attr(PARSER, el.a_toc, lst))
                    n = None if added is None else sum(1 for q in added if q[0] == "item" and q[1] == v)
                    ctx.check("registered", f"{name}:{cls}", None if n is None else n == 1, f"a {cls} is added to the document but registered {n} times in the table of contents", o.where(), o.path_text)
                    if cls == "HeaderNode":
                        lv = o.snap(o.get(v, "level"))
                        ok = isinstance(lv, S) and lv.op == "len" and depends(lv, lambda t: isinstance(t, S) and t.op == "attr" and t.args[1] == "value" and isinstance(t.args[0], S) and t.args[0].op == "tok")
                        if not ok:
                            ok = None if depends(lv, lambda t: isinstance(t, S) and t.op == "len") and not any(isinstance(t, S) and t.op in ("add", "sub", "binop") for t in [lv]) else False
                        ctx.check("level", name, ok, f"the level of a header is {short(lv)} and not the number of its equal signs", o.where(), o.path_text)
                        for f in ("internal_id", "name"):
                            t = o.deep(o.get(v, f), 4)
                            ctx.check("explicit-fields", f"{name}:{f}", depends(t, el.args0) and depends(t, K(f)) or pending_none(o, el), f"{f} given as argument of a header is ignored ({short(t)})", o.where(), o.path_text)
    ctx.check("registered", "document", seen == {"HeaderNode", "TocNode"}, f"only {seen} are produced by the processors")


def pending_none(o, el):
    return o.st.facts.get(S("isnone", (el.args0,))) is True or o.st.facts.get(S("truth", (el.args0,))) is False


def default_id(ctx):
    """Ids depend on the level and on the whole text."""
    fn = None
    outs = method_outs(ctx, "TocManager", "__init__")
    for o in outs:
        if o.exc:
            continue
        f = o.get(at_path(o, SELF), "header_internal_id_function")
        for a in alts(f) if isinstance(f, S) else [f]:
            from ..model import callable_info
            info = callable_info(a)
            if info is not None:
                fn = info
    if fn is None:
        ctx.check("default-id", "TocManager.__init__", None, "default id function not resolved")
        return
    from ..model import interp, run
    ip = interp(ctx.prog)
    outs = run(ip, fn)
    ctx.saw(ip)
    ctx.paths += len(outs)
    a0 = S("var", (fn.node.args.args[0].arg,))
    for o in outs:
        if o.exc:
            ctx.check("default-id", fn.qual, False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
            continue
        t = o.deep(o.value, 4)
        ctx.check("default-id", fn.qual + ":level", depends(t, attr(a0, "level")), "the default id does not depend on the level of the header", o.where(), o.path_text)
        ctx.check("default-id", fn.qual + ":content", depends(t, attr(a0, "content")), "the default id does not depend on the text of the header", o.where(), o.path_text)
        bad = [x for x in ids_of(t)]
        ctx.check("default-id", fn.qual + ":stable", not bad, f"the default id depends on {bad}: it is not stable between runs", o.where(), o.path_text)


def ids_of(t):
    from ..model import subterms
    for x in subterms(t):
        if isinstance(x, S) and x.op in ("id", "hash", "random", "time"):
            yield x.op
        if isinstance(x, S) and x.op in ("ext", "ret", "opaque", "call") and any(isinstance(a, (str, K)) and str(a if isinstance(a, str) else a.v).split(".")[0] in ("random", "uuid", "time", "os", "secrets") for a in x.args):
            yield repr(x.args[0])


GIVEN = {
    # arguments of the header: the id it must have (None: one of its own)
    "internal_id=abc": "abc",
    "internal_id=abc, name=def": "abc",
    "name=def, internal_id=abc": "abc",
    "name=abc": None,
    "#abc, name=abc": None,
    "*abc, abc=abc": None,
    "abc": None,
    "": None,
}


def given_ids(ctx):
    """The id of a header is the argument `internal_id` or an id of its own."""
    cases = {a: (text(f"[{a}]\n= <plain:3>\n" if a else "= <plain:3>\n"), None, 0, 0) for a in GIVEN}
    fs = trees.programs(ctx.prog, cases, returns="parser.nodes[0].internal_id")
    for a, want in GIVEN.items():
        ip, outs = trees.explore(ctx, fs[a])
        for o in outs or ():
            if o.exc:
                continue
            v = o.snap(o.value)
            if want is None:
                # the name and the other arguments are no ids
                ok = not (isinstance(v, K) and v.v in ("abc", "def", None, ""))
            else:
                ok = v == K(want) if isinstance(v, K) else None
            ctx.check("given id", f"[{a}]", ok, f"the internal id of the header is {short(v)}", o.where(), o.path_text)


def init(ctx):
    arg = S("var", ("header_internal_id_function",))
    for o in method_outs(ctx, "TocManager", "__init__"):
        if o.exc:
            continue
        given = o.st.facts.get(S("truth", (arg,)))
        if given is None:
            z = o.st.facts.get(S("isnone", (arg,)))
            given = None if z is None else not z
        if given is False:
            continue
        f = o.get(at_path(o, SELF), "header_internal_id_function")
        ctx.check("id-function", "TocManager.__init__", any(depends(a, arg) for a in alts(o.snap(f))), "the configured id function is ignored", o.where(), o.path_text)
