from ..absint import K, LoopEv, NONE, R, S, Tup
from ..model import attr, depends, short
from . import published
from .common import SELF, no_reparent, own_value, alts, at_path, early_exit, elem_obj, mau_error, mentions, method_outs, objs, over, part_alts, rests
from .elements import Elements, PARSER
from .texts import PARSER as TP, Texts

PROPERTY = {
    "id": "P05",
    "title": "Every footnote mention is linked to its definition, every footnote listed",
    "statement": "Every footnote mention in a document ends up linked to the footnote defined with the same name (undefined mentions and names defined twice are errors located at the mention or definition), and every footnote definition becomes one footnote with its own number, internal id and a copy of the whole content. Every footnotes list contains all the footnotes of the document. Mentions and definitions found anywhere (titles, labels, list items, headers, nested text, non-isolated blocks) are registered, and a footnote definition does not appear in the normal document flow.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every document; every set of mentions, definitions and lists; every nesting of text and blocks",
    },
    "why_tests_cant": "Tests use one or two footnotes in fixed places; the claim covers every number of mentions, definitions and lists and every place where text is parsed.",
    "anchors": {
        "files": ["mau/parsers/managers/footnotes_manager.py", "mau/parsers/document_parser.py", "mau/parsers/text_parser.py", "mau/parsers/document_processors/block.py"],
        "state": [
            {"name": "FootnotesManager.footnote_macros / bodies / footnotes_list_nodes", "meaning": "mentions, definitions and lists collected so far", "where": "mau/parsers/managers/footnotes_manager.py"},
        ],
        "mechanism": [{"name": "FootnotesManager.process", "where": "mau/parsers/managers/footnotes_manager.py"}],
        "observe_at": ["MacroFootnoteNode.footnote", "FootnotesNode.footnotes"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: for-all-elements effects of the footnotes manager and provenance of the registered nodes; interpretation of whole documents with configured id functions"
LEVEL_NOTE = "Loops are decided on a generic element; uniqueness of the ids computed by user supplied functions is not claimed."
EXPLANATION = "FootnotesManager.process/add_body/update are evaluated abstractly from an arbitrary state; the final value of every mention, footnote and list is compared with the required provenance. Each document processor and each text processor is explored and every place that parses text must register the mentions it found."
ASSUMPTIONS = ["nested parsers are independent objects (summarised by the result of lex_and_parse)"]

MACROS = attr(SELF, "footnote_macros")
BODIES = attr(SELF, "bodies")
LISTS = attr(SELF, "footnotes_list_nodes")


def check(ctx):
    published.ids(ctx, "configured ids", published.FOOTNOTES, "mau.parser.footnote_unique_id_function")
    process(ctx)
    register(ctx)
    ids(ctx)
    parsed_text(ctx, "footnotes_manager", "footnote_macros", "footnote_macros", "footnote mentions")
    text_level(ctx, "footnote_macros", "MacroFootnoteNode", "footnote mentions")
    blocks(ctx)
    lists(ctx)


def process(ctx):
    outs = method_outs(ctx, "FootnotesManager", "process")
    p = "FootnotesManager.process"
    normal = [o for o in outs if not o.exc]
    ctx.need("anchor", p, normal, "no normal outcome")
    # the macro name is looked up: a missing one is an error
    errs = [o for o in outs if o.exc]
    ctx.check("undefined-mention", p, bool(errs), "a mention of an undefined footnote is not an error")
    for o in errs:
        mau_error(ctx, "undefined-mention", p + ":error", o, lambda t: depends(t, S("elem", (MACROS,))) and mentions(t, "info"), "FootnotesManager.process")
    for o in normal:
        for base, n in ((MACROS, "mentions"), (BODIES, "definitions"), (LISTS, "lists")):
            ctx.check("all-processed", f"{p}:{n}", not early_exit(o, base), f"processing stops before the last of the {n}", o.where(), o.path_text)
        # --- mentions
        e = S("elem", (MACROS,))
        r, whole = elem_obj(o, MACROS)
        if whole is False:
            ctx.check("linked", p, False, "only some of the mentions are linked", o.where(), o.path_text)
        elif r is None:
            ctx.check("linked", p, False if not touches(o, MACROS) else None, "mentions are never linked to footnotes", o.where(), o.path_text)
        else:
            v = o.get(r, "footnote")
            for a in alts(o.snap(v)):
                init = a == attr(e, "footnote") or a == NONE
                d = o.deep(a, 4) if not isinstance(v, R) else o.deep(v, 4)
                ok = not init and depends(d, attr(e, "name"))
                ctx.check("linked", p, ok, f"a mention may be linked to {short(a)} instead of the footnote with its name", o.where(), o.path_text)
        # --- footnotes
        fs = [r for r in objs(o, "FootnoteNode") if o.obj(r).path is None]
        ctx.check("definitions", p, bool(fs) or (None if touches(o, BODIES) else False), "definitions do not produce footnotes", o.where(), o.path_text)
        for f in fs:
            k = S("key", (BODIES,))
            content = attr(S("val", (BODIES,)), "content")
            ctx.check("footnote-name", p, exact_or_dep(o, f, "name", k, BODIES), "the footnote does not have the name of its definition", o.where(), o.path_text)
            pid = o.deep(o.get(f, "public_id"), 3)
            numbered = depends(pid, lambda t: isinstance(t, S) and t.op in ("index", "phi", "looped", "len", "binop", "next", "ret"))
            ctx.check("footnote-number", p, bool(numbered), f"footnotes do not receive distinct numbers (public_id is {short(pid)})", o.where(), o.path_text)
            iid = o.get(f, "internal_id")
            t = o.snap(iid)
            ctx.check("footnote-id", p, all(depends(a, attr(SELF, "footnote_unique_id_function")) for a in alts(t)), f"the internal id is not computed by the configured function ({short(t)})", o.where(), o.path_text)
            complete_copy(ctx, o, "footnote-content", p, f, o.get(f, "content"), content)
        # every footnote is stored
        dct = o.get(o_self(o), "footnotes_dict")
        td = o.deep(dct, 5)
        ctx.check("footnotes-stored", p, depends(td, lambda t: isinstance(t, S) and t.op in ("new", "obj") and "FootnoteNode" in t.args), "footnotes are not stored for the mentions and the lists", o.where(), o.path_text)
        # --- lists
        e = S("elem", (LISTS,))
        r, whole = elem_obj(o, LISTS)
        if whole is False:
            ctx.check("listed", p, False, "only some of the footnotes lists are populated", o.where(), o.path_text)
            continue
        if r is None:
            ctx.check("listed", p, False if not touches(o, LISTS) else None, "footnotes lists are never populated", o.where(), o.path_text)
            continue
        v = o.get(r, "footnotes")
        own_value(ctx, o, "listed-own", p, e, "footnotes", "the items of a footnotes list")
        for a in alts(o.snap(v)):
            if a == attr(e, "footnotes"):
                ctx.check("listed", p, False, "a footnotes list may be left without footnotes", o.where(), o.path_text)
        ps = o.parts(v)
        if ps is None:
            ctx.check("listed", p, None, "unknown list")
            continue
        for q in ps:
            if q[0] != "each":
                continue
            ov = over(q[1], BODIES)
            full = depends(q[1], BODIES) or depends(q[1], attr(SELF, "footnotes_dict"))
            sl = depends(q[1], lambda t: isinstance(t, S) and t.op == "slice")
            ctx.check("listed", p, full and not sl, f"a footnotes list ranges over {short(q[1])} and not over all the footnotes", o.where(), o.path_text)
            for facts, sub in q[2]:
                items = [x[1] for x in sub if x[0] == "item"]
                ctx.check("listed", p, len(items) == 1, "a footnotes list may skip or repeat footnotes", o.where(), o.path_text)
                for it in items:
                    ctx.check("listed-parent", p, same(o, o.get(it, "parent"), r), "an item of the footnotes list is not a child of the list", o.where(), o.path_text)
        if not any(q[0] == "each" for q in ps):
            ctx.check("listed", p, False if not ps else None, "a footnotes list stays empty", o.where(), o.path_text)


def o_self(o):
    return at_path(o, SELF)


def same(o, a, b):
    return a == b or (isinstance(a, (R, S)) and o.snap(a) == o.snap(b))


def touches(o, base):
    return any(depends(e.data, base) for e in o.events()) or any(isinstance(e, LoopEv) and depends(e.src, base) for e in o.st.trace)


def exact_or_dep(o, r, name, want, base):
    v = o.snap(o.get(r, name))
    if v == want:
        return True
    return None if depends(v, base) and not isinstance(v, S) else depends(v, want) or (None if depends(v, base) else False)


def complete_copy(ctx, o, rule, cons, owner, v, src):
    """v is a list with one deep copy (child of owner) per element of src."""
    ps = o.parts(v)
    if ps is None:
        t = o.snap(v)
        ctx.check(rule, cons, None if depends(t, src) else False, f"the content is not copied from {short(src)} (it is {short(t)})", o.where(), o.path_text)
        return
    got = False
    for q in ps:
        if q[0] == "each":
            ov = over(q[1], src)
            ctx.check(rule, cons, ov if depends(q[1], src) else False, f"the copied content ranges over {short(q[1])} instead of {short(src)}", o.where(), o.path_text)
            got = True
            for facts, sub in q[2]:
                items = [x[1] for x in sub if x[0] == "item"]
                ctx.check(rule, cons, len(items) == 1, "some nodes of the content may be skipped or repeated", o.where(), o.path_text)
                for it in items:
                    t = o.snap(it)
                    cp = isinstance(t, S) and t.op == "vcall" and t.args[0] == "deepcopy" and depends(t, S("elem", (src,)))
                    if cp:
                        kw = dict((x[0], x[1]) for x in t.args[2:] and t.args[2] if isinstance(x, tuple) and len(x) == 2)
                        par = kw.get("parent")
                        newpar = o.get(it, "parent")
                        okp = par == o.snap(owner) or same(o, newpar, owner) if par is not None or o.obj(it) is not None else None
                        ctx.check(rule + "-parent", cons, okp, f"the copied nodes are children of {short(par)} and not of the new node", o.where(), o.path_text)
                        no_reparent(ctx, o, rule + "-parent", cons, t, o.snap(owner))
                    elif t == S("elem", (src,)):
                        ctx.check(rule, cons, False, "the nodes are shared, not copied", o.where(), o.path_text)
                    else:
                        ctx.check(rule, cons, depends(t, src) or None, "unknown copy")
        elif q[0] == "rest":
            ctx.check(rule, cons, False if q[1] == src else None, "the nodes are shared, not copied", o.where(), o.path_text)
            got = True
    if not got:
        ctx.check(rule, cons, None if ps else False, "the content is empty", o.where(), o.path_text)


def register(ctx):
    # add_body: stored under its name, duplicates are errors
    outs = method_outs(ctx, "FootnotesManager", "add_body")
    dup_table(ctx, outs, "FootnotesManager.add_body", "bodies", "duplicate-definition", "definition-stored")
    whole_extend(ctx, "FootnotesManager", "add_footnote_macros", "footnote_macros", None)
    append_node(ctx, "FootnotesManager", "add_footnotes_list", "footnotes_list_nodes")
    # update: everything the other manager collected
    outs = method_outs(ctx, "FootnotesManager", "update")
    for o in outs:
        if o.exc:
            mau_error(ctx, "duplicate-definition", "FootnotesManager.update", o, None, "FootnotesManager.update")
            continue
        for n in ("footnote_macros", "footnotes_list_nodes"):
            merged_list(ctx, o, "merged", "FootnotesManager.update", n)
        merged_dict(ctx, o, "merged", "FootnotesManager.update", "bodies")
    ctx.check("duplicate-definition", "FootnotesManager.update:exists", any(o.exc for o in outs), "merging two definitions of the same footnote is silent: one of them is lost")


def dup_table(ctx, outs, cons, name, rule_dup, rule_store, key=None, val=None):
    base = attr(SELF, name)
    dup = False
    for o in outs:
        present = [v for k, v in o.st.facts.items() if isinstance(k, S) and k.op in ("in", "truth", "isnone") and depends(k, base)]
        if o.exc:
            dup = True
            mau_error(ctx, rule_dup, cons, o, None, cons)
            continue
        added = o.added(o.get(at_path(o, SELF), name), base)
        ok = None
        if added is not None:
            ok = any(q[0] == "kv" for q in added)
        ctx.check(rule_store, cons, ok, f"{cons} does not store the definition", o.where(), o.path_text)
        # an entry that is already there is never replaced
        for k, v in o.st.facts.items():
            if isinstance(k, S) and k.op == "in" and depends(k.args[1:], base) and v is True:
                ctx.check(rule_dup, cons, False, f"{cons} accepts a name that is already defined", o.where(), o.path_text)
    ctx.check(rule_dup, cons + ":exists", dup, f"{cons} never reports a name defined twice")


def whole_extend(ctx, cls, meth, name, arg):
    outs = method_outs(ctx, cls, meth)
    base = attr(SELF, name)
    fi = ctx.prog.method(cls, meth)
    argn = arg or [a.arg for a in fi.node.args.args][1]
    for o in outs:
        if o.exc:
            continue
        list_gets(ctx, o, "registered", f"{cls}.{meth}", o.get(at_path(o, SELF), name), base, S("var", (argn,)))


def list_gets(ctx, o, rule, cons, v, base, src):
    """List v keeps its initial content and receives every element of src."""
    t = o.deep(v, 4)
    ps = o.parts(v)
    if ps is None:
        ctx.check(rule, cons, None if depends(t, base) and depends(t, src) else False, f"the list does not receive the elements of {short(src)}: {short(t)}", o.where(), o.path_text)
        return
    known_empty = any(
        isinstance(k, S) and k.op == "truth" and k.args[0] == src and val is False for k, val in o.st.facts.items()
    )
    keeps = any(q[0] == "rest" and q[1] == base for q in ps)
    got = None
    for q in ps:
        if q[0] == "rest" and q[1] == src:
            got = True
        elif q[0] == "each" and over(q[1], src):
            ok = all(any(x[0] == "item" and o.snap(x[1]) == S("elem", (src,)) for x in sub) for _, sub in q[2])
            got = ok if got is None else got
        elif depends(q, src) and got is None:
            got = False if depends(q, lambda t: isinstance(t, S) and t.op in ("slice", "getitem", "item")) else None
            if got is None:
                got = "?"
    ok = keeps and (got is True or known_empty)
    if got == "?" and keeps:
        ok = None
    ctx.check(rule, cons, ok, f"the list does not receive all the elements of {short(src)} (it is {short(t)})", o.where(), o.path_text)


def append_node(ctx, cls, meth, name, rule="registered"):
    outs = method_outs(ctx, cls, meth)
    fi = ctx.prog.method(cls, meth)
    argn = [a.arg for a in fi.node.args.args][1]
    for o in outs:
        if o.exc:
            continue
        added = o.added(o.get(at_path(o, SELF), name), attr(SELF, name))
        ok = None if added is None else any(o.snap(q[1]) == S("var", (argn,)) for q in added if q[0] == "item")
        ctx.check(rule, f"{cls}.{meth}", ok, f"{cls}.{meth} does not store the node", o.where(), o.path_text)


def merged_list(ctx, o, rule, cons, name):
    list_gets(ctx, o, rule, f"{cons}:{name}", o.get(at_path(o, SELF), name), attr(SELF, name), attr(S("var", ("other",)), name))


def merged_dict(ctx, o, rule, cons, name):
    v = o.get(at_path(o, SELF), name)
    src = attr(S("var", ("other",)), name)
    base = attr(SELF, name)
    t = o.deep(v, 5)
    bad = None
    if not depends(t, src):
        bad = "nothing is taken from the other manager"
    elif not depends(t, base):
        bad = "the existing content is lost"
    ps = o.parts(v)
    if not bad and ps is not None:
        for q in ps:
            if q[0] == "each":
                for facts, sub in q[2]:
                    if not any(x[0] == "kv" for x in sub):
                        bad = "some entries of the other manager are skipped"
    if not bad and early_exit(o, src):
        bad = "merging stops before the last entry"
    if not bad and isinstance(v, S) and v.op == "phi":
        # the initial table may survive only through the empty loop
        for e in o.st.trace:
            if isinstance(e, LoopEv) and depends(e.src, src):
                for facts, sub in e.alts:
                    if not any(x.kind == "mut" and depends(x.data, src) for x in sub if hasattr(x, "kind") and not isinstance(x, LoopEv)):
                        bad = "some entries of the other manager are skipped"
    ctx.check(rule, f"{cons}:{name}", bad is None, f"{bad} ({short(t)})", o.where(), o.path_text)


def ids(ctx):
    """The id function given to the manager comes from the configuration."""
    outs = method_outs(ctx, "FootnotesManager", "__init__")
    for o in outs:
        if o.exc:
            continue
        t = o.snap(o.get(at_path(o, SELF), "footnote_unique_id_function"))
        f = o.st.facts
        given = f.get(S("truth", (S("var", ("footnote_unique_id_function",)),)))
        if given is None:
            z = f.get(S("isnone", (S("var", ("footnote_unique_id_function",)),)))
            given = None if z is None else not z
        if given is not False:
            ctx.check("id-function", "FootnotesManager.__init__", all(depends(a, S("var", ("footnote_unique_id_function",))) or given is None for a in alts(t)), "the configured id function is ignored", o.where(), o.path_text)


def parsed_text(ctx, manager, listname, pattr, what):
    """Document level: the result of every text parse is registered."""
    el = Elements(ctx, inline_text=True)
    base = attr(PARSER, manager, listname)
    n = 0
    for i, name, outs in el:
        for o in outs:
            if o.exc:
                continue
            for e in o.events("parse"):
                if e.data[0] != "TextParser":
                    continue
                n += 1
                term = S("parsed", (e.data[0], e.data[1], e.data[2]))
                src = attr(term, pattr)
                v = o.get(o.parser, manager, listname)
                t = o.deep(v, 6)
                direct = depends(t, src)
                looped = direct or any(depends(x.data, src) for x in o.events("mut") if depends(x.data[0], base))
                unk = not looped and isinstance(t, S) and t.op in ("looped", "phi")
                bad_slice = depends(t, lambda x: isinstance(x, S) and x.op in ("slice", "getitem") and depends(x, src))
                ctx.check("text-registered", f"{name}", None if unk else looped and not bad_slice, f"{name} parses text but the {what} found there are not registered", e.where, o.path_text)
    ctx.need("coverage", "text parses", n > 5, f"only {n} text parses seen")


def blocks(ctx):
    """Blocks that define a footnote are stored, not rendered in place."""
    el = Elements(ctx)
    seen = False
    for i, name, outs in el:
        for o in outs:
            if o.exc:
                continue
            s = el.sinks(o)
            kinds = [k for k, _ in s]
            if "footnote" in kinds:
                seen = True
                ctx.check("not-in-flow", name, "nodes" not in kinds, "the definition of a footnote also appears in the document flow", o.where(), o.path_text)
                v = o.get(o.parser, el.a_foot, "bodies")
                added = o.added(v, attr(PARSER, el.a_foot, "bodies"))
                for q in added or ():
                    if q[0] == "kv":
                        t = o.deep(q[1], 3)
                        ctx.check("definition-name", name, depends(t, lambda x: x == K("footnote")) or depends(t, el.args0) or depends(t, lambda x: isinstance(x, S) and x.op == "parsed"), f"the definition is stored under {short(t)}", o.where(), o.path_text)
    ctx.check("definitions-stored", "document", seen, "no processor stores the definition of a footnote")


def lists(ctx):
    el = Elements(ctx)
    seen = False
    base = attr(PARSER, el.a_foot, "footnotes_list_nodes")
    for i, name, outs in el:
        for o in outs:
            if o.exc:
                continue
            for k, v in el.sinks(o):
                if k == "nodes" and o.is_a(v, "FootnotesNode"):
                    seen = True
                    reg = o.get(o.parser, el.a_foot, "footnotes_list_nodes")
                    added = o.added(reg, base)
                    ok = None if added is None else any(q[0] == "item" and q[1] == v for q in added)
                    ctx.check("list-registered", name, ok, "a footnotes list is added to the document but never registered, so it stays empty", o.where(), o.path_text)
    ctx.check("list-registered", "document", seen, "no processor adds a footnotes list")


def text_level(ctx, listname, macro_cls, what):
    """Inline level: mentions of this text and of the texts nested in it."""
    tx = Texts(ctx)
    base = attr(TP, listname)
    seen = False
    for o in tx.outs:
        if o.exc:
            continue
        v = o.get(o.parser, listname)
        t = o.deep(v, 5)
        nodes = tx.nodes(o) or []
        for r in nodes:
            if o.is_a(r, macro_cls):
                seen = True
                added = o.added(v, base)
                ok = None if added is None else any(q[0] == "item" and q[1] == r for q in added)
                ctx.check("macro-registered", f"TextParser:{macro_cls}", ok, f"a {macro_cls} is created but never registered, so it is never linked", o.where(), o.path_text)
        for e in o.events("parse"):
            if e.data[0] != "TextParser":
                continue
            term = S("parsed", (e.data[0], e.data[1], e.data[2]))
            kinds = sorted({o.cls(r).name for r in nodes if o.cls(r)})
            list_gets(ctx, o, "nested-registered", f"TextParser:{'/'.join(kinds) or 'none'}", v, base, attr(term, listname))
    ctx.check("macro-registered", f"TextParser:{macro_cls}:exists", seen, f"no inline processor creates a {macro_cls}")
