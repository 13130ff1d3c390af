from ..absint import K, LoopEv, NONE, R, S, flat
from ..model import attr, depends, short
from .common import SELF, own_value, alts, at_path, early_exit, elem_obj, mau_error, mentions, method_outs, nonempty, over
from .elements import Elements, PARSER
from .p05 import complete_copy, dup_table, list_gets, merged_dict, merged_list, parsed_text, text_level, touches

PROPERTY = {
    "id": "P07",
    "title": "Every internal link reaches the header with the requested name",
    "statement": "Every header link in a document (wherever its text is parsed, non-isolated blocks included) ends up connected to the header whose name argument is the requested one, and receives a copy of the header's content as its text exactly when it has no text of its own. A link to a name that no header has and a name given to two headers are errors located at the link or header. Every named header is registered.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every document: any number of links and named headers in any position and nesting",
    },
    "why_tests_cant": "Tests use single links in fixed positions; the claim covers all positions, any number of links and headers, and the absence of any path that loses a link.",
    "anchors": {
        "files": ["mau/parsers/managers/header_links_manager.py", "mau/parsers/document_parser.py", "mau/parsers/text_parser.py", "mau/parsers/document_processors/header.py"],
        "state": [{"name": "HeaderLinksManager.macros / headers", "meaning": "links and named headers collected", "where": "mau/parsers/managers/header_links_manager.py"}],
        "mechanism": [{"name": "HeaderLinksManager.process", "where": "mau/parsers/managers/header_links_manager.py"}],
        "observe_at": ["MacroHeaderNode.header", "MacroHeaderNode.content"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: for-all-elements effects of the header links manager and registration of links and headers on all paths"
LEVEL_NOTE = "Loops are decided on a generic element."
EXPLANATION = "HeaderLinksManager.process/add_header/update are evaluated abstractly from an arbitrary state; every path of the document and inline processors that parses text or creates a header or a link must register it."
ASSUMPTIONS = ["nested parsers are independent objects (summarised by the result of lex_and_parse)"]

MACROS = attr(SELF, "macros")
HEADERS = attr(SELF, "headers")


def check(ctx):
    process(ctx)
    dup_table(ctx, method_outs(ctx, "HeaderLinksManager", "add_header"), "HeaderLinksManager.add_header", "headers", "duplicate-name", "header-stored")
    stored_key(ctx)
    from .p05 import whole_extend
    whole_extend(ctx, "HeaderLinksManager", "add_macros", "macros", None)
    outs = method_outs(ctx, "HeaderLinksManager", "update")
    ctx.check("duplicate-name", "HeaderLinksManager.update:exists", any(o.exc for o in outs), "merging two headers with the same name is silent: one of them is lost")
    for o in outs:
        if o.exc:
            mau_error(ctx, "duplicate-name", "HeaderLinksManager.update", o, lambda t: mentions(t, "info"), "update")
            continue
        merged_list(ctx, o, "merged", "HeaderLinksManager.update", "macros")
        merged_dict(ctx, o, "merged", "HeaderLinksManager.update", "headers")
    parsed_text(ctx, "header_links_manager", "macros", "header_links", "links to headers")
    text_level(ctx, "header_links", "MacroHeaderNode", "links to headers")
    named(ctx)


def stored_key(ctx):
    for o in method_outs(ctx, "HeaderLinksManager", "add_header"):
        if o.exc:
            mau_error(ctx, "duplicate-name", "HeaderLinksManager.add_header:where", o, lambda t: mentions(t, "info") and depends(t, S("var", ("header",))), "add_header")
            continue
        added = o.added(o.get(at_path(o, SELF), "headers"), HEADERS) or ()
        for q in added:
            if q[0] == "kv":
                ctx.check("header-stored", "HeaderLinksManager.add_header:key", o.snap(q[1]) == attr(S("var", ("header",)), "name"), f"a header is stored under {short(o.snap(q[1]))} and not under its name", o.where(), o.path_text)


def process(ctx):
    p = "HeaderLinksManager.process"
    outs = method_outs(ctx, "HeaderLinksManager", "process")
    e = S("elem", (MACROS,))
    errs = [o for o in outs if o.exc]
    ctx.check("unknown-target", p, bool(errs), "a link to an unknown header is not an error")
    for o in errs:
        mau_error(ctx, "unknown-target", p + ":error", o, lambda t: depends(t, e) and mentions(t, "info"), p)
    for o in outs:
        if o.exc:
            continue
        ctx.check("all-processed", p, not early_exit(o, MACROS), "processing stops before the last link", o.where(), o.path_text)
        r, whole = elem_obj(o, MACROS)
        if whole is False:
            ctx.check("linked", p, False, "only some of the links are connected", o.where(), o.path_text)
            continue
        if r is None:
            ctx.check("linked", p, None if touches(o, MACROS) else False, "links are never connected", o.where(), o.path_text)
            continue
        for a in alts(o.snap(o.get(r, "header"))):
            ok = a != attr(e, "header") and a != NONE and depends(a, HEADERS) and depends(a, attr(e, "target_name"))
            ctx.check("linked", p, ok, f"a link may be connected to {short(a)}", o.where(), o.path_text)
        content(ctx, o, p, e, r)


def content(ctx, o, p, e, r):
    init = attr(e, "content")
    v = o.get(r, "content")
    own_value(ctx, o, "default-text-copy", p, e, "content", "the text of a link")
    t = S("all", tuple(o.deep(a, 5) for a in alts(v)) + (o.snap(v),))
    ctx.check("own-text", p, depends(t, init), "the text of a link is overwritten with the content of the header", o.where(), o.path_text)
    hc = lambda x: isinstance(x, S) and x.op == "attr" and x.args[1] == "content" and depends(x.args[0], HEADERS)
    ctx.check("default-text", p, depends(t, hc), "a link without text does not receive the content of the header", o.where(), o.path_text)
    shared = any(hc(o.snap(a)) for a in alts(v)) or any(q[0] == "rest" and hc(q[1]) for q in o.parts(v) or ())
    ctx.check("default-text-copy", p, not shared, "the link shares the nodes of the header instead of copying them", o.where(), o.path_text)
    for c in [x for x in _sub(t) if isinstance(x, S) and x.op == "vcall" and x.args[0] == "deepcopy"]:
        par = dict(x for x in c.args[2] if isinstance(x, tuple) and len(x) == 2).get("parent") if len(c.args) > 2 else None
        ctx.check("default-text-parent", p, par == e if par is not None else None, f"the copied text is a child of {short(par)} and not of the link", o.where(), o.path_text)
    ctx.check("default-text-copy", p + ":whole", not depends(t, lambda x: isinstance(x, S) and x.op == "slice" and depends(x, hc)), "only part of the content of the header is copied", o.where(), o.path_text)
    # the text changes exactly when there is none
    for ev in o.st.trace:
        if isinstance(ev, LoopEv) and over(ev.src, MACROS):
            for facts, sub in ev.alts:
                has = nonempty(facts, init)
                empty_src = any(isinstance(k, S) and k.op == "truth" and hc(k.args[0]) and v is False for k, v in facts)
                ch = any(
                    (x.kind == "set" and x.data[0] == e and x.data[1] == "content" and x.data[2] != init)
                    or (x.kind == "mut" and depends(x.data[0], init))
                    for x, _ in flat(sub)
                )
                if has is True:
                    ctx.check("own-text", p, not ch, "the text of a link is overwritten with the content of the header", ev.where, o.path_text)
                elif has is False:
                    ctx.check("default-text", p, ch or empty_src or None, "a link without text stays without text", ev.where, o.path_text)


def _sub(t):
    from ..model import subterms
    return subterms(t)


def named(ctx):
    el = Elements(ctx)
    seen = 0
    base = attr(PARSER, el.a_links, "headers")
    for i, name, outs in el:
        for o in outs:
            if o.exc:
                continue
            for k, v in el.sinks(o):
                if k != "nodes" or not o.is_a(v, "HeaderNode"):
                    continue
                seen += 1
                nm = o.snap(o.get(v, "name"))
                known_none = nm == NONE or o.st.facts.get(S("truth", (nm,))) is False or o.st.facts.get(S("isnone", (nm,))) is True
                added = o.added(o.get(o.parser, el.a_links, "headers"), base)
                if added is None:
                    ctx.check("named-registered", name, None, "unknown")
                    continue
                kv = [q for q in added if q[0] == "kv" and q[2] == v]
                if known_none:
                    ctx.check("named-registered", name + ":unnamed", not added or nm != NONE or None, "")
                    continue
                ctx.check("named-registered", name, bool(kv), "a header with a name is not registered as target of links", o.where(), o.path_text)
                for q in kv:
                    ctx.check("named-registered", name + ":key", o.snap(q[1]) == nm, f"the header is registered as {short(o.snap(q[1]))}", o.where(), o.path_text)
    ctx.need("coverage", "headers", seen > 0, "no processor creates headers")
