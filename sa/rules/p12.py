from ..absint import K, NONE, R, S
from ..model import attr, depends, short, subterms
from .common import elem_obj
from .elements import Elements, PARSER
from .nested import IDENT, doc_parses

PROPERTY = {
    "id": "P12",
    "title": "Blocks are isolated unless isolate=false says otherwise",
    "statement": "The content of a default block is parsed as a document of its own, at the position of the content, sharing the variables, and all the resulting nodes become the content and the children of the block. Its headers, links to headers, footnotes, ToC nodes and footnotes lists stay inside it, unless the block has isolate=false, in which case all of them are merged into the enclosing document; the files it includes are always recorded by the enclosing document.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every block, at any nesting depth, whatever it contains and whatever the other arguments are",
    },
    "why_tests_cant": "Tests merge one header and one footnote; the claim is that on no path anything leaks from an isolated block, and that nothing is missing from a merged one.",
    "anchors": {
        "files": ["mau/parsers/document_processors/block.py", "mau/parsers/document_processors/block_engines/default.py"],
        "state": [{"name": "DocumentParser managers", "meaning": "headers, links, footnotes of the enclosing document", "where": "mau/parsers/document_parser.py"}],
        "mechanism": [{"name": "parse_block_content", "where": "mau/parsers/document_processors/block_engines/default.py"}],
        "observe_at": ["ToC and footnotes of the enclosing document"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: information flow from the nested parser into the managers of the enclosing document, per value of isolate"
LEVEL_NOTE = "That `update` merges everything is decided by P05-P07."
EXPLANATION = "Every outcome of the document processors that parses the content of a block is examined: the fact known about the argument isolate decides whether the final contents of the managers of the enclosing parser must, or must not, depend on the nested parser."
ASSUMPTIONS = []


def check(ctx):
    el = Elements(ctx, IDENT)
    seen = {True: 0, False: 0}
    managers = {
        el.a_foot: ("footnote_macros", "bodies", "footnotes_list_nodes"),
        el.a_toc: ("headers", "toc_nodes"),
        el.a_links: ("macros", "headers"),
    }
    for i, name, outs in el:
        for o in outs:
            blocks = [x for x in doc_parses(o) if x[4] is None]
            if o.exc:
                continue
            for e, term, b, raw, uri in blocks:
                iso, default = isolated(o, el)
                if default is not None:
                    ctx.check("default", name, default, "a block without isolate is not isolated", e.where, o.path_text)
                if iso is None:
                    ctx.check("isolate", name, False, "the content of a block is treated the same way whatever isolate is", e.where, o.path_text)
                    continue
                seen[iso] += 1
                exact = [k for k in o.st.facts if isinstance(k, S) and k.op == "eq" and depends(k, K("isolate"))]
                if exact:
                    ctx.check("isolate", name + ":false", any(K("false") in k.args for k in exact), "values of isolate other than false merge the block", e.where, o.path_text)
                for m, lists in managers.items():
                    for l in lists:
                        v = o.get(o.parser, m, l)
                        d = o.deep(v, 5)
                        src = attr(term, m, l)
                        muts = [x for x in o.events("mut") if depends(x.data[0], attr(PARSER, m, l)) and depends(x.data[2], term)]
                        got = depends(d, src) or bool([x for x in muts if depends(x.data[2], src) or depends(x.data[2], attr(term, m))])
                        leak = depends(d, term)
                        own = l == "bodies" and leak and not got
                        if iso:
                            # the definition of a footnote contains parsed nodes, that is not a leak
                            inner = depends(d, attr(term, m))
                            ctx.check("isolated", f"{name}:{m}.{l}", not inner and not got, f"{m}.{l} of the enclosing document receives what is inside an isolated block", e.where, o.path_text)
                        else:
                            ctx.check("merged", f"{name}:{m}.{l}", got or loops_over(o, src), f"{m}.{l} of a block with isolate=false does not reach the enclosing document", e.where, o.path_text)
                calls = o.deep(o.get(o.parser, "output", "include_calls"), 4)
                ctx.check("includes-recorded", name, depends(calls, attr(term, "output", "include_calls")), "the files included by a block are not recorded by the document", e.where, o.path_text)
                ctx.check("shared-variables", name, b.get("environment") == attr(PARSER, "environment"), f"a block does not see the variables of the document ({short(b.get('environment'))})", e.where, o.path_text)
                tok = [t for t in subterms(b.get("text")) if isinstance(t, S) and t.op == "tok"]
                ctx.check("whole-text", name, bool(tok) and b.get("text") == attr(tok[0], "value"), f"the text parsed is {short(b.get('text'))}", e.where, o.path_text)
                if tok:
                    for k, want in (("source_filename", "source"), ("start_line", "start_line"), ("start_column", "start_column")):
                        ctx.check("position", f"{name}:{k}", b.get(k) == attr(tok[0], "context", want), f"the content is parsed with {k} {short(b.get(k))}", e.where, o.path_text)
                content(ctx, el, o, name, e, term)
    ctx.check("isolate", "both", seen[True] > 0 and seen[False] > 0, f"isolate does not decide ({seen})")


def loops_over(o, src):
    from ..absint import LoopEv
    from .common import loop_events
    for ev in loop_events(o):
        if depends(ev.src, src) and not ev.partial:
            return True
    return False


def isolated(o, el):
    res = None, None
    for k, v in o.st.facts.items():
        if not (isinstance(k, S) and k.op == "eq" and depends(k, K("isolate"))):
            continue
        const = [a for a in k.args if isinstance(a, K)]
        other = [a for a in k.args if not isinstance(a, K)]
        if len(const) != 1 or len(other) != 1:
            continue
        c = const[0].v
        d = other[0].args[2].v if isinstance(other[0], S) and len(other[0].args) > 2 and isinstance(other[0].args[2], K) else None
        if c == "false":
            res = not v, (None if d is None else d != "false")
        elif c == "true":
            res = v, (None if d is None else d == "true")
    if res[0] is None and (o.st.facts.get(S("isnone", (el.args0,))) is True or o.st.facts.get(S("truth", (el.args0,))) is False):
        return True, None  # no arguments at all
    if res[0] is None:
        for k, v in o.st.facts.items():
            if isinstance(k, S) and k.op in ("in", "truth", "isnone") and depends(k, K("isolate")):
                absent = (k.op == "in" and not v) or (k.op == "isnone" and v) or (k.op == "truth" and not v)
                if absent:
                    res = True, None
    return res


def content(ctx, el, o, name, e, term):
    nodes = attr(term, "nodes")
    for k, v in el.sinks(o):
        if v is None or not o.is_a(v, "BlockNode"):
            continue
        c = o.get(v, "content")
        d = o.deep(c, 3)
        ok = o.snap(c) == nodes or d == S("list", (("rest", nodes),))
        if not ok:
            ok = None if depends(d, nodes) and not depends(d, lambda x: isinstance(x, S) and x.op in ("slice", "getitem", "at")) else False
        ctx.check("content", name, ok, f"a block contains {short(d)} and not all the nodes of its content", o.where(), o.path_text)
        part = elem_obj(o, nodes)
        if part[1] is False:
            ctx.check("children", name, False, "only some of the nodes of the content become children of the block", e.where, o.path_text)
            continue
        child = S("elem", (nodes,))
        r = o.st.memo.get(child)
        if r is None:
            ctx.check("children", name, False if not depends(S("t", tuple(x.data[0] for x in o.events("set"))), nodes) else None, "the nodes of the content do not become children of the block", o.where(), o.path_text)
            continue
        p = o.get(R(r), "parent")
        ok = p == v or (isinstance(p, S) and p.op == "phi" and o.snap(v) in p.args)
        ctx.check("children", name, ok, f"the nodes of the content are children of {short(o.snap(p))}", o.where(), o.path_text)
