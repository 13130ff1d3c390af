from .. import summaries as su
from ..absint import K, LoopEv, NONE, R, S, flat
from ..model import attr, attr_of, depends, short
from . import published
from .common import SELF, alts, at_path, method_outs, nonempty
from .p05 import same

PROPERTY = {
    "id": "P09",
    "title": "Finishing a document links everything and publishes it whole",
    "statement": "When the last token of a document has been parsed, and not before, the footnotes, the ToC, the links to headers and the block groups are all processed, whether or not the document has nodes in its normal flow. The output document then contains all the parsed nodes in order, spans from the first to the last of them, and the output ToC exposes the headers and the hierarchy computed by the ToC manager.",
    "quantifier": {
        "over": ["inputs"],
        "text": "every document, including those without nodes in the normal flow",
    },
    "why_tests_cant": "Each test looks at one feature of one document; the claim is that no path of the end-of-document code skips a manager or reads its results too early.",
    "anchors": {
        "files": ["mau/parsers/document_parser.py", "mau/parsers/base_parser.py"],
        "state": [{"name": "DocumentParser.output", "meaning": "published document and ToC", "where": "mau/parsers/document_parser.py"}],
        "mechanism": [{"name": "DocumentParser.finalise", "where": "mau/parsers/document_parser.py"}, {"name": "BaseParser.parse", "where": "mau/parsers/base_parser.py"}],
        "observe_at": ["DocumentParser.output.document", "DocumentParser.output.toc"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation with call-order (must-call) obligations over every path of the finalisation code; interpretation of whole documents compared with the document node and table of contents expected"
LEVEL_NOTE = "What each manager computes is decided by P05-P08."
EXPLANATION = "DocumentParser.finalise is evaluated abstractly from an arbitrary state with the four managers opaque; on every normal outcome the calls to the managers, their order relative to the reads of their results, and the published objects are compared with the specification. BaseParser.parse is evaluated to see that finalise runs once, after the loop over the tokens."
ASSUMPTIONS = ["the managers behave as P05-P08 state"]

MANAGERS = {"FootnotesManager": "footnotes", "TocManager": "table of contents", "HeaderLinksManager": "links to headers", "BlockGroupManager": "block groups"}


def check(ctx):
    published.whole(ctx, "whole document")
    finalise(ctx)
    parse(ctx)


def finalise(ctx):
    p = "DocumentParser.finalise"
    extra = {}
    for m in MANAGERS:
        extra[ctx.prog.method(m, "process").qual] = su.opaque()
    names = {m: attr_of(ctx.prog, "DocumentParser", m) for m in MANAGERS}
    outs = method_outs(ctx, "DocumentParser", "finalise", extra)
    nodes = attr(SELF, "nodes")
    published = 0
    for o in outs:
        if o.exc:
            ctx.check("no-error", p, False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
            continue
        evs = o.events()
        pos = {}
        for m, what in MANAGERS.items():
            calls = [i for i, e in enumerate(evs) if e.kind == "call" and e.data[0] == m + ".process" and any(v == attr(SELF, names[m]) for _, v in e.data[1])]
            ctx.check("processed", f"{p}:{m}", len(calls) >= 1, f"the {what} are not processed on a path through the end of the document", o.where(), o.path_text)
            if len(calls) > 1:
                ctx.check("processed-once", f"{p}:{m}", False, f"the {what} are processed {len(calls)} times", o.where(), o.path_text)
            if calls:
                pos[m] = calls[0]
        s = at_path(o, SELF)
        out = o.get(s, "output")
        doc = o.get(out, "document")
        toc = o.get(out, "toc")
        has = nonempty(o.st.facts, nodes)
        docset = [i for i, e in enumerate(evs) if e.kind == "set" and e.data[1] == "document" and e.data[0] == attr(SELF, "output")]
        if has is False and not docset:
            continue
        published += 1
        ctx.check("published", p, bool(docset), "a document with nodes is not published", o.where(), o.path_text)
        if not docset:
            continue
        pn = attr(SELF, "parent_node")
        ctx.check("document-is-wrapper", p, o.snap(doc) == pn, f"the output document is {short(o.snap(doc))}, which is not the parent of the nodes", o.where(), o.path_text)
        c = o.get(doc, "content")
        t = o.deep(c, 3)
        ok = o.snap(c) == nodes or t == S("list", (("rest", nodes),))
        if not ok:
            ok = None if depends(t, nodes) and not depends(t, lambda x: isinstance(x, S) and x.op in ("slice", "reversed", "sorted", "getitem", "at", "set", "each")) else False
        ctx.check("whole-content", p, ok, f"the document contains {short(t)} and not all the nodes in order", o.where(), o.path_text)
        info = o.deep(o.get(doc, "info"), 4)
        firsts = depends(info, lambda x: isinstance(x, S) and x.op in ("at", "getitem", "elem") and x.args[0] == nodes and x.args[1:2] == (K(0),))
        lasts = depends(info, lambda x: isinstance(x, S) and x.op in ("at", "getitem", "elem") and x.args[0] == nodes and x.args[1:2] == (K(-1),))
        ctx.check("document-span", p, firsts and lasts if depends(info, nodes) else False, f"the position of the document is {short(info)} and not the span of its nodes", o.where(), o.path_text)
        # ToC
        ctx.check("toc-published", p, o.is_a(toc, "TocNode"), "the ToC is not published", o.where(), o.path_text)
        if o.is_a(toc, "TocNode"):
            for f, src in (("plain_entries", "headers"), ("nested_entries", "nested_headers")):
                v = o.get(toc, f)
                want = attr(SELF, names["TocManager"], src)
                t = o.deep(v, 3)
                ok = o.snap(v) == want or t == S("list", (("rest", want),))
                if not ok:
                    ok = None if depends(t, want) and not depends(t, lambda x: isinstance(x, S) and x.op in ("slice", "reversed", "sorted", "getitem", "at")) else False
                ctx.check("toc-published", f"{p}:{f}", ok, f"{f} of the published ToC is {short(t)}", o.where(), o.path_text)
            mk = [i for i, e in enumerate(evs) if e.kind == "set" and e.data[1] in ("plain_entries", "nested_entries") and e.data[3] == toc.oid]
            if mk and "TocManager" in pos:
                ctx.check("toc-after-processing", p, all(i > pos["TocManager"] for i in mk), "the ToC is read before it is computed", o.where(), o.path_text)
    ctx.check("published", p + ":exists", published > 0, "no path publishes the document")


def parse(ctx):
    """parse() of the document parser runs finalise once, at the end."""
    fin = ctx.prog.method("DocumentParser", "finalise")
    pf = ctx.prog.method("DocumentParser", "_process_functions")
    outs = method_outs(ctx, "DocumentParser", "parse", {fin.qual: su.opaque(), pf.qual: su.opaque()})
    normal = 0
    for o in outs:
        calls = [(e, inl) for e, inl in flat(o.st.trace) if e.kind == "call" and e.data[0] == fin.qual]
        if o.exc:
            continue
        normal += 1
        ctx.check("finalised", "BaseParser.parse", len(calls) == 1, f"finalise is called {len(calls)} times on a path to the end of the document", o.where(), o.path_text)
        inloop = [e for e, inl in calls if inl]
        ctx.check("finalised-last", "BaseParser.parse", not inloop, "finalise runs before the last token is parsed", o.where(), o.path_text)
        # nothing is parsed afterwards
        evs = o.st.trace
        idx = [i for i, e in enumerate(evs) if not isinstance(e, LoopEv) and e.kind == "call" and e.data[0] == fin.qual]
        if idx:
            later = [e for e in evs[idx[0] + 1:] if isinstance(e, LoopEv) or e.kind in ("gettoken", "vcall")]
            ctx.check("finalised-last", "BaseParser.parse:after", not later, "tokens are parsed after the end of the document", o.where(), o.path_text)
    ctx.need("coverage", "BaseParser.parse", normal > 0, "no normal outcome")
