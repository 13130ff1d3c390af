from .. import summaries as su
from ..absint import Cl, K, NONE, R, S, State
from ..model import attr, depends, interp, run, short, subterms, var
from .common import element_of, mau_error
from .elements import Elements, PARSER
from . import included, trees
from .nested import IDENT, doc_parses, state_of

PROPERTY = {
    "id": "P10",
    "title": "Recursive inclusion is always refused, other inclusion never",
    "statement": "A Mau file is never included (directly, through other files, or from inside a block) while the same URI is one of the files whose inclusion is in progress, the including file among them: that is reported as an error located at the include, before the file is read. Files included earlier by the same document, and already completed, do not forbid anything.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every chain of inclusions of any length, through any nesting of blocks and included files",
    },
    "why_tests_cant": "Tests include one file that includes itself; the claim is an invariant over chains of any length and over every place where a nested document is parsed.",
    "anchors": {
        "files": ["mau/parsers/document_processors/include.py", "mau/parsers/document_processors/block_engines/default.py", "mau/parsers/document_parser.py", "mau/parsers/base_parser.py"],
        "state": [{"name": "DocumentParser.forbidden_includes", "meaning": "URIs whose inclusion is in progress", "where": "mau/parsers/document_parser.py"}],
        "mechanism": [{"name": "forbidden_includes check", "where": "mau/parsers/document_processors/include.py"}],
        "observe_at": ["error raised by `<< mau:URI`"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: inductive invariant on the include stack, checked at every nested parse (call site) and on every path to it; interpretation of documents with included files of known content, recursive and not"
LEVEL_NOTE = "URIs are compared as written: two spellings of the same file are two URIs."
EXPLANATION = "Every outcome of every document processor that parses a nested document is examined: the list of forbidden URIs it passes must contain everything forbidden to the current document and, for a file, the including file and the file itself; the path must have compared the URI with all of them and the opposite outcome must be a located error. The list held by the current parser must not change. The constructor and lex_and_parse must carry the list to the nested parser."
ASSUMPTIONS = ["URIs are compared literally"]

KW = "forbidden_includes"
ALLOWED = ("mau twice", "mau in mau", "mau, the same file from two", "mau in a block", "mau with a block", "mau with its own variables")
RECURSIVE = ("the document", "a file that includes itself", "a file that includes the document", "two files that include each other", "a file included in a block", "the document, in a block", "the document, in a list of blocks")


def not_refused(o, doc, want):
    if o.exc is not None:
        raise trees.Mismatch(f"the text is refused ({o.exc_name}) without recursion")


def check(ctx):
    included.analyse(ctx, included.accepted("files", not_refused, ALLOWED) + included.refused("recursive files", included.at, RECURSIVE))
    names, outs = state_of(ctx.prog, ctx, KW)
    fi = ctx.prog.method("DocumentParser", "__init__")
    ctx.need("anchor", "DocumentParser.__init__", KW in [a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs], "no argument forbidden_includes")
    ctx.check("kept", "DocumentParser.__init__", bool(names), "the list of forbidden URIs received by a parser is not stored")
    ok_all = True
    for o in outs:
        if o.exc:
            continue
        r = R(o.st.memo[var("self")])
        if not names:
            break
        v = o.get(r, names[0])
        t = o.deep(v, 3)
        none = o.st.facts.get(S("isnone", (var(KW),))) is True or o.st.facts.get(S("truth", (var(KW),))) is False
        if not none:
            ctx.check("kept", "DocumentParser.__init__:" + names[0], depends(t, var(KW)) and not depends(t, lambda x: isinstance(x, S) and x.op == "slice"), f"a parser holds {short(t)} instead of the URIs it received", o.where(), o.path_text)
    if not names:
        return
    base = attr(PARSER, names[0])
    carried(ctx, names[0])
    el = Elements(ctx, IDENT)
    seen = {"block": 0, "file": 0}
    refused = 0
    for i, name, outs in el:
        for o in outs:
            # the list of the current parser never changes
            for e in o.events("mut", "set"):
                if e.data[0] == base or (e.kind == "set" and attr(e.data[0], e.data[1]) == base):
                    ctx.check("scoped", name, False, "the URIs forbidden to the current document change: files included afterwards are affected", e.where, o.path_text)
            for e, term, b, raw, uri in doc_parses(o):
                v = b.get(KW)
                kind = "file" if uri is not None else "block"
                seen[kind] += 1
                ctx.check("inherited", f"{name}:{kind}", v is not None and depends(v, lambda x: x == base) and whole(v, base), f"a nested document does not inherit the forbidden URIs (it receives {short(v)})", e.where, o.path_text)
                if uri is None or v is None:
                    continue
                # membership facts known on this path, each over a list
                facts = [(k.args[0], k.args[1], val) for k, val in o.st.facts.items() if isinstance(k, S) and k.op == "in" and depends(k.args[1], base)]
                eqs = [(k.args, val) for k, val in o.st.facts.items() if isinstance(k, S) and k.op == "eq" and uri in k.args]
                src = source_terms(o)
                added = [q[1] for q in getattr(v, "args", ()) if isinstance(q, tuple) and q[0] == "item"] if isinstance(v, S) and v.op == "list" else []
                already = [a for a, l, val in facts if val is True]
                ctx.check("adds-file", name, uri in added or uri in already or nolist(v, uri), f"the included file is not forbidden to the files it includes ({short(v)})", e.where, o.path_text)
                ctx.check("adds-source", name, any(s in added or s in already for s in src) or any(nolist(v, s) for s in src), f"the including file is not forbidden to the included one ({short(v)})", e.where, o.path_text)
                neg = [l for a, l, val in facts if a == uri and val is False]
                tested_base = any(whole(l, base) for l in neg)
                tested_src = any(any(depends(l, s) for s in src) for l in neg) or any(any(s in args for s in src) and val is False for args, val in eqs) or any(s in already for s in src)
                ctx.check("tested", f"{name}:chain", tested_base, "a file is included without comparing it with the files whose inclusion is in progress", e.where, o.path_text)
                ctx.check("tested", f"{name}:self", tested_src, "a file is included without comparing it with the including file", e.where, o.path_text)
            if o.exc:
                hit = [k for k, val in o.st.facts.items() if isinstance(k, S) and k.op == "in" and val is True and depends(k.args[1], base) and not is_source(k.args[0]) and not depends(k.args[1], lambda x: isinstance(x, S) and x.op == "parsed" and x.args[0] == "DocumentParser")]
                if hit and o.events("raise") and not o.events("open"):
                    refused += 1
                    mau_error(ctx, "refused", name, o, lambda t: depends(t, lambda x: isinstance(x, S) and x.op == "tok"), "the recursion check")
        # no file is refused for another reason than being in progress
    ctx.check("refused", "document", refused > 0, "no path refuses a recursive inclusion")
    ctx.need("coverage", "nested documents", seen["block"] > 0 and seen["file"] > 0, f"nested parses seen: {seen}")


def nolist(v, x):
    """x was added by an operation other than a plain list."""
    return isinstance(v, S) and v.op not in ("list",) and depends(v, x)


def whole(v, base):
    """Does the collection term hold every element of base?"""
    if v == base:
        return True
    if depends(v, lambda x: isinstance(x, S) and x.op in ("slice", "getitem", "at", "elem") and depends(x, base)):
        # element by element filters
        return False
    if isinstance(v, S) and v.op in ("list", "set", "tuple"):
        for q in v.args:
            if isinstance(q, tuple) and q[0] == "rest" and depends(q[1], base):
                return True
            if isinstance(q, tuple) and q[0] == "each" and depends(q[1], base):
                return all(any(x[0] == "item" for x in ps) for _, ps in q[2])
        return False
    return depends(v, base)


def is_source(t):
    return isinstance(t, S) and t.op == "attr" and t.args[1] == "source"


def source_terms(o):
    res = set()
    for e in o.events():
        for t in subterms(e.data):
            if is_source(t) and depends(t, lambda x: isinstance(x, S) and x.op == "tok"):
                res.add(t)
    for k in o.st.facts:
        for t in subterms(k):
            if is_source(t) and depends(t, lambda x: isinstance(x, S) and x.op == "tok"):
                res.add(t)
    return res


def carried(ctx, name):
    """lex_and_parse hands the list to the new parser."""
    prog = ctx.prog
    extra = {prog.method("DocumentParser", "parse").qual: su.opaque()}
    lexer = prog.method("DocumentLexer", "process")
    extra[lexer.qual] = su.opaque()
    base = {k: v for k, v in {**su.TM, **su.ENV}.items()}
    ip = interp(prog, extra, base=base)
    st = State()
    fi = prog.method("DocumentParser", "lex_and_parse")
    outs = run(ip, fi, self_val=Cl(prog.cls("DocumentParser")), state=st, kwargs={KW: var(KW)})
    ctx.saw(ip)
    n = 0
    for o in outs:
        if o.exc:
            continue
        n += 1
        v = o.get(o.value, name)
        t = o.deep(v, 3)
        none = o.st.facts.get(S("truth", (var(KW),))) is False or o.st.facts.get(S("isnone", (var(KW),))) is True
        if not none:
            ctx.check("carried", "lex_and_parse", depends(t, var(KW)), f"the forbidden URIs are lost on the way to the nested parser (it holds {short(t)})", o.where(), o.path_text)
    ctx.need("coverage", "lex_and_parse", n > 0, "no normal outcome")
