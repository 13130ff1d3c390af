"""P32: included contents."""

from __future__ import annotations

from ..absint import NONE
from . import included, trees
from .documents import EOL, Doc, Unclear, arguments, class_name, const, elements, explore, include, programs

PROPERTY = {
    "id": "P32",
    "title": "Every include gives one node of its kind with the options requested",
    "statement": "`<< image`, `<< mau`, `<< raw`, `<< toc`, `<< footnotes` and `<< blockgroup` each give, at their place, exactly one node of their own type, and any other word a generic include node with that word as content type; a text that comes after the line is another element. Arguments are inline (after a `:` on the same line) or boxed, and both together are an error: `uri`, `alt_text` and `classes` (split at the commas) of images, the `uri` of mau and raw and the `group` of blockgroup, given by position in this order or by name, become unchanged the fields of the node (None or no classes when missing), and all the other arguments, with tags and subtype, stay in the arguments of the node. The lack of the URI or of the group, and a file that cannot be read, are errors located at the include.",
    "quantifier": {"over": ["inputs"], "text": "every kind of include, every way to give its arguments, every value"},
    "why_tests_cant": "Tests show each include with some arguments; that no argument is lost, mixed or left behind holds for all the combinations of positional, named, inline and boxed arguments.",
    "anchors": {
        "files": ["mau/parsers/document_processors/include.py", "mau/nodes/include.py"],
        "state": ["arguments_buffer"],
        "mechanism": [{"name": "include_processor", "where": "mau/parsers/document_processors/include.py"}],
        "observe_at": ["nodes of the document"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the document parser on includes of every kind with unknown values of the arguments, given in all the ways, and on documents with included files of known content"
LEVEL_NOTE = "The arguments of each include are known in number, names and position, their values are unknown; the text of the arguments is parsed by the arguments parser (P29), the nodes of Mau files are those of the nested parser (P11), the lines of raw files are decided by P31."
EXPLANATION = "For each include the abstract node must have the class, the fields and the remaining arguments called for, and nothing else may be in the document."
ASSUMPTIONS = ["the lexer gives the word and the rest of the line as two tokens (P15)"]

CLASSES = {"image": "IncludeImageNode", "mau": "IncludeMauNode", "raw": "IncludeRawNode", "toc": "TocNode", "footnotes": "FootnotesNode", "blockgroup": "BlockGroupNode"}
FIELDS = {"image": ("uri", "alt_text", "classes"), "mau": ("uri",), "raw": ("uri",), "toc": (), "footnotes": (), "blockgroup": ("name",)}


def args(unnamed=(), named=None, tags=(), subtype=None):
    return (list(unnamed), dict(named or {}), list(tags), subtype)


NO = args()
CASES = [
    # kind, arguments, fields, arguments left
    ("image", "%u", ("$u", None, []), NO),
    ("image", "%u, %alt", ("$u", "$alt", []), NO),
    ("image", '%u, %alt, "c1,c2"', ("$u", "$alt", ["c1", "c2"]), NO),
    ("image", "%u, %alt, c1", ("$u", "$alt", ["c1"]), NO),
    ("image", "uri=%u", ("$u", None, []), NO),
    ("image", "uri=%u, alt_text=%alt", ("$u", "$alt", []), NO),
    ("image", 'classes="c1,c2,c3", alt_text=%alt, uri=%u', ("$u", "$alt", ["c1", "c2", "c3"]), NO),
    ("image", "%u, classes=c1", ("$u", None, ["c1"]), NO),
    ("image", "%u, classes=c1, %x", None, None),
    ("image", "%alt, uri=%u", None, None),
    ("image", "%u, alt_text=%alt, width=%w", ("$u", "$alt", []), args(named={"width": "$w"})),
    ("image", "%u, %alt, c1, %x, %y", ("$u", "$alt", ["c1"]), args(["$x", "$y"])),
    ("image", "%u, #t1, *s, #t2, k=%v", ("$u", None, []), args(named={"k": "$v"}, tags=["t1", "t2"], subtype="s")),
    ("image", "uri=%u, src=%s, alt=%a, name=%n", ("$u", None, []), args(named={"src": "$s", "alt": "$a", "name": "$n"})),
    ("mau", "%u", ("$u",), NO),
    ("mau", "uri=%u", ("$u",), NO),
    ("mau", "%u, %x", ("$u",), args(["$x"])),
    ("mau", "%u, pass_environment=false", ("$u",), NO),
    ("mau", "%u, call:a=%v, b=%w, *s, #t", ("$u",), args(named={"b": "$w"}, tags=["t"], subtype="s")),
    ("mau", "%u, call:a=%v, call:b=%w", ("$u",), NO),
    ("raw", "%u", ("$u",), NO),
    ("raw", "uri=%u", ("$u",), NO),
    ("raw", "%u, %x, k=%v, #t, *s", ("$u",), args(["$x"], {"k": "$v"}, ["t"], "s")),
    ("toc", None, (), NO),
    ("toc", "%x, k=%v, #t, *s", (), args(["$x"], {"k": "$v"}, ["t"], "s")),
    ("footnotes", None, (), NO),
    ("footnotes", "%x, k=%v, #t, *s", (), args(["$x"], {"k": "$v"}, ["t"], "s")),
    ("blockgroup", "%g", ("$g",), NO),
    ("blockgroup", "group=%g", ("$g",), NO),
    ("blockgroup", "%g, %x, k=%v, #t, *s", ("$g",), args(["$x"], {"k": "$v"}, ["t"], "s")),
    ("custom", None, ("custom",), NO),
    ("custom", "%x, %y, k=%v, uri=%u, #t, *s", ("custom",), args(["$x", "$y"], {"k": "$v", "uri": "$u"}, ["t"], "s")),
    ("my.own_2", "%x", ("my.own_2",), args(["$x"])),
    ("images", "%x", ("images",), args(["$x"])),
]
MISSING = [
    ("image", None), ("image", "alt_text=%a"), ("image", "uri="), ("mau", None), ("mau", "k=%v"), ("raw", None), ("raw", "#t, *s"), ("blockgroup", None), ("blockgroup", "k=%v"), ("blockgroup", "name=%v"),
]


def node_view(o, v, kind):
    """Class, fields and arguments of a node."""
    cls = class_name(o, v)
    names = FIELDS.get(kind, ("ctype",))
    if cls not in (CLASSES.get(kind, "IncludeNode"),):
        return (cls,)
    fields = tuple(known(o, o.get(v, n)) for n in names)
    a = o.get(v, "arguments")
    left = tuple(known(o, o.get(a, n)) for n in ("unnamed_args", "named_args", "tags", "subtype"))
    return (cls, fields, left)


def known(o, v):
    try:
        return const(o, v)
    except Unclear as exc:
        return exc


def agrees(got, want):
    """True, False, or None when the parts that are known agree and others are unknown."""
    if isinstance(got, Unclear):
        return None
    if isinstance(got, tuple) and isinstance(want, tuple):
        if len(got) != len(want):
            return False
        rs = [agrees(g, w) for g, w in zip(got, want)]
        return False if False in rs else None if None in rs else True
    return got == want


def lines(kind, a, boxed):
    pre = [[("TEXT", "before")], [EOL]]
    post = [[EOL], [("TEXT", "after")], [EOL]]
    if a and boxed:
        return pre + [arguments(a), include(kind)] + post
    return pre + [include(kind, a)] + post


def check(ctx):
    prog = ctx.prog
    included.analyse(ctx, included.accepted("included files", trees.compare_trees) + included.refused("absent files", included.at, ("a file that does not exist", "a raw file that does not exist")))
    docs = {}
    for i, (kind, a, fields, left) in enumerate(CASES):
        for boxed in (False, True) if a else (False,):
            docs[(i, boxed)] = Doc(*lines(kind, a, boxed), setup="parser.blockgroup_manager.process = lambda: None" if kind == "blockgroup" else "", returns="parser.nodes")
    fs = programs(prog, docs)
    for (i, boxed), fi in fs.items():
        kind, a, fields, left = CASES[i]
        if fields is None:
            continue
        cons = f"{kind} {'boxed' if boxed else 'inline'} {a or ''}".strip()
        for o in outcomes(ctx, "node", cons, fi):
            if o.exc is not None:
                reading = kind in ("mau", "raw") and o.exc_name == "MauException"
                if not reading:
                    ctx.check("node", cons, False, f"{o.exc_name} is raised", o.where(), o.path_text)
                else:
                    located(ctx, "unreadable file", cons, o, 3 if boxed else 2)
                continue
            try:
                ns = elements(o, o.value)
                got = [class_name(o, n) if class_name(o, n) == "ParagraphNode" else node_view(o, n, kind) for n in ns]
            except Unclear as exc:
                ctx.check("node", cons, None, str(exc), o.where())
                continue
            want = ["ParagraphNode", (CLASSES.get(kind, "IncludeNode"), fields, left), "ParagraphNode"]
            ctx.check("node", cons, agrees(tuple(got), tuple(want)), f"the document contains {got} instead of {want}", o.where(), o.path_text)
    missing(ctx)
    both(ctx)
    nextline(ctx)
    unreadable(ctx)


def outcomes(ctx, rule, cons, fi, partial=True):
    ip, outs = explore(ctx, fi)
    if outs is None:
        ctx.check(rule, cons, None, "out of budget")
        return []
    ctx.need("coverage", cons, bool(outs), "no outcome")
    if partial:
        for exc, desc, f, nd, where, stack, facts in ip.partials:
            if "rec(" not in desc and "phi(" not in desc and not desc.startswith("open("):
                ctx.check(rule, cons, None, f"{exc}: {desc}", where)
    # a path where reading the file is refused is not a result
    return outs


def located(ctx, rule, cons, o, line):
    c = o.get(o.st.exc.value, "message", "context") if o.st.exc.value is not None else None
    try:
        if c is None:
            raise Unclear("no message")
        if o.snap(c) == NONE:
            ctx.check(rule, cons, False, "the error has no position", o.where(), o.path_text)
            return
        got = (const(o, o.get(c, "start_line")), const(o, o.get(c, "source")))
    except Unclear as exc:
        ctx.check(rule, cons, None, str(exc), o.where())
        return
    ctx.check(rule, cons, got == (line, "main.mau"), f"the error is located at line {got[0]} of {got[1]}", o.where(), o.path_text)


def missing(ctx):
    fs = programs(ctx.prog, {(k, a): Doc(*lines(k, a, False), returns="parser.nodes") for k, a in MISSING})
    for (k, a), fi in fs.items():
        cons = f"{k} {a or ''}".strip()
        for o in outcomes(ctx, "missing", cons, fi, partial=False):
            ctx.check("missing", cons, o.exc_name == "MauException", "no error is raised" if o.exc is None else f"{o.exc_name} is raised", o.where(), o.path_text)
            if o.exc_name == "MauException":
                located(ctx, "missing located", cons, o, 2)


def both(ctx):
    kinds = [("image", "%u"), ("mau", "%u"), ("raw", "%u"), ("toc", "%x"), ("footnotes", "#t"), ("blockgroup", "%g"), ("custom", "%x")]
    docs = {(k, b): Doc(arguments(b), include(k, a), [EOL], returns="parser.nodes") for k, a in kinds for b in (a, "k=%v")}
    for (k, b), fi in programs(ctx.prog, docs).items():
        cons = f"{k} after [{b}]"
        for o in outcomes(ctx, "both", cons, fi, partial=False):
            ctx.check("both", cons, o.exc_name == "MauException", "no error is raised" if o.exc is None else f"{o.exc_name} is raised", o.where(), o.path_text)
            if o.exc_name == "MauException":
                located(ctx, "both located", cons, o, 1)


def nextline(ctx):
    """A text on the line after an include is a paragraph."""
    docs = {}
    for k in ("toc", "footnotes", "custom"):
        docs[k] = Doc(include(k), [("TEXT", "after")], [EOL], returns="parser.nodes")
        docs[k + " with arguments"] = Doc(include(k, "%x"), [("TEXT", "after")], [EOL], returns="parser.nodes")
        docs[k + " with a colon"] = Doc(include(k) + [("LITERAL", ":")], [("TEXT", "after")], [EOL], returns="parser.nodes")
    for k, fi in programs(ctx.prog, docs).items():
        for o in outcomes(ctx, "next line", k, fi):
            if k.endswith("colon") and o.exc_name == "MauException":
                ctx.check("next line", k, True)
                continue
            if o.exc is not None:
                ctx.check("next line", k, False, f"{o.exc_name} is raised", o.where(), o.path_text)
                continue
            try:
                got = [class_name(o, x) for x in elements(o, o.value)]
            except Unclear as exc:
                ctx.check("next line", k, None, str(exc), o.where())
                continue
            ctx.check("next line", k, len(got) == 2 and got[1] == "ParagraphNode", f"the nodes are {got}", o.where(), o.path_text)


def unreadable(ctx):
    """Errors of open() and of the decoding become located errors."""
    for k in ("mau", "raw"):
        fi = programs(ctx.prog, {k: Doc(include(k, "%u"), [EOL], returns="parser.nodes")})[k]
        ip, outs = explore(ctx, fi)
        bad = [o for o in outs or () if o.exc is not None]
        for exc, desc, f, nd, where, stack, facts in ip.partials:
            if exc in ("OSError", "FileNotFoundError", "UnicodeDecodeError", "ValueError") and desc.startswith("open("):
                ctx.check("unreadable file", k, False, f"{exc} is not caught: {desc}", where)
        for o in bad:
            ctx.check("unreadable file", k, o.exc_name == "MauException", f"{o.exc_name} is raised", o.where(), o.path_text)
            if o.exc_name == "MauException":
                located(ctx, "unreadable located", k, o, 0)
