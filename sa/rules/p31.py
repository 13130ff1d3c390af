"""P31: lines of raw and source content."""

from __future__ import annotations

from ..absint import K, NONE, R, S
from ..model import depends, short, subterms, var
from .documents import EOL, Doc, Unclear, arguments, block, class_name, const, elements, explore, include, judge, programs

PROPERTY = {
    "id": "P31",
    "title": "Raw and source content keeps every line, only markers are taken out",
    "statement": "The content of a raw block, of a source block and of a raw include gives one line node for each of its lines, in order and with unchanged text (nothing in it is parsed, stripped or replaced, empty lines stay), where source lines are numbered from 1. Only the source lines that end with `:LABEL:`, where LABEL is not empty and `:` can be changed with `marker_delimiter`, lose that ending and get a marker with that label; when the label starts with `@` (or `highlight_marker`) they get instead the highlight style that follows it (`highlight_default_style` or `default` if nothing follows), replaced by its alias in `mau.parser.source_highlight_style_aliases` if there is one. The language of a source block is the argument `language`, given by name or as first unnamed one, and `text` by default.",
    "quantifier": {"over": ["inputs"], "text": "every content, every delimiter and prefix, every alias"},
    "why_tests_cant": "Tests show a few lines of code; that no line gets lost or changed holds for every content, and markers depend on endings that appear by chance in real code.",
    "anchors": {
        "files": ["mau/parsers/document_processors/block_engines/raw.py", "mau/parsers/document_processors/block_engines/source.py", "mau/parsers/document_processors/include.py", "mau/nodes/source.py"],
        "state": [],
        "mechanism": [{"name": "parse_raw_engine, parse_source_engine", "where": "mau/parsers/document_processors/block_engines"}, {"name": "include_processor", "where": "mau/parsers/document_processors/include.py"}],
        "observe_at": ["content of RawNode, SourceNode, IncludeRawNode"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the document parser on blocks of unknown content (one line node for each line, on every path of the loop) and on contents with all the kinds of endings"
LEVEL_NOTE = "For unknown content the rule proves that each line gives exactly one node and, without a final delimiter, that its text is the line itself; what a marker takes out is decided on lines of known text that cover the kinds of endings."
EXPLANATION = "The loop over the lines must range over the whole split content and every alternative of its body must add one line node; on contents of known lines the abstract nodes must be those the statement calls for."
ASSUMPTIONS = ["the lexer gives the content of a block as a single TEXT token (P15)"]

ALIASES = '{"mau": {"parser": {"source_highlight_style_aliases": {"+": "add", "default": "dflt", "x": "error"}}}}'


def line(text, marker=None, style=None):
    return (text, marker, style)


TRICKY = "a\n\n  b  \n\tc\\n{v} _d_ `e` \\x\n# f\n[g](h)\n//// i\n"

SOURCE = [
    # name, arguments, environment, content, lines, language
    ("plain", "engine=source", "", TRICKY, [line(x) for x in TRICKY.split("\n")], "text"),
    ("one line", "engine=source", "", "a", [line("a")], "text"),
    ("variables are not replaced", "engine=source", '{"v": "value"}', "{v}\n{{v}}", [line("{v}"), line("{{v}}")], "text"),
    ("language", "engine=source, language=python", "", "a", [line("a")], "python"),
    ("first argument", "python, engine=source", "", "a", [line("a")], "python"),
    ("markers", "engine=source", "", "a:1:\nb\nc :two words:\n:3:\n  d():end:", [line("a", "1"), line("b"), line("c ", "two words"), line("", "3"), line("  d()", "end")], "text"),
    ("delimiters in the line", "engine=source", "", "a:b:1:\nx = {1: 2}:z:\nf::1:", [line("a:b", "1"), line("x = {1: 2}", "z"), line("f:", "1")], "text"),
    ("no marker", "engine=source", "", "def f():\n:\nx:1\n:x\na: 1", [line("def f():"), line(":"), line("x:1"), line(":x"), line("a: 1")], "text"),
    ("empty label", "engine=source", "", "std::\n::\n a :: b ::", [line("std::"), line("::"), line(" a :: b ::")], "text"),
    ("highlight", "engine=source", "", "a:@:\nb:@add:\n c:@x y:", [line("a", None, "default"), line("b", None, "add"), line(" c", None, "x y")], "text"),
    ("highlight, default style", "engine=source, highlight_default_style=hl", "", "a:@:\nb:@add:", [line("a", None, "hl"), line("b", None, "add")], "text"),
    ("highlight, aliases", "engine=source", ALIASES, "a:@+:\nb:@:\nc:@x:\nd:@add:\ne:+:", [line("a", None, "add"), line("b", None, "dflt"), line("c", None, "error"), line("d", None, "add"), line("e", "+")], "text"),
    ("highlight, marker", "engine=source, highlight_marker=!!", "", "a:!!zz:\nb:@x:\nc:!x:\nd:!!:", [line("a", None, "zz"), line("b", "@x"), line("c", "!x"), line("d", None, "default")], "text"),
    ("delimiter", "engine=source, marker_delimiter=|", "", "a|1|\nb:1:\nc|@|\nd||", [line("a", "1"), line("b:1:"), line("c", None, "default"), line("d||")], "text"),
    ("long delimiter", "engine=source, marker_delimiter=::", "", "a::1::\nb:1:\nc::d::2::\ne::@zz::", [line("a", "1"), line("b:1:"), line("c::d", "2"), line("e", None, "zz")], "text"),
    ("at inside", "engine=source", "", "a:x@y:\nb@:\nc:@@:", [line("a", "x@y"), line("b@:"), line("c", None, "@")], "text"),
]

def nodes(o):
    return elements(o, o.value)


def source_view(o):
    ns = nodes(o)
    if len(ns) != 1 or class_name(o, ns[0]) != "SourceNode":
        return [class_name(o, n) for n in ns]
    res, numbers = [], []
    for x in elements(o, o.get(ns[0], "content")):
        if class_name(o, x) != "SourceLineNode":
            raise Unclear("a line")
        m = o.get(x, "marker")
        mark = const(o, m) if o.obj(m) is None else const(o, o.get(m, "value"))
        res.append((const(o, o.get(x, "line_content")), mark, const(o, o.get(x, "highlight_style"))))
        numbers.append(const(o, o.get(x, "line_number")))
    return res, numbers, const(o, o.get(ns[0], "language"))


def raw_view(o):
    ns = nodes(o)
    if len(ns) != 1 or class_name(o, ns[0]) != "RawNode":
        return [class_name(o, n) for n in ns]
    return [const(o, o.get(x, "value")) for x in elements(o, o.get(ns[0], "content"))]


def check(ctx):
    prog = ctx.prog
    docs = {}
    for n, a, env, content, want, lang in SOURCE:
        docs[n] = Doc(arguments(a), block(content), [EOL], env=env, returns="parser.nodes")
    fs = programs(prog, docs)
    for n, a, env, content, want, lang in SOURCE:
        exp = (want, [str(i + 1) for i in range(len(want))], lang)
        judge(ctx, "source", n, fs[n], exp, source_view)
    texts = {"lines": TRICKY, "one line": "a", "spaces": "  \n\n\n a ", "markers": "a:1:\nb:@x:\n::"}
    fs = programs(prog, {n: Doc(arguments("engine=raw"), block(t), [EOL], env='{"v": "value"}', returns="parser.nodes") for n, t in texts.items()})
    for n, t in texts.items():
        judge(ctx, "raw", n, fs[n], t.split("\n"), raw_view)
    fs = programs(prog, {
        "raw": Doc(arguments("engine=raw"), block(""), [EOL], returns="parser.nodes"),
        "source": Doc(arguments("engine=source"), block(""), [EOL], returns="parser.nodes"),
    })
    for n, cls in (("raw", "RawNode"), ("source", "SourceNode")):
        judge(ctx, "empty", n, fs[n], [(cls, 0)], lambda o: [(class_name(o, x), len(elements(o, o.get(x, "content")))) for x in nodes(o)])
    whole(ctx)


def whole(ctx):
    """Unknown content."""
    prog = ctx.prog
    fs = programs(prog, {
        "raw": Doc(arguments("engine=raw"), block("$a"), [EOL], returns="parser.nodes"),
        "source": Doc(arguments("engine=source"), block("$a"), [EOL], returns="parser.nodes"),
        "include": Doc(include("raw", "dir/file.txt"), [EOL], returns="parser.nodes"),
    })
    for n, cls, lcls, field in (("raw", "RawNode", "RawLineNode", "value"), ("source", "SourceNode", "SourceLineNode", "line_content"), ("include", "IncludeRawNode", "RawLineNode", "value")):
        ip, outs = explore(ctx, fs[n])
        seen = False
        for o in outs or ():
            if o.exc is not None:
                # the file cannot be read
                ctx.check("whole", n, n == "include" and o.exc_name == "MauException" or None, f"{o.exc_name} is raised", o.where(), o.path_text)
                continue
            try:
                ns = nodes(o)
                ps = o.parts(o.get(ns[0], "content"))
            except (Unclear, IndexError):
                ps = None
            if ps is None:
                ctx.check("whole", n, None, "", o.where())
                continue
            if not ps and feasible_empty(o):
                continue
            seen = True
            one(ctx, n, o, ps, lcls, field)
        ctx.check("whole", n, seen or None, "no path gives lines")


def feasible_empty(o):
    """split() always gives a line: a path that assumes it gives none."""
    return any(isinstance(k, S) and k.op == "truth" and v is False for k, v in o.st.facts.items())


def split_of(src):
    """The split content a loop ranges over: (text, separator)."""
    for t in subterms(src):
        if isinstance(t, S) and t.op == "split":
            return t
        if isinstance(t, S) and t.op == "splitlines":
            return t
    return None


def one(ctx, n, o, ps, lcls, field):
    where, path = o.where(), o.path_text
    if len(ps) != 1 or ps[0][0] != "each":
        bad = [q for q in ps if q[0] == "item"]
        ctx.check("whole", n, False if bad and len(ps) == len(bad) else None, f"{len(bad)} line(s) for a content of any size", where, path)
        return
    src = ps[0][1]
    sp = split_of(src)
    if any(isinstance(t, S) and t.op == "slice" for t in subterms(src)) and sp is not None:
        ctx.check("whole", n, False, f"the lines come from {short(src)}", where, path)
        return
    if sp is None:
        ctx.check("whole", n, None, "", where)
        return
    text = sp.args[0]
    plain = isinstance(text, S) and (text == var("a") or text.op in ("mret", "ret", "read", "file", "attr"))
    stripped = isinstance(text, S) and text.op in ("strip", "lstrip", "rstrip", "replace", "lower", "expandtabs", "dedent")
    sep = sp.args[1] if len(sp.args) > 1 else None
    ok = True if plain and sp.op == "split" and sep == K("\n") and len(sp.args) == 2 else None
    if stripped or sp.op == "splitlines" or (sp.op == "split" and sep != K("\n")):
        ok = False
    ctx.check("whole", n, ok, f"the lines are {short(sp)}", where, path)
    elem = S("elem", (sp,))
    for facts, sub in ps[0][2]:
        if impossible(facts, sp):
            continue
        lines = [q[1] for q in sub if q[0] == "item"]
        if any(q[0] != "item" for q in sub):
            ctx.check("line", n, None, "", where)
            continue
        ctx.check("line", n, len(lines) == 1 and class_name(o, lines[0]) == lcls or (False if len(lines) != 1 else None), f"{len(lines)} nodes for a line when {short(facts)}", where, path)
        if len(lines) != 1:
            continue
        got = o.snap(o.get(lines[0], field))
        if got == elem:
            ctx.check("text", n, True)
            continue
        marked = any(isinstance(f, S) and f.op == "endswith" and v is True for f, v in facts)
        if n == "source" and marked:
            # what is taken out is decided on the known lines
            continue
        same = isinstance(got, S) and (got.op in ("strip", "lstrip", "rstrip", "lower", "upper", "expandtabs", "replace", "slice"))
        ctx.check("text", n, False if same or isinstance(got, K) else None, f"the text of a line is {short(got)} when {short(facts)}", where, path)


def impossible(facts, sp):
    """split() never gives an empty list."""
    return any(isinstance(f, S) and f.op == "truth" and v is False and isinstance(f.args[0], S) and f.args[0].op == "split" for f, v in facts)
