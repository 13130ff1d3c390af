"""P15: the lexer of documents."""

from __future__ import annotations

from ..chars import text, unknown
from . import lexing
from .documents import Unclear

PROPERTY = {
    "id": "P15",
    "title": "Every line of a document becomes the tokens of its kind, none is lost",
    "statement": "Each line of a document becomes the tokens of the element that its first characters announce (rule, control, include, variable, arguments, label, list item, header, block delimiter, else text), each with exactly the text written and its exact position; only comments and the blanks between the parts of a line have no token, and the text ends with one EOF token. The lines between two equal delimiters become one text token, unchanged, whatever they contain. A block or a multiline comment that is never closed is an error located where it was opened.",
    "quantifier": {"over": ["inputs"], "text": "every sequence of lines, every character in each part of each line"},
    "why_tests_cant": "Tests lex some lines with some texts; that nothing else in a text changes how a line is recognised, and that no character or position is lost, holds for every character.",
    "anchors": {
        "files": ["mau/lexers/document_lexer.py", "mau/lexers/base_lexer.py", "mau/text_buffer.py"],
        "state": ["TextBuffer.line", "TextBuffer.column", "BaseLexer.tokens"],
        "mechanism": [{"name": "DocumentLexer", "where": "mau/lexers/document_lexer.py"}, {"name": "BaseLexer._process", "where": "mau/lexers/base_lexer.py"}],
        "observe_at": ["tokens of the lexer"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the document lexer over abstract characters (classes of characters, regular expressions decided on classes)"
LEVEL_NOTE = "The length of each line is known, its characters are classes: the outcome holds for every character of each class. Regular expressions and text methods are decided on the classes; what depends on the character is undecided and reported as such."
EXPLANATION = "The abstract tokens of each document must be exactly the expected ones, in type, text, position and source."
ASSUMPTIONS = ["the tokens of a line do not depend on how long a run of characters of the same class is"]


class Line:
    """A line (or the lines of a block) and the tokens it must give: (type,
    text, column) each, or (type, text, line, column, end line, end column)."""

    def __init__(self, s, *tokens):
        self.s = s
        self.tokens = tokens


def L(spec, *tokens):
    """`spec` with unknown characters; a token is (type, start, end), columns of
    the line."""
    s = text(spec)
    return Line(s, *[(t, s[a:b], a) for t, a, b in tokens])


def whole(spec, kind="TEXT"):
    s = text(spec)
    return Line(s, (kind, s, 0))


def fenced(fence, lines):
    n = len(lines)
    ts = [("BLOCK", fence, 0, 0, 0, 4)]
    if lines:
        ts.append(("TEXT", "\n".join(lines), 1, 0, n, len(lines[-1])))
    ts.append(("BLOCK", fence, n + 1, 0, n + 1, 4))
    return Line("\n".join([fence, *lines, fence]), *ts)


FORMS = {
    "empty line": whole("", "EOL"),
    "blank line": whole("   ", "EOL"),
    "comment": L("//<any:3>"),
    "comment of slashes": L("/////"),
    "horizontal rule": whole("---", "HORIZONTAL_RULE"),
    "almost a rule": whole("---<plain>"),
    "almost a rule (blank)": whole("--- "),
    "two dashes": whole("--"),
    "control": L("@<lower:2> <solid><any:3>", ("CONTROL", 0, 1), ("TEXT", 1, 3), ("TEXT", 4, 8)),
    "control, blanks": L("@<lower:4>   <solid><any>", ("CONTROL", 0, 1), ("TEXT", 1, 5), ("TEXT", 8, 10)),
    "control alone": L("@<lower:3>", ("CONTROL", 0, 1), ("TEXT", 1, 4), ("TEXT", 4, 4)),
    "not a control": whole("@<upper><any:2>"),
    "not a control (blank)": whole("@ <any:3>"),
    "include": L("<< <lower><digit>_#.:<any:3>", ("INCLUDE", 0, 2), ("TEXT", 3, 8), ("LITERAL", 8, 9), ("TEXT", 9, 12)),
    "include, no blank": L("<<<lower:3>:<any>", ("INCLUDE", 0, 2), ("TEXT", 2, 5), ("LITERAL", 5, 6), ("TEXT", 6, 7)),
    "include, blanks": L("<<   <lower:3>", ("INCLUDE", 0, 2), ("TEXT", 5, 8)),
    "include, no arguments": L("<< <lower:3>:", ("INCLUDE", 0, 2), ("TEXT", 3, 6), ("LITERAL", 6, 7)),
    "include, colons": L("<< <lower:2>::<any>", ("INCLUDE", 0, 2), ("TEXT", 3, 5), ("LITERAL", 5, 6), ("TEXT", 6, 8)),
    "include, blanks kept": L("<< <lower:2>:  <plain> <plain> ", ("INCLUDE", 0, 2), ("TEXT", 3, 5), ("LITERAL", 5, 6), ("TEXT", 6, 12)),
    "include, words": L("<<<lower:2>:<word>:<word>", ("INCLUDE", 0, 2), ("TEXT", 2, 4), ("LITERAL", 4, 5), ("TEXT", 5, 8)),
    "not an include": whole("<< <upper><any>"),
    "variable": L(":<word:3>:<any:3>", ("VARIABLE", 0, 1), ("TEXT", 1, 4), ("LITERAL", 4, 5), ("TEXT", 5, 8)),
    "variable, marks": L(":+<letter>.<digit>-_:<any>", ("VARIABLE", 0, 1), ("TEXT", 1, 7), ("LITERAL", 7, 8), ("TEXT", 8, 9)),
    "variable, colons": L(":<word>::<any>:", ("VARIABLE", 0, 1), ("TEXT", 1, 2), ("LITERAL", 2, 3), ("TEXT", 3, 6)),
    "variable, blanks": L(":<word>:  <any> ", ("VARIABLE", 0, 1), ("TEXT", 1, 2), ("LITERAL", 2, 3), ("TEXT", 3, 7)),
    "variable, words": L(":<word>:<word>:<word>", ("VARIABLE", 0, 1), ("TEXT", 1, 2), ("LITERAL", 2, 3), ("TEXT", 3, 6)),
    "variable, no value": L(":<word:2>:", ("VARIABLE", 0, 1), ("TEXT", 1, 3), ("LITERAL", 3, 4)),
    "not a variable": whole(": <any:2>"),
    "arguments": L("[<any:3>]", ("ARGUMENTS", 0, 1), ("TEXT", 1, 4), ("LITERAL", 4, 5)),
    "arguments, blanks": L("[ <solid> ]", ("ARGUMENTS", 0, 1), ("TEXT", 1, 4), ("LITERAL", 4, 5)),
    "arguments, closing bracket": L("[<solid>]]", ("ARGUMENTS", 0, 1), ("TEXT", 1, 3), ("LITERAL", 3, 4)),
    "arguments, brackets": L("[<any>]<any>]", ("ARGUMENTS", 0, 1), ("TEXT", 1, 4), ("LITERAL", 4, 5)),
    "no arguments": L("[]", ("ARGUMENTS", 0, 1), ("TEXT", 1, 1), ("LITERAL", 1, 2)),
    "not arguments": whole("[<plain>](<plain>)"),
    "label": L(". <solid><any:2>", ("LABEL", 0, 1), ("TEXT", 2, 5)),
    "label, role": L(".<lower><digit>-_   <solid><any>", ("LABEL", 0, 5), ("TEXT", 8, 10)),
    "label, no blank": L(".<upper><any:2>", ("LABEL", 0, 1), ("TEXT", 1, 4)),
    "label, no text": L(".<lower:2>", ("LABEL", 0, 3), ("TEXT", 3, 3)),
    "list item": L("* <solid><any:3>", ("LIST", 0, 1), ("TEXT", 2, 6)),
    "list item, numbered": L("#  <solid><any:3>", ("LIST", 0, 1), ("TEXT", 3, 7)),
    "list item, nested": L("***  <solid><any>", ("LIST", 0, 3), ("TEXT", 5, 7)),
    "list item, mixed": L("*## <solid><any>", ("LIST", 0, 3), ("TEXT", 4, 6)),
    "list item, indented": L("   ** <solid>", ("LIST", 3, 5), ("TEXT", 6, 7)),
    "not a list item": whole("*<plain><any:2>"),
    "not a list item (nested)": whole("**<plain><any:2>"),
    "header": L("= <solid><any:3>", ("HEADER", 0, 1), ("TEXT", 2, 6)),
    "header, no blank": L("=<plain><any>", ("HEADER", 0, 1), ("TEXT", 1, 3)),
    "header, nested": L("====   <solid><any>", ("HEADER", 0, 4), ("TEXT", 7, 9)),
    "header, deep": L("=======<plain>", ("HEADER", 0, 7), ("TEXT", 7, 8)),
    "header, blanks": L("= <solid>  <solid>  ", ("HEADER", 0, 1), ("TEXT", 2, 8)),
    "list item, blanks": L("* <solid>  <solid>  ", ("LIST", 0, 1), ("TEXT", 2, 8)),
    "label, blanks": L(".<lower> <solid>  <solid>  ", ("LABEL", 0, 2), ("TEXT", 3, 9)),
    "control, blanks kept": L("@<lower> <solid>  <solid>  ", ("CONTROL", 0, 1), ("TEXT", 1, 2), ("TEXT", 3, 9)),
    "header, equal signs": L("== <plain>= =", ("HEADER", 0, 2), ("TEXT", 3, 7)),
    "not a header": whole("="),
    "text": whole("<start><any:5>"),
    "text, one character": whole("<start>"),
    "text, three characters": whole("<start><any:2>"),
    "text, indented": whole("  <start><any:2>"),
    "text, blanks": whole("<start>  <any>  "),
    "text, marks inside": whole("<start>=*#:@[]<.//----"),
}
X = unknown("fence") * 4
ANY = text("<any:7>")
SOME = text("<start:5>")
BLOCKS = {
    "block": fenced("----", [ANY]),
    "block, any delimiter": fenced(X, [ANY]),
    "block, lines": fenced("++++", [ANY, "", "   ", ANY[:3]]),
    "block, empty": fenced("!!!!", []),
    "block, empty line": fenced("****", [""]),
    "block, empty line last": fenced("====", [ANY, ""]),
    "block, almost closed": fenced("####", ["###", "#####", " ####", "#### ", "###a"]),
    "block, other blocks": fenced("----", ["++++", ANY, "++++", "****"]),
    "block, everything": fenced("::::", ["////", "// a", "= h", "* i", ":a:b", "[x]", "<< toc", "@if", ". t", "---", "  x  "]),
    **{f"block {f!r}": fenced(f, [SOME, "", SOME]) for f in ("aaaa", "0000", "____", "\u00e9" * 4, "@@@@", "[[[[", "....", "<<<<")},
    "block, one line": fenced("----", [SOME]),
    "block, text and empty lines": fenced("----", ["", SOME, "", SOME, ""]),
    "block, indented text": fenced("----", ["  " + SOME, SOME + "  "]),
    "multiline comment": Line("////\n" + "\n".join([ANY, "", "// x", "= h", "----", "/////", "///"]) + "\n////"),
    "multiline comment, empty": Line("////\n////"),
}
UNCLOSED = {
    "block": ("----\n" + ANY, 0),
    "block, alone": ("----", 0),
    "block, empty end": ("++++\n" + ANY + "\n", 0),
    "block, after lines": ("a\n\n****\nb\n*****", 2),
    "block, second": ("----\na\n----\n----\nb", 3),
    "block, other closed": ("----\n++++\na\n++++", 0),
    "comment": ("////\n" + ANY, 0),
    "comment, alone": ("////", 0),
    "comment, after lines": ("a\n" + "////\nb\n//// \n", 1),
    "comment, second": ("////\n////\nb\n////\n----", 3),
}


def placed(forms, line=0, col=0):
    """Tokens of the lines one after the other."""
    out = []
    i = 0
    for f in forms:
        for t in f.tokens:
            c = col if i == 0 else 0
            if len(t) == 3:
                out.append((t[0], t[1], (line + i, c + t[2], line + i, c + t[2] + len(t[1]))))
            else:
                a, b, d, e = t[2:]
                out.append((t[0], t[1], (line + i + a, c * (i + a == 0) + b, line + i + d, c * (i + d == 0) + e)))
        i += f.s.count("\n") + 1
    return out


def documents():
    """Each kind of line alone, then all of them in one document."""
    out = {}
    every = {**FORMS, **BLOCKS}
    for k, f in every.items():
        for name, fs in ((k, [f]), (f"{k}, then text", [f, whole("<start:2>")])):
            s = "\n".join(x.s for x in fs)
            if not s:
                continue
            if fs[-1].s == "" and len(fs) > 1:
                continue
            out[name] = (s, fs)
    names = list(every)
    n = len(names)
    for step in (1, 5):
        # two orders of all the kinds, in documents of nine kinds
        order = [names[(i * step) % n] for i in range(n)] if n % step else names[::-1]
        for i in range(0, n, 9):
            part = order[i : i + 9]
            fs = [every[k] for k in part] + [whole("<start:2>")]
            out[f"document {step}.{i // 9}"] = ("\n".join(x.s for x in fs), fs)
    return out


def check(ctx):
    docs = documents()
    cases = {}
    for k, (s, fs) in docs.items():
        cases[k, 0, 0] = ("DocumentLexer", s, 0, 0)
    for k in ("header, then text", "block, lines, then text", "include, then text", "text"):
        cases[k, 7, 4] = ("DocumentLexer", docs[k][0], 7, 4)
    fs = lexing.programs(ctx.prog, cases)
    for (k, line, col), fi in fs.items():
        want = placed(docs[k][1], line, col)
        cons = k if not line else f"{k} at {line},{col}"
        lexing.judge(ctx, ("tokens", "positions"), cons, fi, want)
    ends(ctx)
    unclosed(ctx)


def ends(ctx):
    """Line feeds at the end add no more than empty lines."""
    cases = {
        "line feed": ("<start>\n", ["<start>"]),
        "two line feeds": ("<start>\n\n", ["<start>", ""]),
        "nothing": ("", []),
        "only line feeds": ("\n\n", ["", ""]),
    }
    fs = lexing.programs(ctx.prog, {k: ("DocumentLexer", text(s), 0, 0) for k, (s, _) in cases.items()})
    for k, fi in fs.items():
        forms = [whole(x) if x else whole("", "EOL") for x in cases[k][1]]
        lexing.judge(ctx, ("end", "end position"), k, fi, placed(forms))


def unclosed(ctx):
    fs = lexing.programs(ctx.prog, {k: ("DocumentLexer", s, 0, 0) for k, (s, _) in UNCLOSED.items()})
    for k, fi in fs.items():
        ip, outs = lexing.explore(ctx, fi)
        if outs is None:
            ctx.check("unclosed", k, None, "out of budget")
            continue
        ctx.need("coverage", k, bool(outs), "no outcome")
        for o in outs:
            ok = o.exc_name == "MauException" if o.exc is not None else False
            if not ok and len(outs) > 1:
                ok = None
            ctx.check("unclosed", k, ok, "no error is raised" if o.exc is None else f"{o.exc_name} is raised", o.where(), o.path_text)
            if ok:
                located(ctx, k, o, UNCLOSED[k][1])


def located(ctx, k, o, line, rule="unclosed located"):
    try:
        m = o.get(o.exc.value, "message")
        got = tuple(lexing.plain(o, x) for x in o.get(m, "position").items)
        src = lexing.plain(o, o.get(m, "source"))
    except (Unclear, AttributeError, TypeError) as exc:
        ctx.check(rule, k, None, str(exc), o.where())
        return
    ctx.check(rule, k, got == (line, 0) and src == lexing.SOURCE, f"the error is located at {got} of {src} instead of {(line, 0)}", o.where(), o.path_text)
