"""P36: the lexers of inline text, arguments, variables and conditions."""

from __future__ import annotations

from itertools import product

from ..chars import charset, text, unknown
from . import lexing
from .documents import Unclear
from .p15 import located

PROPERTY = {
    "id": "P36",
    "title": "Inline lexers put every character in one token, at its exact position",
    "statement": "The text, arguments and variables lexers split a line into one literal token for each of their special characters (text: `~^_*`()[]\\\"$%`, arguments: `\\=,\"`, variables: `\\`{}`) and text tokens for the longest runs of other characters (blanks apart in text, one token each, and in arguments, one token for each run), so that no character is lost, changed or reordered but the blanks at the end, and each token has its exact position. A condition is a variable, `==` or `!=` and a value, without the blanks between them, and anything else is an error located at its beginning.",
    "quantifier": {"over": ["inputs"], "text": "every line, every sequence of blanks, special and other characters"},
    "why_tests_cant": "Tests lex some texts; that each character is special or not wherever it is, and that nothing is lost or displaced, holds for every character and every sequence.",
    "anchors": {
        "files": ["mau/lexers/text_lexer.py", "mau/lexers/arguments_lexer.py", "mau/lexers/preprocess_variables_lexer.py", "mau/lexers/condition_lexer.py", "mau/lexers/base_lexer.py"],
        "state": ["TextBuffer.column"],
        "mechanism": [{"name": "TextLexer", "where": "mau/lexers/text_lexer.py"}, {"name": "ArgumentsLexer", "where": "mau/lexers/arguments_lexer.py"}, {"name": "PreprocessVariablesLexer", "where": "mau/lexers/preprocess_variables_lexer.py"}, {"name": "ConditionLexer", "where": "mau/lexers/condition_lexer.py"}],
        "observe_at": ["tokens of the lexers"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the inline lexers over abstract characters (classes of characters, regular expressions decided on classes)"
LEVEL_NOTE = "Every sequence of up to four elements (blank, special characters, runs of unknown other characters) and every printable ASCII character between unknown ones; the characters of a run are unknown, its length is one or two."
EXPLANATION = "The abstract tokens of each text must be exactly those of the specification, in type, text, position and source."
ASSUMPTIONS = ["the tokens of a line do not depend on how long a run of characters of the same class is"]

SPECIAL = {"TextLexer": "~^_*`()[]\\\"$%", "ArgumentsLexer": "\\=,\"", "PreprocessVariablesLexer": "\\`{}"}
CLASS = {"TextLexer": "text", "ArgumentsLexer": "arg", "PreprocessVariablesLexer": "var"}


def reference(kind, s):
    """The tokens a line must give."""
    if s and not s.strip(" "):
        return [("EOL", s, (0, 0, 0, len(s)))]
    out = []
    i = 0
    n = len(s)
    special = SPECIAL[kind]
    blanks = kind != "PreprocessVariablesLexer"
    while i < n:
        if not s[i:].strip(" "):
            break
        j = i + 1
        if s[i] in special:
            t = "LITERAL"
        elif blanks and s[i] == " ":
            t = "TEXT" if kind == "TextLexer" else "WHITESPACE"
            while kind != "TextLexer" and s[j] == " ":
                j += 1
        else:
            t = "TEXT"
            while j < n and s[j] not in special and not (blanks and s[j] == " "):
                j += 1
        out.append((t, s[i:j], (0, i, 0, j)))
        i = j
    return out


def texts(kind):
    x, y = unknown(CLASS[kind], 0), unknown(CLASS[kind], 1)
    sp = SPECIAL[kind]
    out = {""}
    for c in map(chr, [9, *range(32, 127), 233, 0x2003, 0x1F600]):
        out |= {c, x + c + y, c + c, c + x}
    for n in (1, 2, 3, 4):
        for p in product((" ", sp[0], x + y, sp[-1]), repeat=n):
            out.add("".join(p))
    out |= {x + " " * 3 + y + "  ", "  " + x, sp + x + sp[::-1], x + " " + sp + " " + y}
    return sorted(out)


CONDITIONS = {
    "equal": ("<word:3>==<plain><plain>", (0, 3), (3, 5), (5, 7)),
    "different": ("<word:3>!=<plain><plain>", (0, 3), (3, 5), (5, 7)),
    "blanks": ("<word>  ==   <plain><plain:2>", (0, 1), (3, 5), (8, 11)),
    "blank before": ("<word> !=<plain>", (0, 1), (2, 4), (4, 5)),
    "blank after": ("<word>!= <plain>", (0, 1), (1, 3), (4, 5)),
    "marks in the name": ("<letter>.<letter>_+-<digit>==<plain>", (0, 7), (7, 9), (9, 10)),
    "comparison in the value": ("<word>==<plain>==<plain>!=", (0, 1), (1, 3), (3, 9)),
    "blanks in the value": ("<word>==<plain>  <plain>", (0, 1), (1, 3), (3, 7)),
    "no value": ("<word>==", (0, 1), (1, 3), (3, 3)),
    "no value, blank": ("<word:2> != ", (0, 2), (3, 5), (6, 6)),
    "any value": ("<word>==<solid><plain>", (0, 1), (1, 3), (3, 5)),
}
WRONG = ["<word:3>", "<word>=<plain>", "<word> <word>==<any>", "==<any>", "<word>=!<any>", "<word> = <plain>", "<odd>==<any>", "<word>!<plain>", " <word>==<plain>", "<word:2><<<any>"]


def check(ctx):
    cases, want = {}, {}
    for kind in SPECIAL:
        for s in texts(kind):
            cases[kind, s, 0, 0] = (kind, s, 0, 0)
            want[kind, s, 0, 0] = reference(kind, s)
        x = unknown(CLASS[kind]) + " " + SPECIAL[kind][0] + "b"
        cases[kind, x, 4, 9] = (kind, x, 4, 9)
        want[kind, x, 4, 9] = [(t, v, (4, 9 + p[1], 4, 9 + p[3])) for t, v, p in reference(kind, x)]
    for k, (spec, *spans) in CONDITIONS.items():
        s = text(spec)
        for at in ((0, 0), (4, 9)):
            cases["condition", k, *at] = ("ConditionLexer", s, *at)
            want["condition", k, *at] = [("TEXT", s[a:b], (at[0], at[1] + a, at[0], at[1] + b)) for a, b in spans]
    fs = lexing.programs(ctx.prog, cases)
    for key, fi in fs.items():
        kind, s, line, col = key
        cons = f"{kind} {ascii(lexing.show(s))}" + (f" at {line},{col}" if line else "")
        lexing.judge(ctx, ("tokens", "positions"), cons, fi, want[key])
    fs = lexing.programs(ctx.prog, {s: ("ConditionLexer", text(s), 0, 0) for s in WRONG})
    for s, fi in fs.items():
        ip, outs = lexing.explore(ctx, fi)
        if outs is None:
            ctx.check("not a condition", s, None, "out of budget")
            continue
        ctx.need("coverage", s, bool(outs), "no outcome")
        for o in outs:
            ok = o.exc is not None and o.exc_name == "MauException"
            ctx.check("not a condition", s, ok if ok or len(outs) == 1 else None, "no error is raised" if o.exc is None else f"{o.exc_name} is raised", o.where(), o.path_text)
            if ok:
                located(ctx, s, o, 0, "not a condition located")
