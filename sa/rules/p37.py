"""P37: the structure of inline text."""

from __future__ import annotations

from ..chars import text
from ..pool import spread
from . import trees
from .documents import Unclear
from .trees import N, T
from .doctable import TEXTS, inline_texts

PROPERTY = {
    "id": "P37",
    "title": "Inline mark-up gives the nodes it stands for, anything else is literal text",
    "statement": "In inline text a pair of markers `_`, `*`, `~` or `^` gives a style node with the parsed text between them, a pair of backticks a verbatim node with the characters between them, a pair of `$` or `%` the literal characters between them, a backslash the literal character after it, and `[name](arguments)` the node of the macro, at any depth of nesting and next to anything. Markers that are not closed, brackets that are not a macro and all the other characters are literal text, blanks included, and adjacent words are one text node.",
    "quantifier": {"over": ["inputs"], "text": "every text between markers, every sequence and nesting of mark-up, closed or not"},
    "why_tests_cant": "Tests parse some sentences; that a marker means the same whatever precedes, follows or contains it must hold for every combination and every text.",
    "anchors": {
        "files": ["mau/parsers/text_parser.py", "mau/lexers/text_lexer.py", "mau/parsers/managers/tokens_manager.py"],
        "state": ["TextParser.nodes"],
        "mechanism": [{"name": "TextParser", "where": "mau/parsers/text_parser.py"}],
        "observe_at": ["TextParser.nodes"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of lexers and parsers together, from texts with unknown characters to abstract trees of nodes compared with the specified trees"
LEVEL_NOTE = "74 texts with every marker, macro and escape, closed, open, crossed and nested, and every ordered pair of 9 elements, adjacent or separated, between words and in a style; the words are unknown characters that are in no mark-up, their length is one to three."
EXPLANATION = "The whole package is interpreted on texts whose words are unknown characters; on every path the nodes must be the specified ones."
ASSUMPTIONS = ["the nodes do not depend on how long a word of characters without mark-up is"]


def check(ctx):
    quotes(ctx)
    for rule, table in (("inline text", TEXTS), ("pair of inline elements", inline_texts())):
        cases = {k: (text(t), env, 0, 0) for k, (t, env, nodes) in table.items()}
        fs = trees.programs(ctx.prog, cases, "TextParser")

        def one(ctx, k):
            trees.judge(ctx, rule, k, fs[k], cases[k][0], table[k][2], trees.compare_trees)
        spread(ctx, table, one)


# Double quotes protect the round brackets of an argument.
QUOTED = {
    "first-argument": ('[class]("(<plain:1>)", one) <plain:1>', [N("MacroClass", (0, 0, 0, 19), classes=["one"], content=[T(0, 9, 12)]), T(0, 19, 21)]),
    "second-argument": ('[link](abc, "(<plain:1>)") <plain:1>', [N("MacroLink", (0, 0, 0, 18), target="abc", content=[T(0, 13, 16)]), T(0, 18, 20)]),
    "named-argument": ('[link](abc, text="(<plain:1>)") <plain:1>', [N("MacroLink", (0, 0, 0, 23), target="abc", content=[T(0, 18, 21)]), T(0, 23, 25)]),
}


def quotes(ctx):
    cases = {k: (text(t), None, 0, 0) for k, (t, nodes) in QUOTED.items()}
    fs = trees.programs(ctx.prog, cases, "TextParser")
    for k, (t, nodes) in QUOTED.items():
        ip, outs = trees.explore(ctx, fs[k])
        results = []
        for o in outs or ():
            try:
                trees.compare_trees(o, cases[k][0], nodes)
                results.append((True, "", o))
            except trees.Mismatch as e:
                results.append((False, str(e), o))
            except Unclear as e:
                results.append((None, str(e), o))
        every = all(r[0] is False for r in results)
        for ok, why, o in results:
            ctx.check("quotes", k, ok if ok or every else None, f"{t}: {why}", o.where(), o.path_text)
