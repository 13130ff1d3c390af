"""P13: the structure of a document."""

from __future__ import annotations

from ..chars import text
from ..pool import spread
from . import trees
from .doctable import DOCS, documents

PROPERTY = {
    "id": "P13",
    "title": "A document gives one node for each of its elements, in order, with its text",
    "statement": "Parsing a document gives exactly one node for each paragraph (consecutive lines of text, one line node each), header, list, horizontal rule, block and include, in the order of the text, with the level, text, inline content, arguments and labels written for it, and nothing else. Comments, blank lines, definitions of variables, arguments, labels, control lines and the elements excluded by them give no node of their own, and the content of a block is parsed as a document of its own with the same rules.",
    "quantifier": {"over": ["inputs"], "text": "every text of every element, every order of elements, every nesting in blocks"},
    "why_tests_cant": "Tests parse some documents with one or two elements; that no element changes, hides or absorbs another one must hold for every sequence of elements and every text.",
    "anchors": {
        "files": ["mau/parsers/document_parser.py", "mau/parsers/base_parser.py", "mau/lexers/document_lexer.py", "mau/parsers/document_processors"],
        "state": ["DocumentParser.nodes", "DocumentParser.arguments_buffer", "DocumentParser.label_buffer", "DocumentParser.control_buffer"],
        "mechanism": [{"name": "DocumentParser", "where": "mau/parsers/document_parser.py"}, {"name": "BaseParser.parse", "where": "mau/parsers/base_parser.py"}],
        "observe_at": ["DocumentParser.nodes"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of lexers and parsers together, from texts with unknown characters to abstract trees of nodes compared with the specified trees"
LEVEL_NOTE = "75 documents with every kind of element, option and nesting, and every ordered pair of 11 elements, adjacent or separated, in blocks and out of them; the words are unknown characters that are in no mark-up, their length is one to three."
EXPLANATION = "The whole package is interpreted on texts whose words are unknown characters; on every path the tree of nodes must be the specified one."
ASSUMPTIONS = ["the tree does not depend on how long a word of characters without mark-up is"]


def check(ctx):
    for rule, table in (("document", DOCS), ("pair of elements", documents())):
        cases = {k: (text(t), env, 0, 0) for k, (t, env, nodes) in table.items()}
        fs = trees.programs(ctx.prog, cases)

        def one(ctx, k):
            trees.judge(ctx, rule, k, fs[k], cases[k][0], table[k][2], trees.compare_trees)
        spread(ctx, table, one)
