"""P17: the positions of the nodes."""

from __future__ import annotations

from ..chars import text
from ..model import client
from ..pool import spread
from . import included, trees
from .doctable import DOCS, TEXTS, documents, inline_texts

PROPERTY = {
    "id": "P17",
    "title": "Every node knows the exact place of its text in the source",
    "statement": "The context of each node of an element or of inline text has the name of the source and the lines and columns of the text the node comes from: its first line and column and its last line and column (the greatest of those of the first and last piece when it is on several lines; an include ends with its name), whatever comes before it, inside blocks, lists, labels, styles and arguments of macros alike. The positions count from the line and column the parser is given as the start of the text.",
    "quantifier": {"over": ["inputs"], "text": "every text, every sequence and nesting of elements, every start position"},
    "why_tests_cant": "Tests compare the position of some nodes of some documents; nested parsers must compose their offsets rightly for every nesting and every preceding text.",
    "anchors": {
        "files": ["mau/text_buffer.py", "mau/token.py", "mau/lexers/base_lexer.py", "mau/parsers/text_parser.py", "mau/parsers/document_processors", "mau/parsers/arguments_parser.py"],
        "state": ["NodeInfo.context", "Token.context", "TextBuffer.context"],
        "mechanism": [{"name": "TextBuffer", "where": "mau/text_buffer.py"}, {"name": "Context.merge_contexts", "where": "mau/text_buffer.py"}],
        "observe_at": ["Node.info.context"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of lexers and parsers together on texts with unknown characters; the contexts of the abstract nodes are compared with the places of their text"
LEVEL_NOTE = "The documents and texts of P13 and P37, from another start position; not the nodes of texts in which a variable is replaced, of labels (only their content), of entries of tables of contents and footnotes."
EXPLANATION = "The whole package is interpreted on texts whose words are unknown characters; on every path the context of each node must be the specified one."
ASSUMPTIONS = ["the positions depend on the length of a word of characters without mark-up only through the place where it ends"]


def check(ctx):
    for rule, parser, table, line, col in (
        ("positions in a document", "DocumentParser", DOCS, 3, 0),
        ("positions in a document from another line", "DocumentParser", documents(), 7, 0),
        ("positions in inline text", "TextParser", TEXTS, 2, 5),
        ("positions in inline text from another place", "TextParser", inline_texts(), 4, 9),
    ):
        cases = {k: (text(t), env, line, col) for k, (t, env, nodes) in table.items()}
        fs = trees.programs(ctx.prog, cases, parser)

        def one(ctx, k):
            trees.judge(ctx, rule, k, fs[k], cases[k][0], table[k][2], lambda o, d, w: trees.compare_places(o, d, w, (line, col)))
        spread(ctx, table, one)
    included.analyse(ctx, included.accepted("positions in included files", trees.compare_places))
    whole(ctx)


WHOLE = """
from mau import Mau
from mau.message import BaseMessageHandler
from mau.environment.environment import Environment

def client_whole(handler: BaseMessageHandler):
    mau = Mau(handler, Environment())
    lexer = mau.run_lexer(mau.init_text_buffer({text}, {source}))
    return mau.run_parser(lexer.tokens).nodes
"""


def whole(ctx):
    """The functions of Mau used by the command line give the parsers the name
    of the source and the first line."""
    prog = ctx.prog
    cls = prog.maybe_cls("Mau")
    if cls is None or any(prog.find_method(cls, m) is None for m in ("init_text_buffer", "run_lexer", "run_parser")):
        ctx.notes.append("the functions of Mau are not known: not analysed")
        return
    t, env, nodes = next(v for v in documents().values() if not v[1])
    doc = text(t)
    fi = client(prog, WHOLE.format(text=ascii(doc), source=repr(trees.SOURCE)), "whole")["client_whole"]
    trees.judge(ctx, "positions with Mau", "Mau", fi, doc, nodes, trees.compare_places)
