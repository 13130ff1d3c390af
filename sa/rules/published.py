"""What a whole document publishes: the document node, its table of contents,
and the ids made by the configured functions."""

from ..chars import text
from ..pool import spread
from . import trees
from .trees import N, T


def H(line, level, n):
    x = level + 1
    return N("Header", (line, 0, line, x + n), level=level, content=[T(line, x, x + n)])


def Para(line, n):
    return N("Paragraph", (line, 0, line, n), content=[N("ParagraphLine", (line, 0, line, n), content=[T(line, 0, n)])])


def I(header, *entries):
    return N("TocItem", header=header, entries=list(entries))


def doc(at, *nodes):
    return N("Document", at, content=list(nodes))


def toc(plain, nested):
    return N("Toc", None, plain_entries=plain, nested_entries=nested)


# {name: (text, [document, table of contents])}
WHOLE = {
    "paragraph": ("<plain:3>", [doc((0, 0, 0, 3), Para(0, 3)), toc([], [])]),
    "blank lines around": ("\n\n<plain:3>\n\n\n<plain:3>\n\n\n", [doc((2, 0, 5, 3), Para(2, 3), Para(5, 3)), toc([], [])]),
    "headers": (
        "<plain:3>\n\n= <plain:3>\n\n== <plain:2>\n\n= <plain:1>\n",
        [doc((0, 0, 6, 3), Para(0, 3), H(2, 1, 3), H(4, 2, 2), H(6, 1, 1)), toc([H(2, 1, 3), H(4, 2, 2), H(6, 1, 1)], [I(H(2, 1, 3), I(H(4, 2, 2))), I(H(6, 1, 1))])],
    ),
    "deep headers": (
        "= <plain:1>\n\n=== <plain:2>\n\n== <plain:3>\n\n==== <plain:4>\n\n= <plain:9>",
        [
            doc((0, 0, 8, 11), H(0, 1, 1), H(2, 3, 2), H(4, 2, 3), H(6, 4, 4), H(8, 1, 9)),
            toc([H(0, 1, 1), H(2, 3, 2), H(4, 2, 3), H(6, 4, 4), H(8, 1, 9)], [I(H(0, 1, 1), I(H(2, 3, 2)), I(H(4, 2, 3), I(H(6, 4, 4)))), I(H(8, 1, 9))]),
        ],
    ),
    "header in an isolated block": (
        "= <plain:1>\n\n----\n== <plain:2>\n----\n\n== <plain:3>",
        [doc((0, 0, 6, 6), H(0, 1, 1), N("Block", (2, 0, 4, 4), content=[H(3, 2, 2)]), H(6, 2, 3)), toc([H(0, 1, 1), H(6, 2, 3)], [I(H(0, 1, 1), I(H(6, 2, 3)))])],
    ),
    "header in a block": (
        "= <plain:1>\n\n[isolate=false]\n----\n== <plain:2>\n----\n\n== <plain:3>",
        [
            doc((0, 0, 7, 6), H(0, 1, 1), N("Block", (3, 0, 5, 4), args={"named_args": {"isolate": "false"}}, content=[H(4, 2, 2)]), H(7, 2, 3)),
            toc([H(0, 1, 1), H(4, 2, 2), H(7, 2, 3)], [I(H(0, 1, 1), I(H(4, 2, 2)), I(H(7, 2, 3)))]),
        ],
    ),
    "headers only in a block": (
        "[isolate=false]\n----\n== <plain:2>\n----\n",
        [doc((1, 0, 3, 4), N("Block", (1, 0, 3, 4), args={"named_args": {"isolate": "false"}}, content=[H(2, 2, 2)])), toc([H(2, 2, 2)], [I(H(2, 2, 2))])],
    ),
    "header left out": (
        ":+flag:\n\n@if flag==false\n= <plain:1>\n\n== <plain:2>\n\n<plain:6>\n",
        [doc((5, 0, 7, 6), H(5, 2, 2), Para(7, 6)), toc([H(5, 2, 2)], [I(H(5, 2, 2))])],
    ),
    "two nodes in the table of contents": (
        "<< toc\n\n= <plain:2>\n\n<< toc\n",
        [
            doc((0, 0, 4, 6), N("Toc", (0, 0, 0, 6), plain_entries=[H(2, 1, 2)], nested_entries=[I(H(2, 1, 2))]), H(2, 1, 2), N("Toc", (4, 0, 4, 6), plain_entries=[H(2, 1, 2)], nested_entries=[I(H(2, 1, 2))])),
            toc([H(2, 1, 2)], [I(H(2, 1, 2))]),
        ],
    ),
    "last node a definition": (
        "<plain:2>\n\n:abc:def\n\n// comment\n", [doc((0, 0, 0, 2), Para(0, 2)), toc([], [])],
    ),
    "footnote at the end": (
        "<plain:2>\n\n[footnote=abc]\n----\n<plain:2>\n----\n", [doc((0, 0, 0, 2), Para(0, 2)), toc([], [])],
    ),
}


def whole(ctx, rule):
    """The document node and the table of contents that are published."""
    fs = trees.programs(ctx.prog, {k: (text(t), None, 0, 0) for k, (t, w) in WHOLE.items()}, returns="[parser.output.document, parser.output.toc]")

    def one(sub, k):
        t, want = WHOLE[k]
        trees.judge(sub, rule, k, fs[k], text(t), want, trees.compare_trees)
        trees.judge(sub, rule + ", positions", k, fs[k], text(t), want, trees.compare_places)
    spread(ctx, list(WHOLE), one)


def M(line, level, n, value="made"):
    x = level + 1
    return N("Header", None, level=level, content=[T(line, x, x + n)], internal_id=value)


def F(name, number, line, n):
    return N("Footnote", name=name, public_id=number, internal_id="made", content=[Para(line, n)])


NOT_ISOLATED = {"named_args": {"isolate": "false"}}
HEADERS = {
    "header": ("= <plain:2>\n", [M(0, 1, 2)]),
    "headers": ("= <plain:2>\n\n== <plain:1>\n", [M(0, 1, 2), M(2, 2, 1)]),
    "given": ("[internal_id=abc]\n= <plain:2>\n\n= <plain:1>\n", [M(1, 1, 2, "abc"), M(3, 1, 1)]),
    "in a block": ("----\n= <plain:2>\n----\n", [N("Block", content=[M(1, 1, 2)])]),
    "in a block that is not isolated": ("[isolate=false]\n----\n= <plain:2>\n----\n", [N("Block", args=NOT_ISOLATED, content=[M(2, 1, 2)])]),
    "in two blocks": ("----\n++++\n= <plain:2>\n++++\n----\n", [N("Block", content=[N("Block", content=[M(2, 1, 2)])])]),
    "in a table of contents": ("<< toc\n\n= <plain:2>\n\n[internal_id=abc]\n== <plain:1>\n", [
        N("Toc", plain_entries=[M(2, 1, 2), M(5, 2, 1, "abc")], nested_entries=[N("TocItem", header=M(2, 1, 2), entries=[N("TocItem", header=M(5, 2, 1, "abc"))])]),
        M(2, 1, 2), M(5, 2, 1, "abc"),
    ]),
}
MENTION = N("MacroFootnote", name="abc", footnote=F("abc", "1", 4, 2))
FOOTNOTES = {
    "footnotes": ("<< footnotes\n\n[footnote=abc]\n----\n<plain:2>\n----\n\n[footnote=def]\n----\n<plain:1>\n----\n", [
        N("Footnotes", footnotes=[N("FootnotesItem", footnote=F("abc", "1", 4, 2)), N("FootnotesItem", footnote=F("def", "2", 9, 1))]),
    ]),
    "mention": ("<plain:1>[footnote](abc)\n\n[footnote=abc]\n----\n<plain:2>\n----\n", [
        N("Paragraph", content=[N("ParagraphLine", content=[T(0, 0, 1), MENTION])]),
    ]),
    "mention in a block": ("----\n<plain:1>[footnote](abc)\n[footnote=abc]\n++++\n<plain:2>\n++++\n----\n", [
        N("Block", content=[N("Paragraph", content=[N("ParagraphLine", content=[T(1, 0, 1), MENTION])])]),
    ]),
}


def ids(ctx, rule, table, variable):
    """The ids come from the function of the configuration."""
    setup = f'environment.dupdate({{{variable!r}: make_id}})'
    fs = trees.programs(ctx.prog, {k: (text(t), None, 0, 0) for k, (t, w) in table.items()}, setup=setup, head="def make_id(node):\n    return 'made'\n")

    def one(sub, k):
        t, want = table[k]
        trees.judge(sub, rule, k, fs[k], text(t), want, trees.compare_trees)
    spread(ctx, list(table), one)
