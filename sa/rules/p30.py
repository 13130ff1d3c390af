"""P30: structure and numbering of lists."""

from __future__ import annotations

import itertools

from ..model import short
from .documents import EOL, Doc, Unclear, class_name, const, elements, judge, programs, text_of

PROPERTY = {
    "id": "P30",
    "title": "Lists contain every item once, nested by markers, numbered as asked",
    "statement": "Each item of a list gives exactly one item of the resulting list, in the same order, with the level given by the length of its marker and its own text, even when the text gives no nodes: items of the same level are siblings, deeper items form one nested list after the item they follow, shallower items go back to the list of their level, and an item shallower than the first one starts a new list. The main list and each nested one are ordered when the first marker of that list starts with `#`, whatever markers follow. A list starts at 1 or at its `start` argument, and with `start=auto` at the number after the last item of the latest ordered list (1 if there is none), where only its own items count and not those of nested or unordered lists.",
    "quantifier": {"over": ["inputs"], "text": "every sequence of markers, every text, every sequence of lists"},
    "why_tests_cant": "Tests parse a few lists; the nesting is the result of a recursive function that looks ahead, and a wrong comparison shows only for particular sequences of levels.",
    "anchors": {
        "files": ["mau/parsers/document_processors/list.py", "mau/parsers/document_parser.py", "mau/nodes/list.py"],
        "state": [{"name": "latest_ordered_list_index", "meaning": "number that follows the latest ordered list", "where": "mau/parsers/document_parser.py DocumentParser"}],
        "mechanism": [{"name": "list_processor", "where": "mau/parsers/document_processors/list.py"}],
        "observe_at": ["nodes of the document"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the document parser on token sequences: all the sequences of list markers up to four items and three levels, with symbolic texts"
LEVEL_NOTE = "All the sequences of levels up to four items and three levels with mixed markers are covered, each for every text; longer lists are covered only as far as they repeat the same steps. The parsers of nested texts are replaced by a summary that gives one node, or none, for each text."
EXPLANATION = "The parser is interpreted on the tokens of a document that contains a list: the abstract nodes it produces must be the tree that the markers describe. The oracle is a direct reading of the statement."
ASSUMPTIONS = ["the lexer gives a LIST and a TEXT token for each item (P15)"]


def marker(level, kind):
    return kind * level


def tree(seq):
    """What the markers describe: a list of main lists."""
    lists = []
    i = 0
    while i < len(seq):
        content, j = level_of(seq, i)
        lists.append(("ListNode", seq[i][0][0] == "#", True, content))
        i = j
    return lists


def level_of(seq, i):
    level = len(seq[i][0])
    res = [("ListItemNode", level, [seq[i][1]] if seq[i][1] else [])]
    i += 1
    while i < len(seq):
        n = len(seq[i][0])
        if n < level:
            break
        if n == level:
            res.append(("ListItemNode", level, [seq[i][1]] if seq[i][1] else []))
            i += 1
        else:
            first = seq[i][0]
            sub, i = level_of(seq, i)
            res.append(("ListNode", first[0] == "#", False, sub))
    return res, i


def view(o, v):
    c = class_name(o, v)
    if c == "ListItemNode":
        texts = []
        for x in elements(o, o.get(v, "content")):
            t = text_of(o, x)
            if t is None:
                raise Unclear("content of an item")
            texts.append(t)
        return ("ListItemNode", const(o, o.get(v, "level")), texts)
    if c == "ListNode":
        return ("ListNode", const(o, o.get(v, "ordered")), const(o, o.get(v, "main_node")), [view(o, x) for x in elements(o, o.get(v, "content"))])
    if c is None:
        raise Unclear(short(o.snap(v)))
    return (c,)


def sequences(tier):
    """Marker sequences: [(marker, text)]."""
    res = []
    names = ["$a", "$b", "$c", "$d", "$e"]
    for n in (1, 2, 3, 4):
        for levels in itertools.product((1, 2, 3), repeat=n):
            # two patterns of markers, so that each position gets both
            for p in range(2):
                if n == 4 and p != sum(levels) % 2:
                    continue
                kinds = ["#*"[(i + p) % 2] for i in range(n)]
                if n == 3 and p:
                    kinds = ["*"] * n
                res.append([(marker(l, k), names[i]) for i, (l, k) in enumerate(zip(levels, kinds))])
    for levels in ((1, 2, 3, 2, 1), (1, 3, 2, 3, 1), (2, 1, 2, 1, 2), (1, 2, 2, 3, 1), (3, 2, 1, 2, 3), (1, 2, 1, 2, 1), (1, 4, 1, 4, 2)):
        res.append([(marker(l, "*#"[i % 2]), names[i]) for i, l in enumerate(levels)])
    # only the first character of a marker counts
    for ms in ("#*", "*#", "# *# *#", "# #* #*", "* *# #*", "* #* *#", "#* *# #", "*# #* *", "#* #*# *#*", "# #*# *#* #", "#* # *# *"):
        res.append([(m, names[i]) for i, m in enumerate(ms.split())])
    if tier == "thorough":
        for levels in itertools.product((1, 2, 3), repeat=5):
            res.append([(marker(l, "*#"[(i + levels[0]) % 2]), names[i]) for i, l in enumerate(levels)])
    return res


def lines(seq):
    out = [[("LIST", m), ("TEXT", t)] for m, t in seq]
    out[-1].append(EOL)
    return out


def check(ctx):
    nesting(ctx)
    numbering(ctx)


def nesting(ctx):
    seqs = sequences(ctx.tier)
    docs = {" ".join(m for m, _ in s): Doc(*lines(s), returns="parser.nodes") for s in seqs}
    fs = programs(ctx.prog, docs)
    for s in seqs:
        k = " ".join(m for m, _ in s)
        judge(ctx, "nesting", k, fs[k], tree(s), lambda o: [view(o, x) for x in elements(o, o.value)])
    # items whose text gives no nodes
    for k in ("# ## #", "* * *", "# ## ##", "* ** *"):
        s = list(zip(k.split(), ("$a", "$b", "$c")))
        fi = programs(ctx.prog, {k: Doc(*lines(s), returns="parser.nodes")})[k]
        for gone in ("a", "b", "c", "abc"):
            want = tree([(m, None if t[1:] in gone else t) for m, t in s])
            judge(ctx, "nesting", f"{k} ({gone} gives no nodes)", fi, want, lambda o: [view(o, x) for x in elements(o, o.value)], empty=tuple(gone))


def args(text):
    return [("ARGUMENTS", "["), ("TEXT", text), ("LITERAL", "]")]


def items(*markers):
    n = iter("abcdefgh")
    return [[("LIST", m), ("TEXT", "$t")] for m in markers] + [[EOL]]


def auto(*blocks):
    """Lines of a document and the start of each main list."""
    out = []
    for b in blocks:
        a, markers = (b[0], b[1]) if isinstance(b, tuple) else (None, b)
        if a:
            out.append(args(a))
        if markers:
            out.extend([("LIST", m), ("TEXT", "$t")] for m in markers.split())
        else:
            out.append([("TEXT", "$t")])
        out.append([EOL])
    return out


CASES = [
    ("one list", ["# #"], [1]),
    ("unordered list", ["* *"], [1]),
    ("start", [("start=10", "# #")], [10]),
    ("start, unordered", [("start=10", "* *")], [10]),
    ("start zero", [("start=0", "# #"), ("start=auto", "#")], [0, 2]),
    ("two lists", ["# #", "# # #"], [1, 1]),
    ("auto", ["# #", ("start=auto", "#")], [1, 3]),
    ("auto twice", ["# #", ("start=auto", "#"), ("start=auto", "# #"), ("start=auto", "#")], [1, 3, 4, 6]),
    ("auto first", [("start=auto", "# #"), ("start=auto", "#")], [1, 3]),
    ("auto after start", [("start=20", "# # #"), ("start=auto", "#"), ("start=auto", "#")], [20, 23, 24]),
    ("auto after a plain list", ["# # #", "# #", ("start=auto", "#")], [1, 1, 3]),
    ("nested items do not count", ["# ## ## #", ("start=auto", "#")], [1, 3]),
    ("nested items of auto do not count", ["#", ("start=auto", "# ## ### #"), ("start=auto", "#")], [1, 2, 4]),
    ("nested items after start do not count", [("start=5", "# ** ** #"), ("start=auto", "#")], [5, 7]),
    ("unordered list between", ["# # #", "* *", ("start=auto", "#")], [1, 1, 4]),
    ("unordered list with start between", ["# #", ("start=7", "* * *"), ("start=auto", "#")], [1, 7, 3]),
    ("paragraph between", ["# #", None, ("start=auto", "#")], [1, 3]),
    ("ordered list in an unordered one", ["# #", "* ## ##", ("start=auto", "#")], [1, 1, 3]),
]


def numbering(ctx):
    docs = {n: Doc(*auto(*bs), returns="parser.nodes") for n, bs, _ in CASES}
    fs = programs(ctx.prog, docs)

    def starts(o):
        res = []
        for x in elements(o, o.value):
            if class_name(o, x) == "ListNode":
                res.append(const(o, o.get(x, "start")))
        return res

    for n, bs, want in CASES:
        judge(ctx, "start", n, fs[n], want, starts)
