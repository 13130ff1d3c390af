"""Documents that include files with a known content."""

from ..chars import text
from ..pool import spread
from . import trees
from .lexing import plain
from .trees import J, N, S, T, Unclear


def P(line, value, src, col=0):
    """A paragraph of one line of a file."""
    at = (line, col, line, col + len(value), src)
    return N("Paragraph", at, content=[N("ParagraphLine", at, content=[N("Text", at, value=value)])])


def raw(at, lines):
    return [N("RawLine", at, value=x) for x in lines]


# {name: (text, variables, {file: text}, nodes)}
FILES = {
    "raw": (
        "<plain:3>\n\n<< raw:abc.txt\n\n<plain:2>", {}, {"abc.txt": "one\n  two *x* {y}\n\nthree"},
        [
            N("Paragraph", (0, 0, 0, 3), content=[N("ParagraphLine", (0, 0, 0, 3), content=[T(0, 0, 3)])]),
            N("IncludeRaw", (2, 0, 2, 6), uri="abc.txt", content=raw((2, 0, 2, 6), ["one", "  two *x* {y}", "", "three"])),
            N("Paragraph", (4, 0, 4, 2), content=[N("ParagraphLine", (4, 0, 4, 2), content=[T(4, 0, 2)])]),
        ],
    ),
    "raw with empty lines at the end": (
        "<< raw:abc.txt\n", {}, {"abc.txt": "\none\n\n"},
        [N("IncludeRaw", (0, 0, 0, 6), uri="abc.txt", content=raw((0, 0, 0, 6), ["", "one", "", ""]))],
    ),
    "raw in a block": (
        "----\n<< raw:abc.txt\n----", {}, {"abc.txt": "one\ntwo"},
        [N("Block", (0, 0, 2, 4), content=[N("IncludeRaw", (1, 0, 1, 6), uri="abc.txt", content=raw((1, 0, 1, 6), ["one", "two"]))])],
    ),
    "raw title and arguments": (
        ". <plain:3>\n[abc.txt, #tag, k=v]\n<< raw", {}, {"abc.txt": "one"},
        [N("IncludeRaw", (2, 0, 2, 6), args={"named_args": {"k": "v"}, "tags": ["tag"]}, uri="abc.txt", content=raw((2, 0, 2, 6), ["one"]), labels={"title": N("Label", role="title", content=[T(0, 2, 5)])})],
    ),
    "mau": (
        "<plain:3>\n\n<< mau:abc.mau\n\n<plain:2>", {}, {"abc.mau": "\n= aaa\n\nbbb\nccc\n\n* ddd\n** eee\n"},
        [
            N("Paragraph", (0, 0, 0, 3), content=[N("ParagraphLine", (0, 0, 0, 3), content=[T(0, 0, 3)])]),
            N("IncludeMau", None, uri="abc.mau", content=[
                N("Header", (1, 0, 1, 5, "abc.mau"), level=1, content=[N("Text", (1, 2, 1, 5, "abc.mau"), value="aaa")]),
                N("Paragraph", (3, 0, 4, 3, "abc.mau"), content=[
                    N("ParagraphLine", (3, 0, 3, 3, "abc.mau"), content=[N("Text", (3, 0, 3, 3, "abc.mau"), value="bbb")]),
                    N("ParagraphLine", (4, 0, 4, 3, "abc.mau"), content=[N("Text", (4, 0, 4, 3, "abc.mau"), value="ccc")]),
                ]),
                N("List", (6, 0, 7, 6, "abc.mau"), ordered=False, start=1, content=[
                    N("ListItem", (6, 0, 6, 5, "abc.mau"), level=1, content=[N("Text", (6, 2, 6, 5, "abc.mau"), value="ddd")]),
                    N("List", (7, 0, 7, 6, "abc.mau"), ordered=False, start=1, content=[
                        N("ListItem", (7, 0, 7, 6, "abc.mau"), level=2, content=[N("Text", (7, 3, 7, 6, "abc.mau"), value="eee")]),
                    ]),
                ]),
            ]),
            N("Paragraph", (4, 0, 4, 2), content=[N("ParagraphLine", (4, 0, 4, 2), content=[T(4, 0, 2)])]),
        ],
    ),
    "mau twice": (
        "<< mau:abc.mau\n<< mau:abc.mau\n", {}, {"abc.mau": "aaa"},
        [
            N("IncludeMau", None, uri="abc.mau", content=[P(0, "aaa", "abc.mau")]),
            N("IncludeMau", None, uri="abc.mau", content=[P(0, "aaa", "abc.mau")]),
        ],
    ),
    "mau in mau": (
        "<< mau:abc.mau\n", {}, {"abc.mau": "aaa\n\n<< mau:def.mau\n\nbbb\n\n<< raw:ghi.txt\n", "def.mau": "\n\nccc", "ghi.txt": "ddd"},
        [
            N("IncludeMau", None, uri="abc.mau", content=[
                P(0, "aaa", "abc.mau"),
                N("IncludeMau", None, uri="def.mau", content=[P(2, "ccc", "def.mau")]),
                P(4, "bbb", "abc.mau"),
                N("IncludeRaw", (6, 0, 6, 6, "abc.mau"), uri="ghi.txt", content=raw((6, 0, 6, 6, "abc.mau"), ["ddd"])),
            ]),
        ],
    ),
    "mau, the same file from two": (
        "<< mau:abc.mau\n<< mau:def.mau\n<< mau:ghi.mau\n", {}, {"abc.mau": "<< mau:ghi.mau\n", "def.mau": "<< mau:ghi.mau\n", "ghi.mau": "aaa"},
        [
            N("IncludeMau", None, uri="abc.mau", content=[N("IncludeMau", None, uri="ghi.mau", content=[P(0, "aaa", "ghi.mau")])]),
            N("IncludeMau", None, uri="def.mau", content=[N("IncludeMau", None, uri="ghi.mau", content=[P(0, "aaa", "ghi.mau")])]),
            N("IncludeMau", None, uri="ghi.mau", content=[P(0, "aaa", "ghi.mau")]),
        ],
    ),
    "mau in a block": (
        "----\n<plain:1>\n\n<< mau:abc.mau\n----\n", {}, {"abc.mau": "aaa"},
        [
            N("Block", (0, 0, 4, 4), content=[
                N("Paragraph", (1, 0, 1, 1), content=[N("ParagraphLine", (1, 0, 1, 1), content=[T(1, 0, 1)])]),
                N("IncludeMau", None, uri="abc.mau", content=[P(0, "aaa", "abc.mau")]),
            ]),
        ],
    ),
    "mau with a block": (
        "<< mau:abc.mau", {}, {"abc.mau": "----\naaa\n\nbbb\n----\n\n[engine=raw]\n----\nccc\n----\n"},
        [
            N("IncludeMau", None, uri="abc.mau", content=[
                N("Block", (0, 0, 4, 4, "abc.mau"), content=[P(1, "aaa", "abc.mau"), P(3, "bbb", "abc.mau")]),
                N("Raw", (7, 0, 9, 4, "abc.mau"), content=[N("RawLine", (8, 0, 8, 3, "abc.mau"), value="ccc")]),
            ]),
        ],
    ),
    "mau with variables": (
        ":abc:<plain:2>\n\n<< mau:abc.mau, call:def=ghi, k=v\n\n<plain:1>", {}, {"abc.mau": "{def} {abc}"},
        [
            N("IncludeMau", None, uri="abc.mau", args={"named_args": {"k": "v"}}, content=[
                N("Paragraph", None, content=[N("ParagraphLine", None, content=[N("Text", None, value=J("ghi ", S(0, 5, 7)))])]),
            ]),
            N("Paragraph", (4, 0, 4, 1), content=[N("ParagraphLine", (4, 0, 4, 1), content=[T(4, 0, 1)])]),
        ],
    ),
    "mau with its own variables": (
        "<< mau:abc.mau, pass_environment=false, call:def=ghi\n\n<plain:1>", {"abc": "xyz"}, {"abc.mau": ":abc:jkl\n{def} {abc}"},
        [
            N("IncludeMau", None, uri="abc.mau", content=[
                N("Paragraph", None, content=[N("ParagraphLine", None, content=[N("Text", None, value="ghi jkl")])]),
            ]),
            N("Paragraph", (2, 0, 2, 1), content=[N("ParagraphLine", (2, 0, 2, 1), content=[T(2, 0, 1)])]),
        ],
    ),
    "mau that defines variables": (
        "<< mau:abc.mau\n\n{abc}", {"abc": "xyz"}, {"abc.mau": ":abc:jkl\n"},
        [
            N("IncludeMau", None, uri="abc.mau"),
            N("Paragraph", None, content=[N("ParagraphLine", None, content=[N("Text", None, value="xyz")])]),
        ],
    ),
    "empty files": (
        "<< mau:abc.mau\n<< raw:abc.txt", {}, {"abc.mau": "", "abc.txt": ""},
        [
            N("IncludeMau", None, uri="abc.mau"),
            N("IncludeRaw", (1, 0, 1, 6), uri="abc.txt", content=raw((1, 0, 1, 6), [""])),
        ],
    ),
}

# {name: (text, files, (line, column or None, source) of the error)}
REFUSED = {
    "a file that does not exist": ("<plain:2>\n\n<< mau:abc.mau\n", {}, (2, 0, "main.mau")),
    "a raw file that does not exist": ("<plain:2>\n\n<< raw:abc.txt\n", {}, (2, 0, "main.mau")),
    "the document": ("<plain:2>\n\n<< mau:main.mau\n", {"main.mau": "aaa"}, (2, 0, "main.mau")),
    "a file that includes itself": ("<< mau:abc.mau\n", {"abc.mau": "aaa\n\n<< mau:abc.mau\n"}, (2, 0, "abc.mau")),
    "a file that includes the document": ("<< mau:abc.mau\n", {"abc.mau": "\n<< mau:main.mau\n", "main.mau": "aaa"}, (1, 0, "abc.mau")),
    "two files that include each other": ("<< mau:abc.mau\n", {"abc.mau": "<< mau:def.mau", "def.mau": "\n\n<< mau:abc.mau\n"}, (2, 0, "def.mau")),
    "a file included in a block": ("<< mau:abc.mau\n", {"abc.mau": "aaa\n----\n<< mau:abc.mau\n----\n"}, (2, 0, "abc.mau")),
    "the document, in a block": ("----\n<plain:2>\n\n<< mau:main.mau\n----\n", {"main.mau": "aaa"}, (3, 0, "main.mau")),
    "the document, in a list of blocks": ("----\n++++\n<< mau:abc.mau\n++++\n----\n", {"abc.mau": "----\n<< mau:main.mau\n----\n", "main.mau": "aaa"}, (1, 0, "abc.mau")),
    "an error in the file": ("<plain:1>\n\n<< mau:abc.mau\n", {"abc.mau": "aaa\n\nbb {nope}"}, (2, 3, "abc.mau")),
    "a block open in the file": ("<< mau:abc.mau\n", {"abc.mau": "aaa\n\n----\nbb\n"}, (2, None, "abc.mau")),
    "the variables are not passed": (":abc:<plain:2>\n\n<< mau:abc.mau, pass_environment=false\n", {"abc.mau": "aa {abc}"}, (0, 3, "abc.mau")),
    "the variables of the file": ("<< mau:abc.mau\n\n<plain:1> {def}", {"abc.mau": ":def:aa\n"}, (2, 2, "main.mau")),
    "the call variables": ("<< mau:abc.mau, call:def=ghi\n\n<plain:1> {def}", {"abc.mau": "{def}\n"}, (2, 2, "main.mau")),
}

def place(o):
    """(line, column, source) of the error a path ends with."""
    m = o.get(o.exc.value, "message")
    names = [k for k, _ in o.obj(m).attrs] if o.obj(m) is not None else []
    if "context" in names:
        c = o.get(m, "context")
        if o.obj(c) is None:
            if plain(o, c) is None:
                raise trees.Mismatch("the error has no position")
            raise Unclear("position")
        return tuple(plain(o, o.get(c, n)) for n in ("start_line", "start_column", "source"))
    if "position" in names:
        got = trees.view(o, o.get(m, "position"))
        if got is None:
            raise trees.Mismatch("the error has no position")
        if isinstance(got, list) and len(got) == 2:
            return (*got, plain(o, o.get(m, "source")))
    raise Unclear("position")


def wrong(o, doc, at, name=trees.SOURCE):
    if o.exc is None:
        raise trees.Mismatch("the text is accepted")
    if o.exc_name != "MauException":
        raise trees.Mismatch(f"the text ends with {o.exc_name}")
    line, column, source = place(o)
    if source != name:
        raise trees.Mismatch(f"the source of the error is {source!r}")
    if line != at[0] or at[1] is not None and column != at[1]:
        raise trees.Mismatch(f"the error is located at {line}:{column}, the fault is at {at[0]}:{'' if at[1] is None else at[1]}")


def at(o, doc, want):
    wrong(o, doc, want[:2], want[2])


CALLS = "[[c.caller_uri, c.callee_uri, c.call_arguments] for c in parser.output.include_calls]"
# {name: the inclusions recorded: the file that includes, the file included, the variables}
RECORDED = {
    "raw": [],
    "mau": [["main.mau", "abc.mau", {}]],
    "mau twice": [["main.mau", "abc.mau", {}], ["main.mau", "abc.mau", {}]],
    "mau in mau": [["main.mau", "abc.mau", {}], ["abc.mau", "def.mau", {}]],
    "mau, the same file from two": [["main.mau", "abc.mau", {}], ["abc.mau", "ghi.mau", {}], ["main.mau", "def.mau", {}], ["def.mau", "ghi.mau", {}], ["main.mau", "ghi.mau", {}]],
    "mau in a block": [["main.mau", "abc.mau", {}]],
    "mau with its own variables": [["main.mau", "abc.mau", {"def": "ghi"}]],
}


def compare_calls(o, doc, want):
    if o.exc is not None:
        raise Unclear("the text is refused")
    got = trees.view(o, o.value)
    try:
        trees.match(want, sorted(got, key=repr), doc, "the inclusions recorded ")
    except TypeError:
        raise Unclear("the inclusions") from None


def accepted(rule, compare, names=None):
    """[(rule, name, text, variables, files, expected, what is compared, result)]"""
    return [(rule, k, t, env, files, nodes, compare, "parser.nodes") for k, (t, env, files, nodes) in FILES.items() if names is None or k in names]


def recorded(rule):
    return [(rule, k, FILES[k][0], FILES[k][1], FILES[k][2], sorted(calls, key=repr), compare_calls, CALLS) for k, calls in RECORDED.items()]


def refused(rule, compare, names=None):
    return [(rule, k, t, {}, files, at, compare, "parser.nodes") for k, (t, files, at) in REFUSED.items() if names is None or k in names]


def analyse(ctx, work):
    fs = {}
    for r in {w[7] for w in work}:
        fs.update({(r, k): f for k, f in trees.programs(ctx.prog, {(w[0], w[1]): (text(w[2]), w[3], 0, 0) for w in work if w[7] == r}, returns=r).items()})

    def one(sub, w):
        rule, k, t, env, files, want, compare, r = w
        trees.judge(sub, rule, k, fs[(r, (rule, k))], text(t), want, compare, files=files)
    spread(ctx, work, one)
