"""Documents written with unknown characters, parsed by the whole package.

The text of the document goes through the lexers and the parsers in the
abstract interpreter; the result is the tree of abstract nodes."""

from __future__ import annotations

from .. import chars
from ..absint import Budget, R, State, Tup
from ..loader import ClassInfo
from ..model import client, interp, run, short
from .documents import Unclear
from .lexing import plain, show

HEAD = """
from mau.parsers.document_parser import DocumentParser
from mau.parsers.text_parser import TextParser
from mau.parsers.arguments_parser import ArgumentsParser
from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
from mau.message import BaseMessageHandler
from mau.environment.environment import Environment
"""
SOURCE = "main.mau"


def programs(prog, cases, parser="DocumentParser", returns="parser.nodes", setup="", head=""):
    """{key: function} for {key: text or (text, variables, line, column)}."""
    out = [HEAD, head]
    for i, c in enumerate(cases.values()):
        t, env, line, col = c if isinstance(c, tuple) else (c, None, 0, 0)
        out.append(f"def client_{i}(handler: BaseMessageHandler):")
        out.append("    environment = Environment()")
        if env:
            out.append(f"    environment.dupdate({ascii(env)})")
        if setup:
            out.append(f"    {setup}")
        out.append(f"    parser = {parser}.lex_and_parse({ascii(t)}, handler, environment, start_line={line}, start_column={col}, source_filename={SOURCE!r})")
        out.append(f"    return {returns}\n")
    fs = client(prog, "\n".join(out) + "\n", "trees")
    return {k: fs[f"client_{i}"] for i, k in enumerate(cases)}


def explore(ctx, fi, max_steps=400000, extra=None, max_cpu=40, files=None):
    spent = ctx.__dict__.setdefault("trees_spent", [])
    if len(spent) >= 5:
        return None, None
    ip = interp(ctx.prog, extra or {}, base={}, raise_mode=True, unroll=80, max_steps=max_steps, max_cpu=max_cpu, max_depth=400)
    ip.files = files
    try:
        outs = run(ip, fi, state=State())
    except Budget:
        outs = None
        spent.append(fi.full)
    ctx.saw(ip)
    if outs:
        ctx.paths += len(outs)
    return ip, outs


class N:
    """An expected node: its class (without `Node`) and some of its fields;
    `at` is its position (start line, start column, end line, end column),
    with the name of the source when it is not that of the document."""

    def __init__(self, cls, at=None, **fields):
        self.cls = cls
        self.at = at
        self.fields = fields


SKIP = ("parent", "info", "arguments")


def view(o, v, depth=30):
    """A value as Python data; a node becomes (class, fields, position)."""
    if depth == 0:
        raise Unclear("too deep")
    if isinstance(v, R):
        ob = o.st.heap[v.oid]
        if ob.kind == "obj":
            if not isinstance(ob.cls, ClassInfo) or ob.lazy:
                raise Unclear(short(o.snap(v)))
            if "Node" in [c.name for c in o.p.mro(ob.cls)]:
                fields = {k: (lambda x=x: view(o, x, depth - 1)) for k, x in ob.attrs if k not in SKIP}
                return Tree(o, v, ob.cls.name.removesuffix("Node"), fields)
            return ("object", ob.cls.name)
        if ob.kind in ("list", "set"):
            if any(p[0] != "item" for p in ob.parts):
                raise Unclear(short(o.snap(v)))
            return [view(o, p[1], depth - 1) for p in ob.parts]
        if ob.kind == "dict":
            if any(p[0] != "kv" for p in ob.parts):
                raise Unclear(short(o.snap(v)))
            return {plain(o, p[1]): view(o, p[2], depth - 1) for p in ob.parts}
    if isinstance(v, Tup):
        return [view(o, x, depth - 1) for x in v.items]
    return plain(o, v)


class Tree:
    def __init__(self, o, ref, cls, fields):
        self.o, self.ref, self.cls, self.fields = o, ref, cls, fields

    def at(self):
        c = self.o.get(self.ref, "info", "context")
        return tuple(plain(self.o, self.o.get(c, n)) for n in ("start_line", "start_column", "end_line", "end_column"))

    def source(self):
        return plain(self.o, self.o.get(self.ref, "info", "context", "source"))

    deep = 0

    def __repr__(self):
        if Tree.deep > 3:
            return f"{self.cls}(...)"
        Tree.deep += 1
        try:
            return self.text()
        finally:
            Tree.deep -= 1

    def text(self):
        out = []
        for k, f in self.fields.items():
            try:
                x = f()
            except Unclear:
                x = "?"
            if x not in (None, [], {}):
                out.append(f"{k}={show(x)!r}" if isinstance(x, str) else f"{k}={x!r}")
        return f"{self.cls}({', '.join(out)})"

    def args(self):
        """The arguments of the node that are not empty."""
        a = self.o.get(self.ref, "arguments")
        out = {}
        for k in ("unnamed_args", "named_args", "tags", "internal_tags", "subtype"):
            x = view(self.o, self.o.get(a, k))
            if x not in (None, [], {}):
                out[k] = x
        return out


def message(o):
    """The text of the error a path ends with."""
    m = o.get(o.exc.value, "message")
    try:
        return plain(o, o.get(m, "text"))
    except Unclear:
        return short(o.snap(m))


class S:
    """A piece of a line of the document."""

    def __init__(self, line, start, end):
        self.where = (line, start, end)

    def text(self, doc):
        line, a, b = self.where
        return doc.split("\n")[line][a:b]


class J:
    """The pieces of text joined."""

    def __init__(self, *pieces):
        self.pieces = pieces

    def text(self, doc):
        return "".join(p if isinstance(p, str) else p.text(doc) for p in self.pieces)


def T(line, start, end, value=None):
    """A text node on a line."""
    return N("Text", (line, start, line, end), value=S(line, start, end) if value is None else value)


class Mismatch(Exception):
    pass


# The fields that are empty when the expected node does not mention them.
EMPTY = ("content", "labels", "marker", "highlight_style", "classes", "alt_text", "width", "height")


def same_text(want, got):
    if want == got:
        return
    r = chars.equal(want, got) if isinstance(want, str) and isinstance(got, str) else False
    if r is None:
        raise Unclear(f"{show(got)!r} or {show(want)!r}")
    if not r:
        raise Mismatch(f"{show(got) if isinstance(got, str) else got!r} instead of {show(want) if isinstance(want, str) else want!r}")


def match(want, got, doc, where):
    """Compare expected data with the data of a path."""
    if isinstance(want, (S, J)):
        want = want.text(doc)
    if isinstance(want, N):
        if not isinstance(got, Tree) or got.cls != want.cls:
            raise Mismatch(f"{where} is {describe(got)} instead of {want.cls}")
        here = f"{where}{want.cls}"
        for k, w in want.fields.items():
            if k == "args":
                g = got.args()
            elif k not in got.fields:
                raise Unclear(f"no field {k} in {want.cls}")
            else:
                g = got.fields[k]()
            match(w, g, doc, f"{here}.{k} ")
        for k in EMPTY:
            if k in got.fields and k not in want.fields:
                g = got.fields[k]()
                if g not in (None, [], {}):
                    raise Mismatch(f"{here}.{k} is {brief(g)}, nothing is expected")
        if "args" not in want.fields:
            g = got.args()
            if g:
                raise Mismatch(f"the arguments of {here} are {brief(g)}, nothing is expected")
        return
    if isinstance(want, list):
        if not isinstance(got, list):
            raise Mismatch(f"{where} is {brief(got)}, not a list")
        for i, (w, g) in enumerate(zip(want, got)):
            match(w, g, doc, f"{where}[{i}] ")
        if len(got) > len(want):
            raise Mismatch(f"{where} has one more entry, {describe(got[len(want)])}")
        if len(got) < len(want):
            w = want[len(got)]
            raise Mismatch(f"{where} lacks {'the ' + w.cls if isinstance(w, N) else 'an entry'} number {len(got) + 1}")
        return
    if isinstance(want, dict):
        if not isinstance(got, dict) or list(got) != list(want):
            raise Mismatch(f"{where} is {brief(got)} instead of {brief(want)}")
        for k in want:
            match(want[k], got[k], doc, f"{where}[{k}] ")
        return
    try:
        same_text(want, got)
    except Mismatch as e:
        raise Mismatch(f"{where} is {e}") from None


def describe(x):
    if isinstance(x, Tree):
        try:
            return f"{x.cls} {brief(x.fields['value']())}" if "value" in x.fields else x.cls
        except Unclear:
            return x.cls
    return brief(x)


def brief(x):
    s = show(x) if isinstance(x, str) else repr(x)
    return s if len(s) < 120 else s[:117] + "..."


def places(want, got, where, out):
    """The expected and the actual position of the corresponding nodes."""
    if isinstance(want, N):
        if not isinstance(got, Tree) or got.cls != want.cls:
            raise Unclear(f"{where}: another tree")
        here = f"{where}{want.cls}"
        if want.at is not None:
            out.append((here, want.at, got))
        for k, w in want.fields.items():
            if k != "args" and k in got.fields and isinstance(w, (N, list, dict)):
                places(w, got.fields[k](), f"{here}.", out)
    elif isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            raise Unclear(f"{where}: another tree")
        for w, g in zip(want, got):
            places(w, g, where, out)
    elif isinstance(want, dict):
        for k, w in want.items():
            if not isinstance(got, dict) or k not in got:
                raise Unclear(f"{where}: another tree")
            places(w, got[k], where, out)


def compare_trees(o, doc, want):
    if o.exc is not None:
        raise Mismatch(f"the text is refused: {o.exc_name}: {brief(message(o))}")
    match(want, view(o, o.value), doc, "the result")


def compare_places(o, doc, want, shift=(0, 0), source=SOURCE):
    if o.exc is not None:
        raise Unclear("the text is refused")
    out = []
    places(want, view(o, o.value), "", out)
    for here, at, got in out:
        if len(at) == 5:
            if (got.at(), got.source()) != (at[:4], at[4]):
                raise Mismatch(f"{here} is at {pos(got.at())} of {got.source()!r}, its text at {pos(at[:4])} of {at[4]!r}")
            continue
        at = tuple(x + shift[0] if i % 2 == 0 else x + (shift[1] if at[i - 1] == 0 else 0) for i, x in enumerate(at))
        g = got.at()
        if g != at:
            raise Mismatch(f"{here} is at {pos(g)}, its text at {pos(at)}")
        s = got.source()
        if s != source:
            raise Mismatch(f"the source of {here} is {s!r}")


def pos(at):
    return "{}:{}-{}:{}".format(*at)


def refused(o, doc, want):
    """The text is refused with an error of the parser."""
    if o.exc is None:
        raise Mismatch("the text is accepted")
    if o.exc_name != "MauException":
        raise Mismatch(f"the text ends with {o.exc_name}")


def judge(ctx, rule, name, fi, doc, want, compare, files=None):
    """One obligation: every path through the text gives what is expected."""
    ip, outs = explore(ctx, fi, files=files)
    subject = f"{name} ({brief(doc)})"
    if outs is None:
        ctx.check(rule, subject, None, "out of budget")
        return
    ctx.need("coverage", subject, bool(outs), "no outcome")
    results = []
    for o in outs:
        try:
            compare(o, doc, want)
            results.append((True, "", o))
        except Mismatch as e:
            results.append((False, str(e), o))
        except Unclear as e:
            results.append((None, str(e), o))
    every = all(r[0] is False for r in results)
    for ok, why, o in results:
        ctx.check(rule, subject, ok if ok or every else None, why, o.where(), o.path_text)
    return ip
