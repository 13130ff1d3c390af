"""Documents given as tokens: the structure is known, the texts are symbolic.

`Doc` writes a client program that builds the tokens, runs the whole document
parser on them and returns it; only the abstract interpreter ever sees it."""

from __future__ import annotations

import re

from ..absint import Budget, Cl, Enm, K, NONE, R, S, State, Tup
from ..model import client, interp, run, short

HEAD = """
from mau.parsers.document_parser import DocumentParser
from mau.message import BaseMessageHandler
from mau.environment.environment import Environment
from mau.text_buffer import Context
from mau.token import Token, TokenType
"""


class Doc:
    """A document: `lines` of (token type, value) pairs; a value that starts
    with `$` is the name of a symbolic text."""

    def __init__(self, *lines, setup="", returns="parser", env=""):
        self.lines = lines
        self.setup = setup
        self.returns = returns
        self.env = env

    def names(self):
        out = []
        for ln in self.lines:
            for t, v in ln:
                if v.startswith("$") and v[1:] not in out:
                    out.append(v[1:])
        return out

    def source(self, fname):
        out = [f"def {fname}({''.join(n + ': str, ' for n in self.names())}handler: BaseMessageHandler):"]
        out.append("    environment = Environment()")
        if self.env:
            out.append(f"    environment.dupdate({self.env})")
        out.append("    tokens = []")
        for i, ln in enumerate(self.lines):
            col = 0
            for t, v in ln:
                end = col + (5 if v.startswith("$") else len(v))
                val = v[1:] if v.startswith("$") else repr(v)
                out.append(f"    tokens.append(Token(TokenType.{t}, {val}, Context({i}, {col}, {i}, {end}, 'main.mau')))")
                col = end + 1
        n = len(self.lines)
        out.append(f"    tokens.append(Token(TokenType.EOF, '', Context({n}, 0, {n}, 0, 'main.mau')))")
        out.append("    parser = DocumentParser(tokens, handler, environment)")
        for x in self.setup.splitlines():
            out.append("    " + x.strip())
        out.append("    parser.parse()")
        out.append(f"    return {self.returns}")
        return "\n".join(out) + "\n"


EOL = ("EOL", "")


def programs(prog, docs):
    """{key: function} for a dictionary of documents."""
    src = HEAD + "\n" + "\n".join(d.source(f"client_{i}") for i, d in enumerate(docs.values()))
    fs = client(prog, src, "documents")
    return {k: fs[f"client_{i}"] for i, k in enumerate(docs)}


def simple_arguments(text):
    """Arguments of a constant text (comma separated, possibly in quotes)."""
    named, unnamed, tags, subtype = [], [], [], None
    for a in [x.strip().replace('"', "") for x in re.findall(r'(?:[^,"]|"[^"]*")+', text) if x.strip()]:
        if a.startswith("#"):
            tags.append(a[1:])
        elif a.startswith("*"):
            subtype = a[1:]
        elif "=" in a:
            named.append(tuple(a.split("=", 1)))
        else:
            unnamed.append(a)
    return unnamed, named, tags, subtype


def nested_fake(empty=()):
    """BaseParser.lex_and_parse: the parser of a nested text is really created
    but its nodes stand for the whole text: one node (none for the texts in
    `empty`)."""

    def fake(ip, st, fi, args, kwargs, node):
        names = [a.arg for a in fi.node.args.args]
        b = dict(zip(names, args))
        b.update(kwargs)
        c = b.pop(names[0])
        if isinstance(c, R):
            c = Cl(st.heap[c.oid].cls)
        if not isinstance(c, Cl):
            return NotImplemented
        text = ip.snap(st, b.get("text", b.get(names[1])))
        raw = {k: ip.snap(st, v) for k, v in b.items()}
        ip.emit(st, "nested", c.ci.name, text, tuple(sorted(raw.items(), key=lambda x: x[0])), node=node)
        kw = {k: v for k, v in b.items() if k not in ("text", "start_line", "start_column", "source_filename", "message_handler", "environment")}
        outs = []
        for s2, r in ip.call(st, c, [ip.new_list(st, ()), b.get("message_handler", NONE), b.get("environment", NONE)], kw, node):
            if s2.exc is None and isinstance(r, R):
                o = s2.heap[r.oid].with_attr(TEXT, text)
                if c.ci.name not in ("ArgumentsParser", "ConditionParser"):
                    gone = c.ci.name == "TextParser" and isinstance(text, S) and text.op == "var" and text.args[0] in empty
                    one = () if gone else (("item", ip.lazy_obj(s2, NODES.get(c.ci.name, "ParagraphNode"), S("nodes", (text,)))),)
                    o = o.with_attr("nodes", ip.new_list(s2, one))
                s2.heap[r.oid] = o
            outs.append((s2, r))
        return outs

    return fake


TEXT = "<text>"
NODES = {"TextParser": "TextNode", "PreprocessVariablesParser": "TextNode"}


def arguments_fake(ip, st, fi, args, kwargs, node):
    """ArgumentsParser.arguments: the arguments of a constant text."""
    o = st.heap.get(args[0].oid) if isinstance(args[0], R) else None
    val = o.get(TEXT) if o is not None else None
    if not isinstance(val, K):
        return NotImplemented
    unnamed, named, tags, subtype = simple_arguments(val.v)

    def value(x):
        if x.startswith("%"):
            # an unknown value that is not empty
            v = S("var", (x[1:],), ("str",))
            st.facts[S("truth", (v,))] = True
            return v
        return K(x)

    kw = {
        "unnamed_args": ip.new_list(st, tuple(("item", value(x)) for x in unnamed)),
        "named_args": ip.new_list(st, tuple(("kv", K(k), value(v)) for k, v in named), "dict"),
        "tags": ip.new_list(st, tuple(("item", K(x)) for x in tags)),
        "subtype": K(subtype),
    }
    return ip.call(st, Cl(ip.p.cls("NodeArguments")), [], kw, node)


def replaced_fake(ip, st, fi, args, kwargs, node):
    """PreprocessVariablesParser.get_processed_text: a text without variables."""
    o = st.heap.get(args[0].oid) if isinstance(args[0], R) else None
    val = o.get(TEXT) if o is not None else None
    if val is None:
        return NotImplemented
    tt = ip.p.cls("TokenType")
    ctx = ip.lazy_obj(st, "Context", S("context", (val,)))
    return ip.call(st, Cl(ip.p.cls("Token")), [Enm(tt, "TEXT"), val, ctx], {}, node)


def fakes(prog, empty=()):
    return {
        prog.method("BaseParser", "lex_and_parse").full: nested_fake(empty),
        prog.method("ArgumentsParser", "arguments").full: arguments_fake,
        prog.method("PreprocessVariablesParser", "get_processed_text").full: replaced_fake,
    }


def explore(ctx, fi, extra=None, empty=(), unroll=10, **kw):
    """Outcomes of the document; None when the analysis is out of budget."""
    ip = interp(ctx.prog, {**fakes(ctx.prog, empty), **(extra or {})}, base={}, raise_mode=True, unroll=unroll, **{"max_steps": 80000, "max_cpu": 90, **kw})
    st = State()
    for a in fi.node.args.args:
        # the texts of the tokens are not empty
        if a.arg != "handler":
            st.facts[S("truth", (S("var", (a.arg,)),))] = True
    try:
        outs = run(ip, fi, state=st)
    except Budget:
        outs = None
    ctx.saw(ip)
    if outs:
        ctx.paths += len(outs)
    return ip, outs


class Unclear(Exception):
    pass


def const(o, v):
    """A value as Python data; raises Unclear when it is not known."""
    if isinstance(v, R):
        ob = o.st.heap[v.oid]
        if ob.kind == "obj":
            raise Unclear(short(o.snap(v)))
    n = o.snap(v)
    if isinstance(n, K):
        return n.v
    if isinstance(n, S) and n.op == "var":
        return "$" + n.args[0]
    if isinstance(n, Enm):
        return n.name
    if isinstance(v, Tup):
        return tuple(const(o, x) for x in v.items)
    if isinstance(v, R):
        ob = o.st.heap[v.oid]
        if ob.kind in ("list", "set") and all(q[0] == "item" for q in ob.parts):
            return [const(o, q[1]) for q in ob.parts]
        if ob.kind == "dict" and all(q[0] == "kv" for q in ob.parts):
            return {const(o, q[1]): const(o, q[2]) for q in ob.parts}
    raise Unclear(short(n))


def elements(o, v):
    """Items of a list."""
    ps = o.parts(v)
    if ps is None or any(q[0] != "item" for q in ps):
        raise Unclear(short(o.snap(v)))
    return [q[1] for q in ps]


def text_of(o, v):
    """Name of the symbolic text a node stands for, or None."""
    ob = o.obj(v)
    p = ob.path if ob is not None and ob.lazy else v if isinstance(v, S) else None
    if isinstance(p, S) and p.op == "nodes":
        t = p.args[0]
        return "$" + t.args[0] if isinstance(t, S) and t.op == "var" else t.v if isinstance(t, K) else None
    return None


def class_name(o, v):
    c = o.cls(v)
    return c.name if c is not None else None


def judge(ctx, rule, cons, fi, expected, look, empty=(), extra=None, errors=()):
    ip, outs = explore(ctx, fi, extra, empty=empty)
    if outs is None:
        ctx.check(rule, cons, None, "out of budget")
        return
    ctx.need("coverage", cons, bool(outs), "no outcome")
    for exc, desc, f, nd, where, stack, facts in ip.partials:
        if "rec(" not in desc and "phi(" not in desc:
            ctx.check(rule, cons, None, f"{exc}: {desc}", where)
    for o in outs:
        if o.exc is not None and o.exc_name in errors:
            continue
        if o.exc is not None:
            ctx.check(rule, cons, False, f"{o.exc_name} is raised", o.where(), o.path_text)
            continue
        try:
            got = look(o)
        except Unclear as exc:
            ctx.check(rule, cons, None, str(exc), o.where())
            continue
        ok = got == expected
        ctx.check(rule, cons, ok, "" if ok else f"the result is {got} instead of {expected}", o.where(), o.path_text)


def arguments(text):
    """A line with the boxed arguments of the next element."""
    return [("ARGUMENTS", "["), ("TEXT", text), ("LITERAL", "]")]


def block(content, fence="----"):
    return [("BLOCK", fence), ("TEXT", content), ("BLOCK", fence)] if content else [("BLOCK", fence), ("BLOCK", fence)]


def include(kind, args=None):
    return [("INCLUDE", "<<"), ("TEXT", kind)] + ([("LITERAL", ":"), ("TEXT", args)] if args else [])
