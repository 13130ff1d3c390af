"""Texts with unknown characters given to a lexer of the package."""

from __future__ import annotations

from ..absint import Budget, Enm, K, R, S, State
from ..chars import text
from ..model import client, interp, run, short
from .documents import Unclear, elements

HEAD = """
from mau.lexers.document_lexer import DocumentLexer
from mau.lexers.text_lexer import TextLexer
from mau.lexers.arguments_lexer import ArgumentsLexer
from mau.lexers.condition_lexer import ConditionLexer
from mau.lexers.preprocess_variables_lexer import PreprocessVariablesLexer
from mau.message import BaseMessageHandler
from mau.text_buffer import TextBuffer
"""
SOURCE = "main.mau"


def show(s):
    """A text with its unknown characters written as `<class>`."""
    from ..chars import NAMES, charset, BASE, SIZE

    return "".join(f"<{NAMES[(ord(c) - BASE) // SIZE]}>" if charset(c) is not None else c for c in s)


def programs(prog, cases):
    """{key: function} for {key: (lexer class, text, start line, start column)}."""
    out = [HEAD]
    for i, (cls, t, line, col) in enumerate(cases.values()):
        out.append(f"def client_{i}(handler: BaseMessageHandler):")
        out.append(f"    lexer = {cls}(TextBuffer({ascii(t)}, {line}, {col}, {SOURCE!r}), handler)")
        out.append("    lexer.process()")
        out.append("    return lexer.tokens\n")
    fs = client(prog, "\n".join(out) + "\n", "lexing")
    return {k: fs[f"client_{i}"] for i, k in enumerate(cases)}


def explore(ctx, fi, max_steps=60000):
    # texts that exhaust the analysis come in numbers: few are tried
    spent = ctx.__dict__.setdefault("lexing_spent", [])
    if len(spent) >= 8:
        return None, None
    ip = interp(ctx.prog, {}, base={}, raise_mode=True, unroll=120, max_steps=max_steps, max_cpu=20)
    try:
        outs = run(ip, fi, state=State())
    except Budget:
        outs = None
        spent.append(fi.full)
    ctx.saw(ip)
    if outs:
        ctx.paths += len(outs)
    return ip, outs


def plain(o, v):
    n = o.snap(v)
    if isinstance(n, K):
        return n.v
    if isinstance(n, Enm):
        return n.name
    raise Unclear(short(n))


def tokens(o, v):
    """[(type, value, (start line, column, end line, column), source)]."""
    out = []
    for t in elements(o, v):
        c = o.get(t, "context")
        span = tuple(plain(o, o.get(c, n)) for n in ("start_line", "start_column", "end_line", "end_column"))
        out.append((plain(o, o.get(t, "type")), plain(o, o.get(t, "value")), span, plain(o, o.get(c, "source"))))
    return out


def show_tokens(ts):
    return [(t[0], show(t[1])) + tuple(t[2:]) if isinstance(t[1], str) else t for t in ts]


def judge(ctx, rules, cons, fi, expected):
    """The tokens of a text must be the expected ones: their types, texts and
    order (first rule) and their positions (second rule); no error."""
    ip, outs = explore(ctx, fi)
    first, second = rules
    if outs is None:
        ctx.check(first, cons, None, "out of budget")
        return
    ctx.need("coverage", cons, bool(outs), "no outcome")
    for exc, desc, f, nd, where, stack, facts in ip.partials:
        ctx.check(first, cons, None, f"{exc}: {desc}", where)
    single = len(outs) == 1
    for o in outs:
        if o.exc is not None:
            ctx.check(first, cons, False if single else None, f"{o.exc_name} is raised", o.where(), o.path_text)
            continue
        try:
            got = tokens(o, o.value)
        except Unclear as exc:
            ctx.check(first, cons, None, str(exc), o.where())
            continue
        end = got[-1:]
        body = got[:-1]
        ok = [t[:2] for t in body] == [t[:2] for t in expected] and [t[:2] for t in end] == [("EOF", "")]
        if not ok and not single:
            ok = None
        ctx.check(first, cons, ok, f"the tokens are {show_tokens([t[:2] for t in got])} instead of {show_tokens([t[:2] for t in expected] + [('EOF', '')])}", o.where(), o.path_text)
        if ok:
            bad = [(g, e) for g, e in zip(body, expected) if g[2] != e[2] or g[3] != SOURCE]
            ctx.check(second, cons, not bad, "" if not bad else f"{show_tokens(bad[0][:1])[0]} is not at {bad[0][1][2]} of {SOURCE}", o.where(), o.path_text)
            last = expected[-1][2][2:] if expected else (0, 0)
            e = end[0][2]
            good = e[:2] == e[2:] and e[:2] >= last and end[0][3] == SOURCE
            ctx.check(second, f"{cons} (end)", good, f"the end of the text is at {e} of {end[0][3]}", o.where(), o.path_text)
