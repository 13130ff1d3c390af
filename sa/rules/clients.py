"""Small client programs analysed together with the package.

A client is a use of the public interface with symbolic arguments: the
abstract result is compared with the one the interface promises, written as a
term over the same arguments. Nothing is executed."""

from __future__ import annotations

from ..absint import Budget, K, NONE, R, S, Tup
from ..loader import AnalysisBroken
from ..model import attr, client, interp, run, short, subterms, var


class Unknown(Exception):
    pass


def norm(t):
    """A result as a comparable value: Unknown when its shape is not known."""
    if isinstance(t, K):
        return ("const", type(t.v).__name__, t.v)
    if isinstance(t, Tup):
        return ("seq", tuple(norm(x) for x in t.items))
    if isinstance(t, S):
        if t.op == "var":
            return ("var", t.args[0])
        if t.op == "fstr":
            return ("text", tuple(x.v if isinstance(x, K) else norm(x) for x in t.args))
        if t.op in ("list", "tuple"):
            if any(not isinstance(q, tuple) or q[0] != "item" for q in t.args):
                raise Unknown(short(t))
            return ("seq", tuple(norm(q[1]) for q in t.args))
        if t.op == "set":
            if any(not isinstance(q, tuple) or q[0] != "item" for q in t.args):
                raise Unknown(short(t))
            return ("set", frozenset(norm(q[1]) for q in t.args))
        if t.op == "dict":
            if any(not isinstance(q, tuple) or q[0] != "kv" for q in t.args):
                raise Unknown(short(t))
            return ("dict", frozenset((norm(q[1]), norm(q[2])) for q in t.args))
        if t.op == "obj":
            # an object where plain data is expected
            return ("object", t.args[0])
        if t.op == "attr":
            return ("attr", norm(t.args[0]), t.args[1])
    raise Unknown(short(t))


def want(x):
    """The expected value: Python literals; V("a") is the argument a."""
    if isinstance(x, V):
        return ("var", x.name)
    if isinstance(x, dict):
        return ("dict", frozenset((want(k), want(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(want(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", frozenset(want(v) for v in x))
    return ("const", type(x).__name__, x)


class V:
    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, V) and o.name == self.name


def show(n):
    k = n[0]
    if k == "const":
        return repr(n[2])
    if k == "var":
        return n[1]
    if k == "seq":
        return "[" + ", ".join(show(x) for x in n[1]) + "]"
    if k == "set":
        return "{" + ", ".join(sorted(show(x) for x in n[1])) + "}"
    if k == "dict":
        return "{" + ", ".join(sorted(f"{show(a)}: {show(b)}" for a, b in n[1])) + "}"
    return repr(n)


def judge(ctx, rule, construct, fi, expected, base=None, extra=None, unroll=8, **kw):
    """Compare the abstract result(s) of client fi with the expected value."""
    ip = interp(ctx.prog, extra, base={} if base is None else base, raise_mode=True, unroll=unroll, **{"max_steps": 120000, **kw})
    try:
        outs = run(ip, fi)
    except Budget as exc:
        ctx.saw(ip)
        ctx.check(rule, construct, None, str(exc))
        return ip, []
    ctx.saw(ip)
    ctx.paths += len(outs)
    exp = want(expected)
    for exc, desc, f, nd, where, stack, facts in ip.partials:
        ctx.check(rule, construct, False, f"{exc}: {desc}", where)
    for o in outs:
        if o.exc is not None:
            ctx.check(rule, construct, False, f"{o.exc_name} is raised", o.where(), o.path_text)
            continue
        try:
            got = norm(o.deep(o.value, 8))
        except Unknown as exc:
            ctx.check(rule, construct, None, f"result {exc}", o.where())
            continue
        ok = got == exp
        ctx.check(rule, construct, ok, "" if ok else f"the result is {show(got)[:160]} instead of {show(exp)[:160]}", o.where(), o.path_text)
    ctx.need("coverage", construct, bool(outs), "no outcome")
    return ip, outs


__all__ = ["V", "judge", "client", "norm", "want", "Unknown"]
