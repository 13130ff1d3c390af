"""Shared exploration of the inline (text) parser."""

from __future__ import annotations

from ..absint import K, NONE, R, S, State, Tup
from ..model import Out, attr, depends, interp, run, var

PARSER = var("parser")


class Texts:
    """Outcomes of parsing one inline element from an arbitrary state."""

    def __init__(self, ctx, entry="_parse_text", extra=None):
        self.ctx = ctx
        fi = ctx.prog.method("TextParser", entry)
        ip = interp(ctx.prog, extra, max_steps=3000000)
        box = {}

        def setup(st, self_val, vals):
            box["self"] = self_val

        self.outs = run(ip, fi, self_cls="TextParser", self_path="parser", setup=setup)
        for o in self.outs:
            o.parser = box["self"]
        self.entry = f"TextParser.{entry}"
        ctx.saw(ip)
        ctx.paths += len(self.outs)

    def nodes(self, o: Out):
        """Nodes returned by an outcome (None: unknown)."""
        v = o.value
        return o.items(v)


def set_names(ip, st, fi, args, kwargs, node):
    """ArgumentsParser.set_names on an already parsed list of arguments."""
    env = ip.bind(st, fi.node.args, args, kwargs, fi.qual, None, fi.module)
    n = [a.arg for a in fi.node.args.args]
    me = ip.snap(st, env[n[0]])
    if not (isinstance(me, S) and me.op == "parsed"):
        return NotImplemented
    names = Out(ip, st, None).parts(env[n[1]])
    lit = None
    if names is not None and all(q[0] == "item" and isinstance(q[1], K) for q in names):
        lit = tuple(q[1].v for q in names)
    ip.emit(st, "setnames", me, lit, node=node)
    return [(st, NONE)]


SETNAMES = {"ArgumentsParser.set_names": set_names}


def arguments_term(t):
    """The parsed arguments mentioned by a term."""
    for x in _subs(t):
        if isinstance(x, S) and x.op == "parsed" and x.args[0] == "ArgumentsParser":
            return x
    return None


def _subs(t):
    from ..model import subterms
    return subterms(t)


def named_arg(t):
    """Name of the argument when t is the node of a named argument."""
    if isinstance(t, S) and t.op in ("at", "getitem", "get", "pop", "val") and len(t.args) > 1 and isinstance(t.args[1], K):
        b = t.args[0]
        if isinstance(b, S) and b.op == "attr" and b.args[1] == "named_argument_nodes":
            return t.args[1].v
    return None


def arg_value(t):
    """Name of the argument when t is the value of a named argument."""
    if isinstance(t, S) and t.op == "attr" and t.args[1] == "value":
        return named_arg(t.args[0])
    return isolated_arg(t)


def isolated_arg(t):
    """Name of the argument when t is an entry of `arguments.named_args`."""
    if isinstance(t, S) and t.op in ("at", "getitem", "get", "pop", "val") and len(t.args) > 1 and isinstance(t.args[1], K) and _values(t.args[0]):
        return t.args[1].v
    return None


def _values(b):
    return isinstance(b, S) and b.op == "attr" and b.args[1] == "named_args" and isinstance(b.args[0], S) and b.args[0].op == "attr" and b.args[0].args[1] == "arguments" and isinstance(b.args[0].args[0], S) and b.args[0].args[0].op == "parsed"


def missing(o, name):
    """Do the facts say that the argument is missing? True/False/None"""
    for k, v in o.st.facts.items():
        if not isinstance(k, S):
            continue
        if k.op == "in" and k.args[0] == K(name) and isinstance(k.args[1], S) and k.args[1].op == "attr" and (k.args[1].args[1] == "named_argument_nodes" or _values(k.args[1])):
            return not v
        if k.op == "isnone" and name in (named_arg(k.args[0]), isolated_arg(k.args[0])):
            return v
        if k.op == "truth" and named_arg(k.args[0]) == name and not v:
            return True
    return None


def mentions(x, name):
    """Does a term mention this argument?"""
    return depends(x, lambda y: named_arg(y) == name or isolated_arg(y) == name or (isinstance(y, S) and y.op == "in" and y.args[0] == K(name)))


CHANGES = ("lower", "upper", "strip", "slice", "replace", "mret", "removeprefix", "removesuffix", "fstr", "add", "split", "lstrip", "rstrip", "title", "getitem", "at", "capitalize", "join")


def changed(t):
    """Is the term the result of a text transformation?"""
    return isinstance(t, S) and t.op in CHANGES
