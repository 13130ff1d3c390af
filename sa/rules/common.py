"""Helpers shared by the rules."""

from __future__ import annotations

from ..absint import Ev, K, LoopEv, NONE, R, S, State, Tup, flat
from ..loader import AnalysisBroken, ClassInfo
from ..model import Out, attr, callable_name, depends, interp, run, short, subterms, var

SELF = var("self")
NODE_PASSTHROUGH = ("sorted", "reversed", "list", "tuple_of", "enumerate", "itemsof", "valuesof", "keysof")


def method_outs(ctx, cls, name, extra=None, setup=None, args=None, kwargs=None, **kw):
    """Outcomes of a method started from an arbitrary state."""
    fi = ctx.prog.method(cls, name)
    ip = interp(ctx.prog, extra, **kw)
    outs = run(ip, fi, self_cls=cls, setup=setup, args=args, kwargs=kwargs)
    ctx.saw(ip)
    ctx.paths += len(outs)
    return outs


def func_outs(ctx, name, extra=None, setup=None, args=None, **kw):
    fi = ctx.prog.func(name)
    ip = interp(ctx.prog, extra, **kw)
    outs = run(ip, fi, setup=setup, args=args)
    ctx.saw(ip)
    ctx.paths += len(outs)
    return outs


def alts(v):
    """Alternatives of a joined value."""
    if isinstance(v, S) and v.op == "phi":
        out = []
        for a in v.args[2:]:
            out.extend(alts(a))
        return out
    return [v]


def part_alts(parts):
    """Possible explicit contents of a list of parts: alternatives of `each`
    are kept apart: [(facts, [values])]."""
    out = []
    for q in parts:
        if q[0] == "each":
            for facts, ps in q[2]:
                out.append((facts, list(ps)))
    return out


def loop_events(o: Out):
    """(LoopEv, depth-0) of an outcome, nested ones included."""
    def rec(trace):
        for e in trace:
            if isinstance(e, LoopEv):
                yield e
                for _, sub in e.alts:
                    yield from rec(sub)
    return list(rec(o.st.trace))


def over(src, base):
    """Does the iteration source range over the whole of collection `base`?
    True: every element; False: a subset (slice, filter); None: unknown."""
    t = src
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "rest":
        t = t[1]
    while True:
        if t == base:
            return True
        if isinstance(t, S) and t.op in NODE_PASSTHROUGH and t.args:
            a = t.args[0]
            if isinstance(a, tuple) and len(a) == 2:
                a = a[1]
            if t.op in ("sorted", "reversed") :
                pass
            t = a
            continue
        break
    if isinstance(t, S) and t.op == "slice" and depends(t, base):
        return False
    return None


def early_exit(o: Out, base):
    """A normal outcome that leaves the loop over `base` before its end, with
    no other complete loop over it."""
    if o.exc:
        return False
    if not any(e.kind == "iter" and depends(e.data[0], base) for e in o.events("iter")):
        return False
    return not any(e for e in o.st.trace if isinstance(e, LoopEv) and not e.partial and over(e.src, base))


def objs(o: Out, cls=None, path=None):
    """Final heap objects of a class / at a path: [R]."""
    res = []
    base = o.p.maybe_cls(cls) if isinstance(cls, str) else cls
    for oid, h in o.st.heap.items():
        if base is not None and not (h.kind == "obj" and isinstance(h.cls, ClassInfo) and o.p.is_subclass(h.cls, base)):
            continue
        if path is not None and h.path != path:
            continue
        res.append(R(oid))
    return res


def at_path(o: Out, path):
    for oid, h in o.st.heap.items():
        if h.path == path:
            return R(oid)
    return None


def message(o: Out):
    """The message object carried by the exception of an outcome."""
    exc = o.st.exc
    if exc is None or exc.value is None:
        return None
    return o.get(exc.value, "message")


def mau_error(ctx, rule, construct, o, ctx_pred=None, what=""):
    """The outcome raises a MauException; its context satisfies ctx_pred."""
    if o.exc_name != "MauException":
        ctx.check(rule, construct, False, f"{o.exc_name} escapes {what}", o.exc_where, o.path_text)
        return
    if ctx_pred is None:
        ctx.check(rule, construct, True)
        return
    m = message(o)
    c = o.get(m, "context") if m is not None else None
    t = o.snap(c) if c is not None else None
    if isinstance(c, R) and o.obj(c) is not None and o.obj(c).path is None:
        t = S("located", (t, o.deep(c, 4)))
    ctx.check(rule, construct, None if t is None else bool(ctx_pred(t)), f"the error raised does not carry the position of the offending element (context is {short(t)})", o.exc_where, o.path_text)


def rests(parts):
    return [q[1] for q in parts or () if q[0] == "rest"]


def mentions(t, name):
    return depends(t, lambda x: isinstance(x, S) and x.op == "attr" and x.args[1] == name)


def nonempty(facts, t):
    """What the facts say about the emptiness of t: True/False/None."""
    items = facts.items() if isinstance(facts, dict) else facts
    n = S("len", (t,))
    for k, v in items:
        if not isinstance(k, S):
            continue
        if k.op == "truth" and k.args[0] in (t, n):
            return v
        if k.op == "eq" and n in k.args and K(0) in k.args:
            return not v
        if k.op == "lt" and k.args == (K(0), n):
            return v
        if k.op == "le" and k.args == (K(1), n):
            return v
        if k.op == "le" and k.args == (n, K(0)):
            return not v
        if k.op == "lt" and k.args == (n, K(1)):
            return not v
    return None


def elem_obj(o: Out, base):
    """The generic element of a collection in the final heap: (ref, whole);
    whole is False when only a part of the collection was visited."""
    r = at_path(o, S("elem", (base,)))
    if r is not None:
        return r, True
    for oid, h in o.st.heap.items():
        p = h.path
        if isinstance(p, S) and p.op in ("elem", "at") and p.args and p.args[0] != base and depends(p.args[0], base):
            t = p.args[0]
            if isinstance(t, S) and t.op == "slice":
                return R(oid), False
        if isinstance(p, S) and p.op == "at" and p.args[0] == base and isinstance(p.args[1], K):
            return R(oid), False
    return None, None


def carried_value(t):
    """Is t (the identity of a value) something a previous iteration of a loop
    built?"""
    if not isinstance(t, S):
        return False
    if t.op == "carried":
        return True
    if t.op == "phi":
        return any(carried_value(a) for a in t.args[2:])
    if t.op in ("getitem", "val", "at", "elem", "pop", "get", "setdefault") and t.args:
        return depends(t.args[0], lambda x: isinstance(x, S) and x.op in ("carried", "accum"))
    return False


def own_value(ctx, o, rule, cons, owner, name, what):
    """What is stored in attribute `name` of the generic element `owner` is
    never an object that was given to a previous element."""
    for e in o.events("set"):
        if e.data[0] == owner and e.data[1] == name:
            ctx.check(rule, cons, not carried_value(e.data[2]), f"{what} may be shared: {short(e.data[2])} was already given to another one", e.where, o.path_text)


def no_reparent(ctx, o, rule, cons, copy, owner):
    """No later assignment moves a copied node under something else."""
    for e in o.events("set"):
        if e.data[1] == "parent" and e.data[2] != owner and not carried_value(e.data[0]) and element_of(e.data[0], copy):
            ctx.check(rule, cons, False, f"the copied nodes become children of {short(e.data[2])}", e.where, o.path_text)


def element_of(t, x):
    """Is t the object x, possibly taken out of containers that hold it?"""
    if t == x:
        return True
    if isinstance(t, S):
        return t.op != "attr" and any(element_of(a, x) for a in t.args)
    if isinstance(t, Tup):
        return any(element_of(a, x) for a in t.items)
    if isinstance(t, (tuple, frozenset)):
        return any(element_of(a, x) for a in t)
    return False
