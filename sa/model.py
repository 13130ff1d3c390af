"""Views over abstract outcomes shared by the rules."""

from __future__ import annotations

from .absint import (
    BM, Cl, Enm, Ev, Exc, Fn, Interp, K, LoopEv, NONE, O, Pt, R, S, State, Tup, TRUE, FALSE, flat,
)
from .loader import AnalysisBroken, ClassInfo, FuncInfo, Program
from . import summaries as su

ALL_SUMMARIES = {**su.TM, **su.PARSE, **su.ENV}


def interp(prog, extra=None, base=None, **kw):
    return Interp(prog, summaries={**(ALL_SUMMARIES if base is None else base), **(extra or {})}, **kw)


# ------------------------------------------------------------------ terms
def subterms(v):
    """All the sub-terms of a provenance term."""
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, S):
            stack.extend(x.args)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, frozenset):
            stack.extend(x)


def depends(v, target):
    """Does term v mention `target` (a term or a predicate)?"""
    f = target if callable(target) else (lambda t: t == target)
    return any(f(t) for t in subterms(v))


def attr(base, *names):
    for n in names:
        base = S("attr", (base, n))
    return base


def var(n):
    return S("var", (n,))


def is_attr(t, name=None):
    return isinstance(t, S) and t.op == "attr" and (name is None or t.args[1] == name)


def roots(v):
    return {t for t in subterms(v) if isinstance(t, S) and t.op in ("var", "tok", "parsed", "envvar", "new")}


# ----------------------------------------------------------------- outcomes
class Out:
    """One abstract outcome of an entry point."""

    def __init__(self, ip: Interp, st: State, value, name=""):
        self.ip = ip
        self.p = ip.p
        self.st = st
        self.value = value
        self.name = name

    # -- basic
    @property
    def exc(self):
        return self.st.exc

    @property
    def exc_name(self):
        return self.st.exc.name if self.st.exc else None

    @property
    def exc_where(self):
        return self.st.exc.where if self.st.exc else None

    def events(self, *kinds):
        return [e for e, _ in flat(self.st.trace) if not kinds or e.kind in kinds]

    def snap(self, v):
        return self.ip.snap(self.st, v)

    def deep(self, v, depth=4, seen=()):
        """A term that also unfolds the contents of locally created objects."""
        if isinstance(v, R):
            o = self.st.heap.get(v.oid)
            if o is None or v.oid in seen or depth <= 0:
                return S("ref", (v.oid,))
            s2 = seen + (v.oid,)
            if o.kind == "obj":
                if o.lazy and o.path is not None and not o.attrs:
                    return o.path
                parts = tuple((k, self.deep(x, depth - 1, s2)) for k, x in o.attrs if k != "parent")
                base = (o.path,) if o.lazy and o.path is not None else ()
                return S("obj", (o.cls.name if isinstance(o.cls, ClassInfo) else str(o.cls),) + base + parts)
            if o.lazy and o.path is not None and o.parts == (("rest", o.path),) and not o.deleted:
                return o.path
            return S(o.kind, tuple(self._deep_part(q, depth - 1, s2) for q in o.parts) + ((("del",) + tuple(o.deleted)) if o.deleted else ()))
        if isinstance(v, Tup):
            return Tup(tuple(self.deep(i, depth, seen) for i in v.items))
        if isinstance(v, S):
            return S(v.op, tuple(self.deep(a, depth, seen) if isinstance(a, (R, Tup, S)) else a for a in v.args), v.ty)
        return v

    def _deep_part(self, q, depth, seen):
        if q[0] == "item":
            return ("item", self.deep(q[1], depth, seen))
        if q[0] == "kv":
            return ("kv", self.deep(q[1], depth, seen), self.deep(q[2], depth, seen))
        if q[0] == "each":
            return ("each", self.deep(q[1], depth, seen), tuple((f, tuple(self._deep_part(x, depth, seen) for x in ps)) for f, ps in q[2]))
        return q

    # -- navigation
    def obj(self, v):
        return self.st.heap.get(v.oid) if isinstance(v, R) else None

    def cls(self, v):
        o = self.obj(v)
        return o.cls if o is not None and o.kind == "obj" and isinstance(o.cls, ClassInfo) else None

    def is_a(self, v, name):
        c = self.cls(v)
        base = self.p.maybe_cls(name)
        return c is not None and base is not None and self.p.is_subclass(c, base)

    def get(self, v, *names):
        """Final value of an attribute path. Attributes never touched are
        returned as their initial provenance term."""
        for n in names:
            o = self.obj(v)
            if o is None and isinstance(v, S) and v in self.st.memo:
                o = self.st.heap.get(self.st.memo[v])
            if o is None or o.kind != "obj":
                v = S("attr", (self.snap(v), n)) if v is not None else None
                continue
            x = o.get(n)
            if x is None:
                t = S("attr", (self.snap(v), n))
                oid = self.st.memo.get(t)
                x = R(oid) if oid is not None else t
            v = x
        return v

    def initial(self, v, term):
        """Is value v still the untouched initial value `term`?"""
        s = self.snap(v)
        return s == term

    def parts(self, v):
        """Parts of a container value, or None when unknown."""
        o = self.obj(v)
        if o is not None and o.kind in ("list", "dict", "set"):
            return o.parts
        if isinstance(v, Tup):
            return tuple(("item", x) for x in v.items)
        return None

    def items(self, v):
        """Explicit items of a list (without the `rest`), expanding loops."""
        out = []
        ps = self.parts(v)
        if ps is None:
            return None
        def rec(ps):
            for q in ps:
                if q[0] == "item":
                    out.append(q[1])
                elif q[0] == "kv":
                    out.append(q[2])
                elif q[0] == "each":
                    for f, sub in q[2]:
                        rec(sub)
        rec(ps)
        return out

    def added(self, v, initial):
        """Parts of container v appended after its initial content. None when
        the initial content is gone or the container is unknown."""
        o = self.obj(v)
        if o is None:
            return () if isinstance(v, S) and v == initial else None
        if o.lazy and o.path is not None and not o.parts:
            return ()
        ps = o.parts
        if ps and ps[0][0] == "rest" and ps[0][1] == initial and not o.deleted:
            return ps[1:]
        return None

    def fact(self, pred):
        """First fact (atom, polarity) satisfying pred(atom)."""
        for k, v in self.st.facts.items():
            if pred(k):
                return k, v
        return None

    def where(self):
        if self.exc:
            return self.exc.where
        for e in reversed(self.events()):
            if e.where:
                return e.where
        return ("?", "?")

    def path_text(self, limit=14):
        evs = [f"{e.kind} {', '.join(short(d) for d in e.data[:3])} @{e.where[0] if e.where else '?'}" for e in self.events("assume", "gettoken", "set", "mut", "parse", "raise", "open")]
        if len(evs) > limit:
            evs = evs[: limit // 2] + ["..."] + evs[-limit // 2:]
        return evs


def short(x, n=110):
    t = repr(x)
    return t if len(t) <= n else t[: n - 3] + "..."


def run(ip: Interp, fi: FuncInfo, setup=None, self_cls=None, self_path="self", args=None, state=None, kwargs=None, self_val=None):
    """Analyse fi with symbolic arguments typed by its annotations."""
    st = state or State()
    params = list(fi.node.args.args)
    if fi.cls is not None and self_val is None and not fi.is_staticmethod:
        self_val = ip.lazy_obj(st, self_cls or fi.cls, self_path)
    if self_val is not None and params:
        params = params[1:]
    vals = []
    args = args or {}
    for a in params:
        if a.arg in args:
            vals.append(args[a.arg])
            continue
        ty = ip.p.parse_type(fi.module, a.annotation)
        vals.append(ip.mk(st, var(a.arg), ty))
    kw = dict(kwargs or {})
    for a in fi.node.args.kwonlyargs:
        if a.arg in args:
            kw[a.arg] = args[a.arg]
        elif a.arg not in kw:
            kw[a.arg] = ip.mk(st, var(a.arg), ip.p.parse_type(fi.module, a.annotation))
    if setup:
        setup(st, self_val, vals)
    outs = ip.call_function(fi, st, vals, kw, self_val)
    return [Out(ip, s, v, fi.qual) for s, v in outs]


def call(ip, st, fn, args=(), kwargs=None, name=""):
    import ast

    node = ast.parse("None").body[0]
    return [Out(ip, s, v, name) for s, v in ip.call(st, fn, list(args), kwargs or {}, node)]


def callable_name(fn):
    while isinstance(fn, (Pt, BM)):
        fn = fn.fn
    if isinstance(fn, Fn):
        return fn.info.qual
    return short(fn)


def callable_info(fn):
    while isinstance(fn, (Pt, BM)):
        fn = fn.fn
    return fn.info if isinstance(fn, Fn) else None


class Processors:
    """The processing functions a parser class tries, obtained by evaluating
    its `_process_functions` abstractly (not by name)."""

    def __init__(self, prog, cls_name, extra=None, **kw):
        self.prog = prog
        self.cls_name = cls_name
        self.extra = extra
        self.kw = kw
        fi = prog.method(cls_name, "_process_functions")
        ip = interp(prog, extra)
        st = State()
        self_val = ip.lazy_obj(st, cls_name, "parser")
        outs = ip.call_function(fi, st, [], {}, self_val)
        outs = [(s, v) for s, v in outs if s.exc is None]
        if len(outs) != 1:
            raise AnalysisBroken(f"{cls_name}._process_functions has {len(outs)} outcomes")
        o = Out(ip, outs[0][0], outs[0][1])
        ps = o.parts(o.value)
        if ps is None or any(q[0] != "item" for q in ps):
            raise AnalysisBroken(f"{cls_name}._process_functions does not return a literal list")
        self.count = len(ps)
        self.names = [callable_name(q[1]) for q in ps]
        self.infos = [callable_info(q[1]) for q in ps]
        if any(i is None for i in self.infos):
            raise AnalysisBroken(f"{cls_name}: unresolved processing function {self.names}")

    def outcomes(self, i, extra=None, setup=None, **kw):
        """Outcomes of the i-th processing function."""
        ip = interp(self.prog, {**(self.extra or {}), **(extra or {})}, **{**self.kw, **kw})
        st = State()
        parser = ip.lazy_obj(st, self.cls_name, "parser")
        fi = self.prog.method(self.cls_name, "_process_functions")
        outs = ip.call_function(fi, st, [], {}, parser)
        s, v = [x for x in outs if x[0].exc is None][0]
        fn = Out(ip, s, v).parts(v)[i][1]
        if setup:
            setup(ip, s, parser)
        res = call(ip, s, fn, name=self.names[i])
        for r in res:
            r.parser = parser
        return ip, res


def attr_of(prog, cls_name, ty_name):
    """Name of the attribute of `cls_name` whose type is `ty_name`."""
    ci = prog.cls(cls_name)
    want = prog.cls(ty_name)
    for n, ty in prog.attr_types(ci).items():
        t = ty
        if t and t[0] == "opt":
            t = t[1]
        if t and t[0] == "cls" and t[1] is want:
            return n
    raise AnalysisBroken(f"anchor: no attribute of {cls_name} has type {ty_name}")


def client(prog, source, name="client"):
    """Functions of a small client program of the analysed package: it is
    only analysed, together with the code it calls. Each function is a use of
    the public interface whose arguments are symbolic."""
    import ast

    from .loader import Module

    tree = ast.parse(source)
    m = Module(name, f"<{name}>", tree, False)
    prog._bind_body(m, tree.body)
    return {n: b[1] for n, b in m.bindings.items() if b[0] == "func"}
