"""Whole-program abstract interpreter over the syntax trees of /repo/mau.

The interpreter computes, for one entry function, the set of abstract outcomes
(trace-partitioned abstract states) of its body.  Values are provenance terms:
constants, references to abstract heap objects (one per allocation), and opaque
terms that name where an unknown value comes from (`parser.label_buffer.labels`,
`elem(nodes)`, `tok(cursor)`...).  Calls into the analysed package are resolved
through the class hierarchy and analysed in context, so extracting or inlining
helpers does not change a result.  Loops and comprehensions are analysed on one
generic iteration and summarised as "for each element of X: alternatives";
`while` loops havoc what they assign.  A branch whose condition is not decided
by the facts known on a path is split, and the condition is recorded as a fact.
No solver, no concrete run: the domain of facts is finite and purely syntactic.
"""

from __future__ import annotations

import ast
import builtins
import collections
import resource
import time
from dataclasses import dataclass, field

from . import chars
from .loader import AnalysisBroken, ClassInfo, FuncInfo, Module, Program, assigned_names

# --------------------------------------------------------------------- values


@dataclass(frozen=True)
class K:
    """A constant."""

    v: object

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return f"{self.v!r}"


@dataclass(frozen=True)
class R:
    """Reference to an abstract heap object."""

    oid: int

    def __repr__(self):
        return f"#{self.oid}"


@dataclass(frozen=True)
class Tup:
    items: tuple

    def __hash__(self):
        h = self.__dict__.get("_h")
        if h is None:
            h = hash(("Tup", self.items))
            object.__setattr__(self, "_h", h)
        return h

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


@dataclass(frozen=True)
class S:
    """Opaque provenance term."""

    op: str
    args: tuple = ()
    ty: object = field(default=None, compare=False, hash=False, repr=False)

    def __hash__(self):
        h = self.__dict__.get("_h")
        if h is None:
            h = hash(("S", self.op, self.args))
            object.__setattr__(self, "_h", h)
        return h

    def __repr__(self):
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1]}"
        if self.op == "var":
            return str(self.args[0])
        return f"{self.op}({', '.join(map(repr, self.args))})"


@dataclass(frozen=True)
class Enm:
    """An enum member."""

    cls: ClassInfo
    name: str

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


@dataclass(frozen=True)
class Fn:
    info: FuncInfo
    fid: int | None = None  # closure frame
    defs: tuple = ()  # defaults evaluated where a nested function is defined

    def __repr__(self):
        return f"<fn {self.info.qual}>"


@dataclass(frozen=True)
class BM:
    fn: object  # Fn | FuncInfo wrapped
    self: object

    def __repr__(self):
        return f"{self.self!r}.<{self.fn!r}>"


@dataclass(frozen=True)
class BI:
    """Builtin method of a container / string / opaque value."""

    recv: object
    name: str


@dataclass(frozen=True)
class Pt:
    fn: object
    args: tuple
    kwargs: tuple


@dataclass(frozen=True)
class Cl:
    ci: ClassInfo

    def __repr__(self):
        return f"<class {self.ci.name}>"


@dataclass(frozen=True)
class Ex:
    """An external (not analysed) name."""

    name: str

    def __repr__(self):
        return f"<{self.name}>"


@dataclass(frozen=True)
class M:
    mod: Module


@dataclass(frozen=True)
class Super:
    after: ClassInfo
    self: object


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


@dataclass(frozen=True)
class O:
    """Abstract heap object (immutable; replaced on update)."""

    kind: str  # obj | list | dict | set
    cls: object = None
    attrs: tuple = ()  # ((name, value), ...)
    parts: tuple = ()
    path: object = None  # provenance term of a lazily materialised object
    lazy: bool = False
    exact: bool = True
    nullable: bool = False
    ty: object = field(default=None, compare=False, hash=False)
    deleted: tuple = ()

    def __hash__(self):
        h = self.__dict__.get("_h")
        if h is None:
            h = hash((self.kind, self.cls, self.attrs, self.parts, self.path, self.lazy, self.exact, self.nullable, self.deleted))
            object.__setattr__(self, "_h", h)
        return h

    def get(self, n):
        for k, v in self.attrs:
            if k == n:
                return v
        return None

    def with_attr(self, n, v):
        out = [(k, x) for k, x in self.attrs if k != n]
        out.append((n, v))
        return self.replace(attrs=tuple(out))

    def replace(self, **kw):
        d = dict(
            kind=self.kind,
            cls=self.cls,
            attrs=self.attrs,
            parts=self.parts,
            path=self.path,
            lazy=self.lazy,
            exact=self.exact,
            nullable=self.nullable,
            ty=self.ty,
            deleted=self.deleted,
        )
        d.update(kw)
        return O(**d)


@dataclass(frozen=True)
class Ev:
    """Trace event."""

    kind: str
    data: tuple
    where: tuple = field(default=(), compare=False, hash=False)

    def __hash__(self):
        h = self.__dict__.get("_h")
        if h is None:
            h = hash(("Ev", self.kind, self.data))
            object.__setattr__(self, "_h", h)
        return h

    def __repr__(self):
        return f"{self.kind}{self.data!r}@{self.where[:1]}"


@dataclass(frozen=True)
class LoopEv:
    src: object
    alts: tuple  # tuple of (facts tuple, trace tuple)
    kind: str = "for"
    where: tuple = field(default=(), compare=False, hash=False)
    partial: bool = False

    def __hash__(self):
        h = self.__dict__.get("_h")
        if h is None:
            h = hash(("L", self.src, self.alts, self.kind, self.partial))
            object.__setattr__(self, "_h", h)
        return h

    def __repr__(self):
        return f"LOOP[{self.src!r}]{list(self.alts)!r}"


# the memory (in KB) one analysis may use
MEMORY = 2_000_000


class State:
    forks = 0
    __slots__ = ("frames", "heap", "facts", "trace", "memo", "exc", "tmstack")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.trace = ()
        self.memo = {}
        self.exc = None
        self.tmstack = ()

    def fork(self):
        State.forks += 1
        if State.forks % 64 == 0 and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > MEMORY:
            raise Budget("analysis memory exceeded")
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.memo = dict(self.memo)
        s.exc = self.exc
        s.tmstack = self.tmstack
        return s


@dataclass(frozen=True)
class Exc:
    cls: object  # ClassInfo | external name str
    value: object = None
    where: tuple = field(default=(), compare=False, hash=False)

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassInfo) else str(self.cls).split(".")[-1]


def iterated(t, src):
    """Does the term mention the current element of a loop over src?"""
    if isinstance(t, S):
        if t.op in ("elem", "key", "val", "index", "item") and t.args and (t.args[0] == src or (isinstance(src, S) and src.args and t.args[0] == src.args[0])):
            return True
        return any(iterated(a, src) for a in t.args)
    if isinstance(t, tuple):
        return any(iterated(a, src) for a in t)
    return False


class Budget(AnalysisBroken):
    pass


PURE_EXT = {
    "len", "str", "int", "float", "bool", "min", "max", "abs", "sum", "repr", "ord", "chr",
    "hash", "id", "round", "format", "type",
}

MAX_UNROLL = 24

SKIP = object()


class Interp:
    def __init__(self, prog: Program, summaries=None, watch=(), max_steps=400000, raise_mode=False, unroll=1, max_cpu=None, max_depth=60):
        # frames of a recursive function that are analysed in line
        self.unroll = unroll
        self.p = prog
        # summaries: full-or-qual name -> callable(interp, st, call) -> [(st, value)]
        self.summaries = summaries or {}
        # watch: qualified names for which enter/exit events are recorded
        self.watch = set(watch)
        self.next_oid = 1
        self.next_fid = 1
        self.next_uid = 1
        self.stack = []
        self.tries = []  # dynamic stack of handler type lists
        self.steps = 0
        self.max_steps = max_steps
        self.max_cpu = max_cpu
        self.max_depth = max_depth
        self.started = time.process_time()
        self.raise_mode = raise_mode
        self.split_defaults = False
        # {name: text} of the files that exist, None when nothing is known
        self.files = None
        self.notes = []
        self.visited_funcs = set()
        self.curnode = None
        self.partials = []  # (exc, node, func, description) uncaught partial operations
        self.accs = set()
        self.module_memo = {}
        self._stored = {}
        self._isgen = {}
        self.virtual = set()  # method names never inlined on non exact receivers

    # ------------------------------------------------------------- utilities
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("analysis budget exceeded")
        if self.max_cpu and self.steps % 32 == 0 and time.process_time() - self.started > self.max_cpu:
            raise Budget("analysis time exceeded")

    def where(self, node=None):
        node = node or self.curnode
        fi = self.stack[-1] if self.stack else None
        return (
            f"{fi.module.path}:{getattr(node, 'lineno', '?')}" if fi else "?",
            fi.qual if fi else "?",
        )

    def note(self, text):
        w = self.where()
        self.notes.append((w, text))

    def uid(self):
        self.next_uid += 1
        return self.next_uid

    def emit(self, st, kind, *data, node=None):
        st.trace = st.trace + (Ev(kind, tuple(data), self.where(node)),)

    def alloc(self, st, o: O):
        oid = self.next_oid
        self.next_oid += 1
        st.heap[oid] = o
        return R(oid)

    def new_list(self, st, parts=(), kind="list"):
        return self.alloc(st, O(kind=kind, parts=tuple(parts)))

    def unknown(self, *deps, ty=None):
        return S("unknown", (self.uid(),) + deps, ty)

    # typed materialisation of an opaque term
    def mk(self, st, term, ty, nullable=False):
        """Return the value for provenance `term` with static type `ty`."""
        if ty is None:
            return S(term.op, term.args, None) if isinstance(term, S) else term
        if ty[0] == "opt":
            if ty[1] is None:
                return S(term.op, term.args, ("opt", None))
            return self.mk(st, term, ty[1], nullable=True)
        if ty[0] == "cls" and isinstance(ty[1], ClassInfo) and not ty[1].is_enum:
            key = term
            if key in st.memo:
                return R(st.memo[key])
            r = self.alloc(
                st,
                O(kind="obj", cls=ty[1], path=term, lazy=True, exact=not self.p.subclasses.get(ty[1].full), nullable=nullable),
            )
            st.memo[key] = r.oid
            return r
        if ty[0] in ("list", "dict", "set"):
            key = term
            if key in st.memo:
                return R(st.memo[key])
            r = self.alloc(
                st, O(kind=ty[0], parts=(("rest", S(term.op, term.args, ty)),), path=term, lazy=True, ty=ty, nullable=nullable)
            )
            st.memo[key] = r.oid
            return r
        return S(term.op, term.args, ("opt", ty) if nullable else ty)

    def lazy_obj(self, st, cls_name, path, exact=True):
        ci = self.p.cls(cls_name) if isinstance(cls_name, str) else cls_name
        term = path if isinstance(path, S) else S("var", (path,))
        r = self.alloc(st, O(kind="obj", cls=ci, path=term, lazy=True, exact=exact))
        st.memo[term] = r.oid
        return r

    # term view of a value (provenance), heap independent
    def snap(self, st, v, depth=6, seen=()):
        if isinstance(v, R):
            o = st.heap.get(v.oid)
            if o is None:
                return S("lost", (v.oid,))
            if v.oid in seen or depth <= 0:
                return S("ref", (v.oid,))
            if o.lazy and o.path is not None:
                if o.kind == "obj":
                    return o.path
                if o.parts == (("rest", o.path),) and not o.deleted:
                    return o.path
            seen2 = seen + (v.oid,)
            if o.kind == "obj":
                if self.is_exc_class(o.cls):
                    return S("new", (o.cls.name, v.oid))
                return S(
                    "new",
                    (o.cls.name, v.oid)
                    ,
                )
            return S(o.kind, tuple(self.snap_part(st, p, depth - 1, seen2) for p in o.parts) + (("del",) + tuple(o.deleted) if o.deleted else ()))
        if isinstance(v, Tup):
            return Tup(tuple(self.snap(st, i, depth, seen) for i in v.items))
        if isinstance(v, S):
            if any(isinstance(a, (R, Tup)) for a in v.args):
                return S(v.op, tuple(self.snap(st, a, depth, seen) if isinstance(a, (R, Tup, S)) else a for a in v.args), v.ty)
        return v

    def snap_part(self, st, p, depth=5, seen=()):
        if p[0] == "item":
            return ("item", self.snap(st, p[1], depth, seen))
        if p[0] == "kv":
            return ("kv", self.snap(st, p[1], depth, seen), self.snap(st, p[2], depth, seen))
        if p[0] == "each":
            return (
                "each",
                self.snap(st, p[1], depth, seen),
                tuple((f, tuple(self.snap_part(st, q, depth, seen) for q in ps)) for f, ps in p[2]),
            )
        return p

    def is_exc_class(self, ci):
        if not isinstance(ci, ClassInfo):
            return False
        for c in self.p.mro(ci):
            if isinstance(c, str):
                n = c.split(".")[-1]
                t = getattr(builtins, n, None)
                if isinstance(t, type) and issubclass(t, BaseException):
                    return True
        return False

    # ------------------------------------------------------------ exceptions
    def exc_bases(self, cls):
        if isinstance(cls, ClassInfo):
            out = []
            for c in self.p.mro(cls):
                if isinstance(c, ClassInfo):
                    out.append(c)
                else:
                    out.extend(self.exc_bases(c))
            return out
        n = str(cls).split(".")[-1]
        t = getattr(builtins, n, None)
        if isinstance(t, type) and issubclass(t, BaseException):
            return [x.__name__ for x in t.__mro__]
        return [n, "Exception", "BaseException"]

    def exc_matches(self, exc_cls, handler):
        """handler: ClassInfo | name | None (bare)."""
        if handler is None:
            return True
        bases = self.exc_bases(exc_cls)
        if isinstance(handler, ClassInfo):
            return handler in bases
        h = str(handler).split(".")[-1]
        return any((b == h) if isinstance(b, str) else False for b in bases)

    def caught(self, exc_cls):
        for handlers in self.tries:
            for h in handlers:
                if self.exc_matches(exc_cls, h):
                    return True
        return False

    def partial(self, st, exc_cls, desc, node=None):
        """An operation that may raise exc_cls. If some active handler catches
        it, returns a forked exceptional state; records it otherwise."""
        if self.caught(exc_cls):
            s2 = st.fork()
            s2.exc = Exc(exc_cls, S("excval", (self.uid(), str(exc_cls))), self.where(node))
            return s2
        if self.raise_mode:
            node = node or self.curnode
            fi = self.stack[-1] if self.stack else None
            self.partials.append((str(getattr(exc_cls, "name", exc_cls)), desc, fi, node, self.where(node), tuple(f.qual for f in self.stack), dict(st.facts)))
        return None

    def fail(self, st, exc_cls, node=None):
        """An operation that certainly raises exc_cls."""
        st.exc = Exc(exc_cls, S("excval", (self.uid(), str(exc_cls))), self.where(node))
        return [(st, NONE)]

    # ---------------------------------------------------------------- facts
    def norm(self, atom):
        """normalise a boolean term into (atom, polarity)"""
        pol = True
        while isinstance(atom, S) and atom.op == "not":
            atom = atom.args[0]
            pol = not pol
        return atom, pol

    def known(self, st, atom):
        atom, pol = self.norm(atom)
        r = self._known(st, atom)
        return None if r is None else (r == pol)

    def _known(self, st, a):
        if isinstance(a, K):
            return bool(a.v)
        if a in st.facts:
            return st.facts[a]
        if not isinstance(a, S):
            return None
        f = st.facts
        if a.op == "truth":
            x = a.args[0]
            if f.get(S("isnone", (x,))) is True:
                return False
            for k, v in f.items():
                if v and k.op == "eq" and x in k.args:
                    o = k.args[0] if k.args[1] == x else k.args[1]
                    if isinstance(o, K):
                        return bool(o.v)
            if isinstance(x, S) and x.op in ("fstr",):
                if any(isinstance(i, K) and i.v for i in x.args):
                    return True
        elif a.op == "isnone":
            x = a.args[0]
            if f.get(S("truth", (x,))) is True:
                return False
            for k, v in f.items():
                if v and k.op == "eq" and x in k.args:
                    o = k.args[0] if k.args[1] == x else k.args[1]
                    if isinstance(o, (K, Enm)):
                        return isinstance(o, K) and o.v is None
                if k.op == "isinstance" and v and k.args[0] == x:
                    return False
        elif a.op == "eq":
            x, y = a.args
            if x == y:
                return True
            for k, v in f.items():
                if v and k.op == "eq":
                    for p, q in (k.args, k.args[::-1]):
                        for m, n in ((x, y), (y, x)):
                            if p == m and isinstance(q, (K, Enm)) and isinstance(n, (K, Enm)) and q != n:
                                return False
            for m, n in ((x, y), (y, x)):
                if isinstance(n, Enm) and isinstance(m, S) and m.ty and m.ty[0] == "cls" and m.ty[1] is n.cls:
                    # every other member excluded
                    others = [Enm(n.cls, k) for k in self.enum_members(n.cls) if k != n.name]
                    if others and all(
                        f.get(S("eq", (o, m))) is False or f.get(S("eq", (m, o))) is False for o in others
                    ):
                        return True
                if isinstance(n, K) and isinstance(m, S):
                    for k, v in f.items():
                        if v and k.op == "oneof" and k.args[0] == m:
                            opts = k.args[1].items
                            if n not in opts:
                                return False
                            if all(
                                o == n or f.get(S("eq", (o, m))) is False or f.get(S("eq", (m, o))) is False for o in opts
                            ):
                                return True
                if isinstance(n, K):
                    t = f.get(S("truth", (m,)))
                    if t is True and not n.v:
                        return False
                    if t is False and n.v:
                        return False
                    if f.get(S("isnone", (m,))) is True:
                        return n.v is None
                    if f.get(S("isnone", (m,))) is False and n.v is None:
                        return False
        return None

    def branch(self, st, atom, node=None):
        """[(st, bool)] for a boolean term."""
        if isinstance(atom, K):
            return [(st, bool(atom.v))]
        atom, pol = self.norm(atom)
        if isinstance(atom, K):
            return [(st, bool(atom.v) == pol)]
        k = self._known(st, atom)
        if k is not None:
            return [(st, k == pol)]
        s2 = st.fork()
        st.facts[atom] = True
        self.emit(st, "assume", atom, True, node=node)
        s2.facts[atom] = False
        self.emit(s2, "assume", atom, False, node=node)
        return [(st, pol), (s2, not pol)]

    def truth_term(self, st, v):
        """boolean term for the truthiness of v"""
        if isinstance(v, K):
            return K(bool(v.v))
        if isinstance(v, (Fn, BM, BI, Pt, Cl, Ex, M, Enm)):
            return TRUE
        if isinstance(v, Tup):
            return K(len(v.items) > 0)
        if isinstance(v, R):
            o = st.heap[v.oid]
            if o.kind in ("list", "dict", "set"):
                if any(p[0] in ("item", "kv") for p in o.parts):
                    return TRUE
                if not o.parts:
                    return FALSE
                sn = self.snap(st, v)
                return S("truth", (sn,))
            has_len = isinstance(o.cls, ClassInfo) and (
                self.p.find_method(o.cls, "__bool__") or self.p.find_method(o.cls, "__len__")
            )
            if has_len and self.unroll > 1 and not o.lazy:
                t = self.user_truth(st, v, has_len)
                if t is not None:
                    return t
            if has_len:
                return S("truth", (self.snap(st, v),))
            if o.nullable:
                return S("not", (S("isnone", (self.snap(st, v),)),))
            return TRUE
        if isinstance(v, S):
            if v.op in ("eq", "in", "not", "isnone", "truth", "isinstance", "lt", "le", "is", "subset", "anyof", "allof"):
                return v
            if v.op in ("startswith", "endswith"):
                return v
            if self.unroll > 1 and v.op == "len":
                return S("truth", (v.args[0],))
            return S("truth", (self.snap(st, v),))
        return S("truth", (v,))

    def user_truth(self, st, v, m):
        """Truth through `__bool__` or `__len__`, as a constant or as the one
        atom it depends on."""
        outs = self.call(st.fork(), BM(Fn(m), v), [], {}, self.curnode)
        if any(s.exc is not None for s, _ in outs):
            return None
        res = []
        for s, x in outs:
            t = self.truth_term(s, x)
            k = t.v if isinstance(t, K) else self.known(s, t)
            if k is None and len(outs) == 1:
                return t
            res.append((s, k))
        ks = {k for _, k in res}
        if len(ks) == 1:
            return None if None in ks else K(bool(ks.pop()))
        if len(res) == 2 and ks == {True, False}:
            pos, neg = (s for k0 in (True, False) for s, k in res if k is k0)
            new = [f for f, x in pos.facts.items() if f not in st.facts and x is True and neg.facts.get(f) is False]
            if len(new) == 1:
                return new[0]
        return None

    def truth(self, st, v, node=None):
        if self.unroll > 1 and isinstance(v, R):
            o = st.heap[v.oid]
            if o.kind == "obj" and not o.lazy and isinstance(o.cls, ClassInfo):
                m = self.p.find_method(o.cls, "__bool__") or self.p.find_method(o.cls, "__len__")
                if m is not None:
                    res = []
                    for s2, x in self.call(st, BM(Fn(m), v), [], {}, node or self.curnode):
                        if s2.exc is None:
                            res.extend(self.branch(s2, self.truth_term(s2, x), node))
                    return res
        return self.branch(st, self.truth_term(st, v), node)

    # ------------------------------------------------------------- running
    def call_function(self, fi: FuncInfo, st: State, args=(), kwargs=None, self_val=None):
        """Entry point: analyse fi from state st; returns [(st, value)] where
        st.exc is set for exceptional outcomes."""
        a = list(args)
        if self_val is not None:
            return self.call(st, BM(Fn(fi), self_val), a, kwargs or {}, fi.node)
        return self.call(st, Fn(fi), a, kwargs or {}, fi.node)

    # A call: args is list of V or ('*', V); kwargs dict name->V; '**' key -> list of V
    def call(self, st, fn, args, kwargs, node):
        self.tick()
        saved = self.curnode
        self.curnode = node
        try:
            return self._call(st, fn, args, kwargs, node)
        finally:
            self.curnode = saved

    def _call(self, st, fn, args, kwargs, node):
        if isinstance(fn, Pt):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self._call(st, fn.fn, list(fn.args) + list(args), kw, node)
        if isinstance(fn, BM):
            f = fn.fn
            if isinstance(f, Fn):
                return self.call_fn(st, f, [fn.self] + list(args), kwargs, node)
            return self._call(st, f, [fn.self] + list(args), kwargs, node)
        if isinstance(fn, Fn):
            return self.call_fn(st, fn, list(args), kwargs, node)
        if isinstance(fn, Cl):
            return self.construct(st, fn.ci, list(args), kwargs, node)
        if isinstance(fn, Ex):
            return self.call_ext(st, fn.name, list(args), kwargs, node)
        if isinstance(fn, BI):
            from . import builtins_model as bm

            return bm.call_method(self, st, fn.recv, fn.name, list(args), kwargs, node)
        if isinstance(fn, R):
            o = st.heap[fn.oid]
            m = self.p.find_method(o.cls, "__call__") if o.kind == "obj" and isinstance(o.cls, ClassInfo) else None
            if m:
                return self.call_fn(st, Fn(m), [fn] + list(args), kwargs, node)
        return self.opaque_call(st, self.snap(st, fn), args, kwargs, node)

    def opaque_call(self, st, desc, args, kwargs, node, ty=None):
        u = self.uid()
        pos, named, rests = self.expand(st, args, kwargs)
        a = tuple(S("star", (self.snap(st, x[1]),)) if isinstance(x, tuple) else self.snap(st, x) for x in pos)
        kw = tuple(sorted((k, self.snap(st, v)) for k, v in named.items()))
        for q in rests:
            if q[0] == "rest":
                kw += (("**", self.snap(st, q[1])),)
            elif q[0] == "kv":
                kw += (("**", S("pair", (self.snap(st, q[1]), self.snap(st, q[2])))),)
            else:
                kw += (("**", S("some", (q[1] if isinstance(q[1], S) else S("parts", ()),))),)
        self.emit(st, "opaque", desc, a, kw, u, node=node)
        res = S("ret", (desc, a, kw, u), ty)
        outs = [(st, res)]
        return outs

    def summary_for(self, fi: FuncInfo):
        for key in (fi.full, fi.qual):
            if key in self.summaries:
                return self.summaries[key]
        if fi.cls is not None:
            # inherited anchors: match on any base that defines the same method
            for c in self.p.mro(fi.cls):
                if isinstance(c, ClassInfo):
                    k = f"{c.name}.{fi.name}"
                    if k in self.summaries:
                        return self.summaries[k]
            k = f"*.{fi.name}"
            if k in self.summaries:
                return self.summaries[k]
        return None

    def is_watched(self, fi):
        if fi.qual in self.watch or fi.full in self.watch:
            return True
        if fi.cls is not None:
            return any(
                isinstance(c, ClassInfo) and f"{c.name}.{fi.name}" in self.watch for c in self.p.mro(fi.cls)
            )
        return False

    def expand(self, st, args, kwargs):
        """flatten *args / **kwargs; returns (positional list, kw dict, restdicts)"""
        pos = []
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "*":
                v = a[1]
                if isinstance(v, Tup):
                    pos.extend(v.items)
                elif isinstance(v, R) and st.heap[v.oid].kind == "list" and all(
                    p[0] == "item" for p in st.heap[v.oid].parts
                ):
                    pos.extend(p[1] for p in st.heap[v.oid].parts)
                else:
                    pos.append(("*", v))
            else:
                pos.append(a)
        kw = {k: v for k, v in kwargs.items() if k != "**"}
        rests = []
        for v in kwargs.get("**", []):
            if isinstance(v, R) and st.heap[v.oid].kind == "dict":
                for p in st.heap[v.oid].parts:
                    if p[0] == "kv" and isinstance(p[1], K):
                        kw.setdefault(p[1].v, p[2])
                    else:
                        rests.append(p)
            else:
                rests.append(("rest", v))
        return pos, kw, rests

    def bind(self, st, node, args, kwargs, name, defaults_env, module, cls=None):
        """Bind call arguments to the parameters of ast args `node`."""
        a = node
        pos, kw, rests = self.expand(st, args, kwargs)
        names = [p.arg for p in a.posonlyargs + a.args]
        ann = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        env = {}
        extra = []
        star_unknown = None
        for i, v in enumerate(pos):
            if isinstance(v, tuple):
                star_unknown = v[1]
                continue
            if i < len(names):
                env[names[i]] = v
            else:
                extra.append(v)
        if star_unknown is not None:
            for n in names:
                if n not in env and n not in kw:
                    env[n] = S("starelem", (self.snap(st, star_unknown), n))
        for k in list(kw):
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                env[k] = kw.pop(k)
        # defaults
        for n, v in defaults_env or ():
            if n not in env:
                env[n] = v
        nd = len(a.defaults)
        pnames = names
        for n, d in zip(pnames[len(pnames) - nd :], a.defaults):
            if n not in env:
                env[n] = self.default_value(st, d, module)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.default_value(st, d, module)
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg not in env:
                if rests:
                    env[p.arg] = S("kwrest", (p.arg,) + tuple(str(r) for r in rests[:1]))
                else:
                    env[p.arg] = S("missing", (name, p.arg))
        if a.vararg:
            env[a.vararg.arg] = Tup(tuple(extra))
        if a.kwarg:
            parts = [("kv", K(k), v) for k, v in kw.items()] + list(rests)
            env[a.kwarg.arg] = self.alloc(st, O(kind="dict", parts=tuple(parts)))
        return env

    def default_value(self, st, d, module):
        if self.unroll > 1:
            # a client program runs from the beginning: the default is created
            # once and shared by the calls
            key = S("default", (module.name, getattr(d, "lineno", 0), getattr(d, "col_offset", 0)))
            oid = st.memo.get(key)
            if oid is not None:
                return R(oid)
            v = self.eval_module_expr(st, d, module)
            if isinstance(v, R):
                st.memo[key] = v.oid
            return v
        return self.eval_module_expr(st, d, module)

    def eval_module_expr(self, st, e, module):
        """evaluate an expression in module scope (single outcome assumed)"""
        fi = FuncInfo("<module>", module, ast.Lambda(args=_EMPTY_ARGS, body=e))
        self.stack.append(fi)
        fid = self.new_frame(st, {}, None)
        saved = getattr(self, "fid", None)
        self.fid = fid
        try:
            outs = self.ev(e, st)
            if len(outs) != 1:
                self.note("module expression with several outcomes")
            s, v = outs[0]
            if s is not st:
                return self.unknown()
            return v
        finally:
            self.fid = saved
            self.stack.pop()

    def new_frame(self, st, env, parent):
        fid = self.next_fid
        self.next_fid += 1
        env["<parent>"] = parent
        st.frames[fid] = env
        return fid

    def call_fn(self, st, fn: Fn, args, kwargs, node):
        fi = fn.info
        summ = None if isinstance(fi.node, ast.Lambda) else self.summary_for(fi)
        if summ is not None:
            r = summ(self, st, fi, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if self.stack.count(fi) >= self.unroll and not isinstance(fi.node, ast.Lambda):
            # recursion: opaque, typed by the return annotation
            ty = self.p.parse_type(fi.module, fi.node.returns)
            pos, kw, rests = self.expand(st, args, kwargs)
            env = self.bind(st, fi.node.args, args, kwargs, fi.qual, fn.defs, fi.module)
            u = self.uid()
            bound = tuple((k, self.snap(st, v)) for k, v in env.items() if not isinstance(v, tuple))
            raw = tuple((k, v) for k, v in env.items() if isinstance(v, (R, K, S, Tup)))
            self.emit(st, "recurse", fi.qual, bound, u, raw, node=node)
            res = S("rec", (fi.qual, bound, u))
            return [(st, self.mk(st, res, ty))]
        if len(self.stack) > self.max_depth:
            raise Budget("call depth")
        if isinstance(fi.node, ast.AsyncFunctionDef):
            return self.opaque_call(st, K(fi.qual), args, kwargs, node)
        env = self.bind(st, fi.node.args, args, kwargs, fi.qual, fn.defs, fi.module)
        watched = not isinstance(fi.node, ast.Lambda) and self.is_watched(fi)
        u = None
        if watched:
            u = self.uid()
            self.emit(
                st, "enter", fi.qual,
                tuple((k, self.snap(st, v)) for k, v in env.items() if not isinstance(v, tuple)), u, node=node,
            )
        fid = self.new_frame(st, env, fn.fid)
        self.stack.append(fi)
        self.visited_funcs.add(fi.full)
        saved = getattr(self, "fid", None)
        self.fid = fid
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = self.ev(fi.node.body, st)
            else:
                isgen = self._isgen.get(fi.full)
                if isgen is None:
                    isgen = self._isgen[fi.full] = any(
                        isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(fi.node)
                    )
                if isgen:
                    env["<yield>"] = self.new_list(st)
                outs = []
                for s, ctl in self.ex_block(fi.node.body, st):
                    if s.exc is not None:
                        outs.append((s, NONE))
                    elif isgen:
                        outs.append((s, s.frames[fid]["<yield>"]))
                    elif ctl is not None and ctl[0] == "return":
                        outs.append((s, ctl[1]))
                    else:
                        outs.append((s, NONE))
        finally:
            self.fid = saved
            self.stack.pop()
        if watched:
            for s, v in outs:
                if s.exc is None:
                    self.emit(s, "exit", fi.qual, self.snap(s, v), u, node=node)
                else:
                    self.emit(s, "raised", fi.qual, s.exc.name, u, node=node)
        return self.merge_outs(outs)

    def merge_outs(self, outs):
        """Join outcomes that differ only in facts."""
        if len(outs) < 2:
            return outs
        res = []
        seen = {}
        for s, v in outs:
            key = None
            try:
                key = (s.exc, v, s.trace, tuple(sorted(s.heap.items(), key=lambda kv: kv[0])), s.tmstack)
                h = hash(key)
            except TypeError:
                key = None
            if key is None:
                res.append((s, v))
                continue
            if key in seen:
                o = seen[key]
                for k in list(o.facts):
                    if s.facts.get(k) != o.facts[k]:
                        del o.facts[k]
            else:
                seen[key] = s
                res.append((s, v))
        return res

    # ----------------------------------------------------------- constructor
    def construct(self, st, ci: ClassInfo, args, kwargs, node):
        key = f"new:{ci.name}"
        if key in self.summaries:
            r = self.summaries[key](self, st, ci, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if ci.is_enum:
            pos, kw, _ = self.expand(st, args, kwargs)
            arg = pos[0] if pos else self.unknown()
            if isinstance(arg, K):
                for n, e in ci.attrs.items():
                    if isinstance(e, ast.Constant) and e.value == arg.v:
                        return [(st, Enm(ci, n))]
            outs = []
            if self.unroll > 1 and isinstance(arg, K) and not chars.soft(arg.v) and all(isinstance(e, ast.Constant) for e in ci.attrs.values()):
                self.emit(st, "enumfail", ci.name, arg, node=node)
                return self.fail(st, "ValueError", node)
            sx = self.partial(st, "ValueError", f"{ci.name}(value)", node)
            if sx is not None:
                self.emit(sx, "enumfail", ci.name, self.snap(sx, arg), node=node)
                outs.append((sx, NONE))
            sa = self.snap(st, arg)
            vals = [e.value for e in ci.attrs.values() if isinstance(e, ast.Constant)]
            if isinstance(sa, S) and len(vals) == len(ci.attrs):
                st.facts[S("oneof", (sa, Tup(tuple(K(x) for x in vals))))] = True
            outs.insert(0, (st, S("enum", (ci.name, sa), ("cls", ci))))
            return outs
        r = self.alloc(st, O(kind="obj", cls=ci, attrs=()))
        self.emit(st, "new", ci.name, r.oid, node=node)
        m = self.p.find_method(ci, "__init__")
        if m is None:
            dc = [c for c in self.p.mro(ci) if isinstance(c, ClassInfo) and c.is_dataclass]
            if dc:
                return self.dataclass_init(st, ci, r, args, kwargs, node)
            if args and self.is_exc_class(ci):
                pos, _, _ = self.expand(st, args, kwargs)
                st.heap[r.oid] = st.heap[r.oid].with_attr("args", Tup(tuple(p for p in pos if not isinstance(p, tuple))))
            return [(st, r)]
        outs = []
        for s, _ in self.call_fn(st, Fn(m), [r] + list(args), kwargs, node):
            outs.append((s, r))
        return outs

    def dataclass_fields(self, ci):
        out = {}
        for c in reversed([c for c in self.p.mro(ci) if isinstance(c, ClassInfo)]):
            for n, a in c.annotations.items():
                d = c.attrs.get(n)
                init = True
                default = None
                factory = None
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                    for k in d.keywords:
                        if k.arg == "init" and isinstance(k.value, ast.Constant):
                            init = bool(k.value.value)
                        elif k.arg == "default":
                            default = k.value
                        elif k.arg == "default_factory":
                            factory = k.value
                elif d is not None:
                    default = d
                out[n] = (c, init, default, factory)
        return out

    def dataclass_init(self, st, ci, r, args, kwargs, node):
        pos, kw, rests = self.expand(st, args, kwargs)
        fields = self.dataclass_fields(ci)
        names = [n for n, f in fields.items() if f[1]]
        vals = {}
        for n, v in zip(names, pos):
            vals[n] = v if not isinstance(v, tuple) else S("starelem", (self.snap(st, v[1]), n))
        for k, v in kw.items():
            vals[k] = v
        for n, (c, init, default, factory) in fields.items():
            if n in vals:
                continue
            if default is not None:
                vals[n] = self.eval_module_expr(st, default, c.module)
            elif factory is not None:
                f = self.eval_module_expr(st, factory, c.module)
                o = self.call(st, f, [], {}, node)
                vals[n] = o[0][1]
            elif init:
                vals[n] = S("kwrest", (n,)) if rests else S("missing", (ci.name, n))
        o = st.heap[r.oid]
        for n, v in vals.items():
            o = o.with_attr(n, v)
        st.heap[r.oid] = o
        m = self.p.find_method(ci, "__post_init__")
        if m:
            return [(s, r) for s, _ in self.call_fn(st, Fn(m), [r], {}, node)]
        return [(st, r)]

    # -------------------------------------------------------------- external
    def call_ext(self, st, name, args, kwargs, node):
        from . import builtins_model as bm

        return bm.call_ext(self, st, name, args, kwargs, node)

    # ------------------------------------------------------------ attributes
    def getattr(self, st, v, name, node=None):
        """[(st, value)]"""
        if isinstance(v, R):
            o = st.heap[v.oid]
            if o.kind != "obj":
                if self.raise_mode and o.kind in BUILTIN_NAMES and name not in BUILTIN_NAMES[o.kind]:
                    return self.fail(st, "AttributeError", node)
                return [(st, BI(v, name))]
            if o.nullable and self.raise_mode:
                t = self.known(st, S("isnone", (self.snap(st, v),)))
                if t is not False:
                    self.partial(st, "AttributeError", f"attribute of possibly None value {self.snap(st, v)!r}", node)
            return self.obj_attr(st, v, o, name, node)
        if isinstance(v, M):
            r = self.p.resolve(v.mod, name)
            return [(st, self.from_binding(st, r, v.mod))]
        if isinstance(v, Ex):
            return [(st, Ex(v.name + "." + name))]
        if isinstance(v, Cl):
            ci = v.ci
            if ci.is_enum and name in ci.attrs:
                return [(st, Enm(ci, name))]
            m = self.p.find_method(ci, name)
            if m:
                if m.is_classmethod:
                    return [(st, BM(Fn(m), v))]
                return [(st, Fn(m))]
            a = self.p.find_class_attr(ci, name)
            if a:
                return [(st, self.class_attr(st, a[0], name, a[1]))]
            if name == "__name__":
                return [(st, K(ci.name))]
            if name == "__new__":
                return [(st, Ex("builtins.object.__new__"))]
            return [(st, S("attr", (v, name)))]
        if isinstance(v, Enm):
            if name == "name":
                return [(st, K(v.name))]
            if name == "value":
                e = v.cls.attrs.get(v.name)
                if isinstance(e, ast.Constant):
                    return [(st, K(e.value))]
            return [(st, S("attr", (v, name)))]
        if isinstance(v, Super):
            m = None
            selfv = v.self
            if isinstance(selfv, R):
                c = st.heap[selfv.oid].cls
            elif isinstance(selfv, Cl):
                c = selfv.ci
            else:
                c = v.after
            m = self.p.find_method(c, name, after=v.after)
            if m:
                if m.is_property:
                    return self.call_fn(st, Fn(m), [selfv], {}, node)
                return [(st, BM(Fn(m), selfv))]
            if name == "__init__":
                return [(st, Ex("builtins.object.__init__"))]
            return [(st, BM(Ex("super." + name), selfv))]
        if isinstance(v, S):
            if v.ty is not None and v.ty[0] in ("cls", "opt", "list", "dict", "set"):
                m = self.mk(st, v, v.ty)
                if isinstance(m, R):
                    return self.getattr(st, m, name, node)
                if isinstance(m, S) and m.ty and m.ty[0] == "cls" and m.ty[1].is_enum:
                    return [(st, S("attr", (v, name)))]
            if v.ty is not None and v.ty[0] == "type" and v.ty[1] and v.ty[1][0] == "cls":
                return [(st, S("attr", (v, name)))]
            oid = st.memo.get(v)
            if oid is not None and st.heap[oid].kind == "obj":
                x = st.heap[oid].get(name)
                if x is not None:
                    return [(st, x)]
            if v.ty is not None and v.ty[0] == "opt" and self.raise_mode:
                if self.known(st, S("isnone", (v,))) is not False and self.known(st, S("truth", (v,))) is not True:
                    self.partial(st, "AttributeError", f"attribute of possibly None value {v!r}", node)
            return [(st, BI(v, name))] if self._looks_method(name) else [(st, S("attr", (v, name)))]
        if isinstance(v, (K, Tup)):
            if isinstance(v, K) and v.v is None:
                sx = self.partial(st, "AttributeError", f"attribute {name} of None", node)
                if sx is not None:
                    return [(sx, NONE)]
                if self.raise_mode:
                    st.exc = Exc("AttributeError", NONE, self.where(node))
                    return [(st, NONE)]
            return [(st, BI(v, name))]
        if isinstance(v, (Fn, BM, Pt, BI)):
            if name == "__name__" and isinstance(v, Fn):
                return [(st, K(v.info.name))]
            return [(st, S("attr", (self.snap(st, v) if not isinstance(v, (BM, Pt, BI)) else K(repr(v)), name)))]
        return [(st, S("attr", (v, name)))]

    _METHODS = {
        n
        for t in (str, list, dict, set, tuple, int, bytes)
        for n in dir(t)
        if not n.startswith("__")
    } | {"read", "write", "readlines", "close", "group", "groupdict", "groups", "open", "iterdir", "read_text", "is_dir", "resolve", "is_absolute", "as_posix"}

    def _looks_method(self, name):
        return name in self._METHODS and name not in ("index", "count", "title", "name", "imag", "real") or name in ("index", "count")

    def class_attr(self, st, ci, name, expr):
        key = (ci.full, name)
        if key in st.memo:
            v = st.memo[key]
            return R(v) if isinstance(v, int) else v
        v = self.eval_module_expr(st, expr, ci.module)
        if isinstance(v, R):
            st.memo[key] = v.oid
        return v

    def obj_attr(self, st, v, o, name, node):
        if name == "__class__":
            return [(st, Cl(o.cls) if o.exact else S("attr", (self.snap(st, v), "__class__")))]
        got = o.get(name)
        if got is not None:
            return [(st, got)]
        ci = o.cls
        if not isinstance(ci, ClassInfo):
            return [(st, S("attr", (self.snap(st, v), name)))]
        m = self.p.find_method(ci, name)
        if m is not None:
            if m.is_property:
                if not o.exact and self._overridden(ci, name):
                    ty = self.p.parse_type(m.module, m.node.returns)
                    return [(st, self.mk(st, S("attr", (self.snap(st, v), name)), ty))]
                return self.call_fn(st, Fn(m), [v], {}, node)
            if m.is_staticmethod:
                return [(st, Fn(m))]
            if m.is_classmethod:
                return [(st, BM(Fn(m), Cl(ci)))]
            if not o.exact and self._overridden(ci, name) and self.summary_for(m) is None:
                return [(st, BM(Ex("virtual." + name), v))]
            return [(st, BM(Fn(m), v))]
        types = self.p.attr_types(ci)
        if name in types and o.lazy:
            # instance attribute of a lazily materialised object
            ca = self.p.find_class_attr(ci, name)
            inst = name in self._stored_attrs(ci)
            if ca and not inst and not ca[0].is_dataclass and o.exact:
                return [(st, self.class_attr(st, ca[0], name, ca[1]))]
            val = self.mk(st, S("attr", (o.path, name)), types[name])
            st.heap[v.oid] = st.heap[v.oid].with_attr(name, val)
            return [(st, val)]
        ca = self.p.find_class_attr(ci, name)
        if ca is not None:
            if not o.exact and ca[0].name != "<>" and any(name in s.attrs for s in self.p.subclasses.get(ci.full, [])):
                return [(st, S("attr", (self.snap(st, v), name)))]
            val = self.class_attr(st, ca[0], name, ca[1])
            if isinstance(val, Fn) and not val.info.is_staticmethod:
                return [(st, BM(val, v))]
            return [(st, val)]
        if (
            o.lazy
            and o.exact
            and name not in self._stored_attrs(ci)
            and not name.startswith("__")
            and all(isinstance(c, ClassInfo) for c in self.p.mro(ci))
            and self.p.find_method(ci, "__getattr__") is None
            and self.p.find_method(ci, "__getattribute__") is None
            and name not in self._annotated(ci)
        ):
            # no code of the class ever defines it
            st.exc = Exc("AttributeError", S("noattr", (self.snap(st, v), name)), self.where(node))
            return [(st, NONE)]
        if o.lazy:
            val = S("attr", (o.path, name))
            st.heap[v.oid] = st.heap[v.oid].with_attr(name, val)
            return [(st, val)]
        # attribute never assigned
        sx = self.partial(st, "AttributeError", f"{ci.name}.{name}", node)
        if sx is not None:
            return [(sx, NONE)]
        if self.unroll > 1 and o.exact and self.p.find_method(ci, "__getattr__") is None and all(isinstance(c, ClassInfo) for c in self.p.mro(ci)):
            return self.fail(st, "AttributeError", node)
        return [(st, S("noattr", (self.snap(st, v), name)))]

    def enum_members(self, ci):
        return [k for k, e in ci.attrs.items() if not k.startswith("_")]

    def _annotated(self, ci):
        return {n for c in self.p.mro(ci) if isinstance(c, ClassInfo) for n in c.annotations}

    def _stored_attrs(self, ci):
        r = self._stored.get(ci.full)
        if r is None:
            r = self._stored[ci.full] = {
                n.attr
                for c in self.p.mro(ci)
                if isinstance(c, ClassInfo)
                for n in ast.walk(c.node)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
            }
        return r

    def _overridden(self, ci, name):
        return any(name in s.methods for s in self.p.subclasses.get(ci.full, []))

    def setattr(self, st, v, name, val, node=None):
        if isinstance(v, S) and v.ty is not None:
            m = self.mk(st, v, v.ty)
            if isinstance(m, R):
                v = m
        self.emit(st, "set", self.snap(st, v), name, self.snap(st, val), v.oid if isinstance(v, R) else None, val, node=node)
        if isinstance(v, R):
            st.heap[v.oid] = st.heap[v.oid].with_attr(name, val)
        elif isinstance(v, Cl):
            ca = self.p.find_class_attr(v.ci, name)
            if ca is not None and ca[0] is v.ci:
                st.memo[v.ci.full, name] = val
        elif isinstance(v, S):
            # remember through a materialised untyped object
            oid = st.memo.get(v)
            if oid is None or st.heap[oid].kind != "obj":
                oid = self.alloc(st, O(kind="obj", cls=None, path=v, lazy=True, exact=False)).oid
                st.memo[v] = oid
            st.heap[oid] = st.heap[oid].with_attr(name, val)

    # ----------------------------------------------------------------- names
    def from_binding(self, st, r, module):
        if r is None:
            return self.unknown()
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "class":
            return Cl(r[1])
        if r[0] == "module":
            return M(r[1])
        if r[0] == "ext":
            return Ex(r[1])
        if r[0] == "assign":
            key = ("modvar", r[2].name, id(r[1]))
            if key in st.memo:
                return st.memo[key]
            v = self.eval_module_expr(st, r[1], r[2])
            st.memo[key] = v
            return v
        return self.unknown()

    def lookup(self, st, name, node=None):
        fid = self.fid
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is None:
                break
            if name in fr:
                return fr[name]
            fid = fr.get("<parent>")
        fi = self.stack[-1]
        r = self.p.resolve(fi.module, name)
        if r is None:
            if name in ("__class__",) and fi.cls:
                return Cl(fi.cls)
            return S("undef", (name,))
        return self.from_binding(st, r, fi.module)

    def store(self, st, name, v):
        fr = st.frames[self.fid]
        gl = fr.get("<global>")
        if gl and name in gl:
            r = self.p.resolve(self.stack[-1].module, name)
            if r is not None and r[0] == "assign":
                st.memo["modvar", r[2].name, id(r[1])] = v
                return
        nl = fr.get("<nonlocal>")
        if nl and name in nl:
            fid = fr.get("<parent>")
            while fid is not None:
                f2 = st.frames.get(fid)
                if f2 is None:
                    break
                if name in f2:
                    f2[name] = v
                    return
                fid = f2.get("<parent>")
        fr[name] = v

    def collect(self, st):
        """Forget the objects and frames that cannot be reached any more, and
        what happened so far."""
        heap, frames = {}, {}
        todo = [st.tmstack, st.exc]
        todo += [R(v) if isinstance(v, int) and not isinstance(v, bool) else v for v in st.memo.values()]
        fids = [self.fid]
        while todo or fids:
            if fids:
                fid = fids.pop()
                if fid is not None and fid in st.frames and fid not in frames:
                    frames[fid] = st.frames[fid]
                    fids.append(frames[fid].get("<parent>"))
                    todo += [v for k, v in frames[fid].items() if k != "<parent>"]
                continue
            v = todo.pop()
            if isinstance(v, R):
                if v.oid not in heap and v.oid in st.heap:
                    ob = heap[v.oid] = st.heap[v.oid]
                    todo += [ob.attrs, ob.parts, ob.cls]
            elif isinstance(v, (tuple, list, set, frozenset)):
                todo += list(v)
            elif isinstance(v, dict):
                todo += list(v) + list(v.values())
            elif isinstance(v, Fn):
                fids.append(v.fid)
                todo.append(v.defs)
            elif isinstance(v, S):
                if v in st.memo:
                    todo.append(R(st.memo[v]))
                todo += list(v.args)
            elif isinstance(v, BM):
                todo += [v.fn, v.self]
            elif isinstance(v, (Pt, Super, Exc, BI)):
                todo += [getattr(v, f) for f in v.__dataclass_fields__]
        st.heap = heap
        st.frames = frames
        st.trace = ()

    # ------------------------------------------------------------ expression
    def ev(self, e, st):
        self.tick()
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.note(f"unsupported expression {type(e).__name__}")
            return [(st, self.unknown())]
        saved = self.curnode
        self.curnode = e if hasattr(e, "lineno") else saved
        try:
            return m(e, st)
        finally:
            self.curnode = saved

    def ev_seq(self, exprs, st):
        outs = [(st, ())]
        for e in exprs:
            new = []
            for s, vs in outs:
                if s.exc is not None:
                    new.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    new.append((s2, vs + (v,)))
            outs = new
        return outs

    def ev_Constant(self, e, st):
        return [(st, K(e.value))]

    def ev_Name(self, e, st):
        return [(st, self.lookup(st, e.id, e))]

    def ev_Attribute(self, e, st):
        outs = []
        for s, v in self.ev(e.value, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            outs.extend(self.getattr(s, v, e.attr, e))
        return outs

    def ev_NamedExpr(self, e, st):
        outs = []
        for s, v in self.ev(e.value, st):
            if s.exc is None:
                self.store(s, e.target.id, v)
            outs.append((s, v))
        return outs

    def ev_Tuple(self, e, st):
        return self._ev_display(e.elts, st, lambda s, parts: Tup(tuple(p[1] for p in parts)) if all(p[0] == "item" for p in parts) else self.new_list(s, parts))

    def ev_List(self, e, st):
        return self._ev_display(e.elts, st, lambda s, parts: self.new_list(s, parts))

    def ev_Set(self, e, st):
        return self._ev_display(e.elts, st, lambda s, parts: self.new_list(s, parts, "set"))

    def _ev_display(self, elts, st, build):
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in elts]
        outs = []
        for s, vs in self.ev_seq(exprs, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            parts = []
            for x, v in zip(elts, vs):
                if isinstance(x, ast.Starred):
                    parts.extend(self.parts_of(s, v))
                else:
                    parts.append(("item", v))
            outs.append((s, build(s, parts)))
        return outs

    def ev_Dict(self, e, st):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        outs = []
        for s, vs in self.ev_seq(exprs, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            it = iter(vs)
            r = self.alloc(s, O(kind="dict"))
            for k, v in zip(e.keys, e.values):
                if k is None:
                    self.dict_update(s, r, next(it))
                else:
                    kk = next(it)
                    self.dict_set(s, r, kk, next(it))
            outs.append((s, r))
        return outs

    def ev_JoinedStr(self, e, st):
        exprs = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        outs = []
        for s, vs in self.ev_seq(exprs, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            items = []
            for x, v in zip(e.values, vs):
                if isinstance(x, ast.FormattedValue) and isinstance(v, K) and x.conversion == -1 and x.format_spec is None:
                    v = K(str(v.v))
                elif isinstance(x, ast.FormattedValue) and isinstance(v, Enm):
                    v = S("str", (v,))
                else:
                    v = self.snap(s, v)
                if items and isinstance(items[-1], K) and isinstance(v, K) and isinstance(v.v, str):
                    items[-1] = K(items[-1].v + v.v)
                elif isinstance(v, S) and v.op == "fstr":
                    items.extend(v.args)
                else:
                    items.append(v)
            if len(items) == 0:
                outs.append((s, K("")))
            elif len(items) == 1 and isinstance(items[0], K):
                outs.append((s, items[0]))
            else:
                outs.append((s, S("fstr", tuple(items), ("str",))))
        return outs

    def ev_BoolOp(self, e, st):
        is_or = isinstance(e.op, ast.Or)

        def go(i, s):
            outs = []
            for s1, v in self.ev(e.values[i], s):
                if s1.exc is not None or i == len(e.values) - 1:
                    outs.append((s1, v))
                    continue
                nxt = e.values[i + 1]
                if is_or and i + 1 == len(e.values) - 1:
                    nv = None if self.split_defaults else self._empty_default(s1, v, nxt)
                    if nv is not None:
                        outs.append((s1, nv))
                        continue
                for s2, t in self.truth(s1, v, e):
                    if t == is_or:
                        outs.append((s2, v))
                    else:
                        outs.extend(go(i + 1, s2))
            return outs

        return go(0, st)

    def _empty_default(self, st, v, nxt):
        """`x or []` / `x or {}`: the empty default is extensionally the
        falsy value itself, so no split is needed."""
        empty = None
        if isinstance(nxt, ast.List) and not nxt.elts:
            empty = "list"
        elif isinstance(nxt, ast.Dict) and not nxt.keys:
            empty = "dict"
        elif isinstance(nxt, ast.Call) and isinstance(nxt.func, ast.Name) and nxt.func.id in ("list", "dict", "set") and not nxt.args:
            empty = nxt.func.id
        if empty is None:
            return None
        t = self.known(st, self.truth_term(st, v))
        if t is False or (isinstance(v, K)):
            return None
        if isinstance(v, R):
            o = st.heap[v.oid]
            if o.kind in ("list", "dict", "set"):
                return v
            return None
        if isinstance(v, S):
            ty = v.ty
            if ty and ty[0] == "opt":
                ty = ty[1]
            if ty is None or ty[0] not in ("list", "dict", "set"):
                ty = (empty, None) if empty != "dict" else ("dict", None, None)
            return self.mk(st, v, ty)
        return None

    def ev_UnaryOp(self, e, st):
        outs = []
        for s, v in self.ev(e.operand, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            if isinstance(e.op, ast.Not):
                t = self.truth_term(s, v)
                if isinstance(t, K):
                    outs.append((s, K(not t.v)))
                else:
                    k = self.known(s, t)
                    if k is not None:
                        outs.append((s, K(not k)))
                    else:
                        outs.append((s, S("not", (t,), ("bool",))))
            elif isinstance(v, K) and isinstance(v.v, (int, float)):
                outs.append((s, K(-v.v if isinstance(e.op, ast.USub) else (+v.v if isinstance(e.op, ast.UAdd) else ~v.v))))
            else:
                outs.append((s, S("neg", (self.snap(s, v),))))
        return outs

    _OPS = {
        ast.Add: ("add", lambda a, b: a + b),
        ast.Sub: ("sub", lambda a, b: a - b),
        ast.Mult: ("mul", lambda a, b: a * b),
        ast.Div: ("div", lambda a, b: a / b),
        ast.FloorDiv: ("fdiv", lambda a, b: a // b),
        ast.Mod: ("mod", lambda a, b: a % b),
        ast.BitOr: ("or_", lambda a, b: a | b),
        ast.BitAnd: ("and_", lambda a, b: a & b),
    }

    def ev_BinOp(self, e, st):
        outs = []
        for s, vs in self.ev_seq([e.left, e.right], st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            outs.append((s, self.binop(s, e.op, vs[0], vs[1])))
        return outs

    def binop(self, st, op, a, b):
        n, f = self._OPS.get(type(op), (type(op).__name__.lower(), None))
        if isinstance(a, K) and isinstance(b, K) and f:
            try:
                return K(f(a.v, b.v))
            except Exception:
                return self.unknown()

        def kind(v):
            if isinstance(v, R):
                return st.heap[v.oid].kind
            if isinstance(v, S) and v.ty and v.ty[0] in ("list", "set", "dict"):
                return v.ty[0]
            return None

        ka, kb = kind(a), kind(b)
        if n == "add" and (ka == "list" or kb == "list"):
            return self.new_list(st, self.parts_of(st, a) + self.parts_of(st, b))
        if n == "add" and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if n in ("sub", "and_", "xor", "or_") and ka in ("set", "list") and kb in ("set", "list"):
            ps = self.set_op(st, n, a, b)
            if ps is not None:
                return self.new_list(st, ps, "set")
        if ka in ("set", "list") and n in ("or_",) and ka == "set":
            return self.new_list(st, self.parts_of(st, a) + self.parts_of(st, b), "set")
        if n == "or_" and (ka == "dict" or kb == "dict"):
            r = self.alloc(st, O(kind="dict"))
            self.dict_update(st, r, a)
            self.dict_update(st, r, b)
            return r
        if ka == "set" or kb == "set":
            r = self.new_list(st, (("rest", S("set" + n, (self.snap(st, a), self.snap(st, b)), ("set", None))),), "set")
            return r
        sa, sb = self.snap(st, a), self.snap(st, b)
        if n == "add" and (self._isstr(a) or self._isstr(b)):
            items = []
            for x in (sa, sb):
                xs = x.args if isinstance(x, S) and x.op == "fstr" else (x,)
                for y in xs:
                    if items and isinstance(items[-1], K) and isinstance(y, K) and isinstance(items[-1].v, str) and isinstance(y.v, str):
                        items[-1] = K(items[-1].v + y.v)
                    else:
                        items.append(y)
            items = [i for i in items if not (isinstance(i, K) and i.v == "")]
            if len(items) == 1 and isinstance(items[0], S):
                return items[0]
            return S("fstr", tuple(items), ("str",))
        if n == "add" and isinstance(sb, K) and isinstance(sa, S) and sa.op == "add" and isinstance(sa.args[1], K):
            try:
                t = sa.args[1].v + sb.v
                return S("add", (sa.args[0], K(t)), sa.ty) if t != 0 else sa.args[0]
            except Exception:
                pass
        if n == "sub" and isinstance(sb, K) and isinstance(sb.v, int):
            return self.binop(st, ast.Add(), a, K(-sb.v))
        if n == "add" and isinstance(sb, K) and sb.v == 0 and not isinstance(sb.v, bool):
            return a
        if n == "add" and isinstance(sa, K):
            if sa.v == 0 and not isinstance(sa.v, bool):
                return b
            sa, sb = sb, sa
        return S(n, (sa, sb), a.ty if isinstance(a, S) else None)

    def _isstr(self, v):
        if isinstance(v, K):
            return isinstance(v.v, str)
        return isinstance(v, S) and v.ty is not None and (v.ty == ("str",) or v.ty == ("opt", ("str",)))

    def ev_Compare(self, e, st):
        outs = []
        for s, vs in self.ev_seq([e.left] + e.comparators, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            if len(e.ops) == 1:
                for s2, t in self.compare(s, e.ops[0], vs[0], vs[1], e):
                    outs.append((s2, t))
            else:
                # chained: conjunction
                cur = [(s, None)]
                for i, op in enumerate(e.ops):
                    nxt = []
                    for s2, done in cur:
                        if done is not None:
                            nxt.append((s2, done))
                            continue
                        for s3, t in self.compare(s2, op, vs[i], vs[i + 1], e):
                            if s3.exc is not None:
                                nxt.append((s3, NONE))
                                continue
                            for s4, b in self.branch(s3, t, e):
                                nxt.append((s4, None if b else FALSE))
                    cur = nxt
                outs.extend((s2, d if d is not None else TRUE) for s2, d in cur)
        return outs

    def identical(self, st, a, b):
        """Are two objects compared by identity the same one? None when
        their class defines another equality, or is not known."""
        for r in (a, b):
            o = st.heap.get(r.oid)
            if o is None or o.kind != "obj" or o.lazy or not isinstance(o.cls, ClassInfo) or o.cls.is_dataclass:
                return None
            if self.p.find_method(o.cls, "__eq__") is not None or any(c.is_dataclass for c in self.p.mro(o.cls)):
                return None
        return a.oid == b.oid

    def mkeq(self, st, a, b):
        if self.unroll > 1 and isinstance(a, R) and isinstance(b, R):
            same = self.identical(st, a, b)
            if same is not None:
                return K(same)
        if isinstance(a, R) and isinstance(b, R) and st.heap[a.oid].kind == st.heap[b.oid].kind == "set":
            d = self.set_op(st, "xor", a, b)
            if d is not None:
                return K(not d)
        sa, sb = self.snap(st, a), self.snap(st, b)
        if isinstance(sa, K) and isinstance(sb, K):
            if chars.soft(sa.v) or chars.soft(sb.v):
                r = chars.equal(sa.v, sb.v) if isinstance(sa.v, str) and isinstance(sb.v, str) else False
                return K(r) if r is not None else S("eq", tuple(sorted((sa, sb), key=repr)), ("bool",))
            return K(sa.v == sb.v)
        if isinstance(sa, Enm) and isinstance(sb, Enm):
            return K(sa == sb)
        if isinstance(sa, (K, Enm)) and isinstance(sb, (K, Enm)):
            return FALSE
        if sa == sb:
            return TRUE
        if isinstance(sa, S) and isinstance(sb, S) and sa.op == sb.op == "id" and len(sa.args) == len(sb.args) == 1:
            return self.mkeq(st, sa.args[0], sb.args[0])
        if isinstance(sa, (Cl, Ex)) and isinstance(sb, (Cl, Ex)):
            return K(sa == sb)
        if isinstance(sa, (Cl,)) or isinstance(sb, Cl):
            pass
        if isinstance(sa, Tup) and isinstance(sb, Tup) and len(sa.items) != len(sb.items):
            return FALSE
        if isinstance(sa, Tup) and isinstance(sb, Tup) and self.unroll > 1:
            rest = []
            for x, y in zip(a.items if isinstance(a, Tup) else sa.items, b.items if isinstance(b, Tup) else sb.items):
                t = self.mkeq(st, x, y)
                k = t.v if isinstance(t, K) else self.known(st, t)
                if k is False:
                    return FALSE
                if k is not True:
                    rest.append(t)
            if not rest:
                return TRUE
            if len(rest) == 1:
                return rest[0]
        if self.unroll > 1:
            t = self.user_eq(st, a, b)
            if t is not None:
                return t
        # enum(value) == member  <=> value == member value
        for x, y in ((sa, sb), (sb, sa)):
            if isinstance(x, S) and x.op == "enum" and isinstance(y, Enm):
                ev = y.cls.attrs.get(y.name)
                if isinstance(ev, ast.Constant):
                    return self.mkeq(st, x.args[1], K(ev.value))
        # emptiness tests
        for x, y in ((sa, sb), (sb, sa)):
            if isinstance(x, S) and x.op == "len" and isinstance(y, K) and y.v == 0:
                return S("not", (S("truth", (x.args[0],)),), ("bool",))
            if isinstance(y, K) and y.v == "" and self._isstr(x) and not (x.ty and x.ty[0] == "opt"):
                return S("not", (S("truth", (x,)),), ("bool",))
            if isinstance(y, S) and y.op in ("list", "dict", "set") and not y.args and isinstance(x, S):
                return S("not", (S("truth", (x,)),), ("bool",))
            if isinstance(y, K) and isinstance(y.v, bool) and isinstance(x, S) and (
                x.ty == ("bool",) or x.op in ("eq", "in", "not", "isnone", "truth", "isinstance", "lt", "le", "startswith", "endswith")
            ):
                return x if y.v else S("not", (self.truth_term(st, x),), ("bool",))
        if repr(sa) > repr(sb):
            sa, sb = sb, sa
        return S("eq", (sa, sb), ("bool",))

    def user_eq(self, st, a, b):
        """Equality through the `__eq__` of the class, when it has one that
        gives a single result."""
        o = st.heap.get(a.oid) if isinstance(a, R) else None
        if o is None or o.kind != "obj" or not isinstance(o.cls, ClassInfo):
            return None
        m = self.p.find_method(o.cls, "__eq__")
        if m is None and o.cls.is_dataclass:
            return self.dataclass_eq(st, o, b)
        if m is None or self.stack.count(m) > 2:
            return None
        outs = self.call(st.fork(), BM(Fn(m), a), [b], {}, self.curnode)
        if len(outs) != 1 or outs[0][0].exc is not None:
            return None
        v = outs[0][1]
        if isinstance(v, K):
            return K(bool(v.v))
        return self.snap(st, v) if isinstance(v, S) else None

    def dataclass_eq(self, st, o, b):
        """Equality of the instances of a dataclass: that of their fields."""
        p = st.heap.get(b.oid) if isinstance(b, R) else None
        if p is o:
            return TRUE
        if isinstance(b, (K, Tup)) or (p is not None and (p.kind != "obj" or (p.cls is not o.cls and not p.lazy and not o.lazy))):
            return FALSE
        if p is None or p.cls is not o.cls or any(ast.unparse(d).endswith("eq=False)") for d in o.cls.node.decorator_list):
            return None
        unknown = False
        for n in self.dataclass_fields(o.cls):
            x, y = o.get(n), p.get(n)
            if x is None or y is None:
                return None
            t = self.mkeq(st, x, y)
            if t == FALSE:
                return FALSE
            unknown = unknown or t != TRUE
        return None if unknown else TRUE

    def compare(self, st, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            for x, y in ((a, b), (b, a)):
                if isinstance(y, K) and y.v is None:
                    if isinstance(x, K):
                        t = K(x.v is None)
                    elif isinstance(x, R):
                        o = st.heap[x.oid]
                        t = S("isnone", (self.snap(st, x),)) if o.nullable else FALSE
                    elif isinstance(x, S):
                        if x.ty is not None and x.ty[0] in ("str", "int", "bool", "tuple", "float"):
                            t = FALSE
                        else:
                            t = S("isnone", (self.snap(st, x),))
                    else:
                        t = FALSE
                    break
            else:
                if isinstance(a, (K, Enm)) and isinstance(b, (K, Enm)):
                    t = K(a == b)
                elif isinstance(a, R) and isinstance(b, R):
                    oa, ob = st.heap[a.oid], st.heap[b.oid]
                    if a == b:
                        t = TRUE
                    elif not oa.lazy or not ob.lazy:
                        t = FALSE
                    else:
                        t = self.mkeq(st, a, b)
                elif (isinstance(b, K) and isinstance(b.v, bool)) or (isinstance(a, K) and isinstance(a.v, bool)):
                    x, y = (a, b) if isinstance(b, K) else (b, a)
                    t = self.mkeq(st, x, y)
                else:
                    t = self.mkeq(st, a, b)
            if isinstance(t, K):
                return [(st, K(bool(t.v) != neg))]
            k = self.known(st, t)
            if k is not None:
                return [(st, K(k != neg))]
            return [(st, S("not", (t,), ("bool",)) if neg else t)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            # user defined __eq__ is modelled structurally
            t = self.mkeq(st, a, b)
            if isinstance(t, K):
                return [(st, K(bool(t.v) != neg))]
            k = self.known(st, t)
            if k is not None:
                return [(st, K(k != neg))]
            return [(st, S("not", (t,), ("bool",)) if neg else t)]
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            t = self.contains(st, a, b)
            if isinstance(t, K):
                return [(st, K(bool(t.v) != neg))]
            k = self.known(st, t)
            if k is not None:
                return [(st, K(k != neg))]
            return [(st, S("not", (t,), ("bool",)) if neg else t)]
        # orderings: canonical lt / le
        if isinstance(a, K) and isinstance(b, K) and not chars.soft(a.v) and not chars.soft(b.v):
            try:
                r = {
                    ast.Lt: lambda: a.v < b.v,
                    ast.LtE: lambda: a.v <= b.v,
                    ast.Gt: lambda: a.v > b.v,
                    ast.GtE: lambda: a.v >= b.v,
                }[type(op)]()
                return [(st, K(r))]
            except Exception:
                pass
        sa, sb = self.snap(st, a), self.snap(st, b)
        # len(x) > 0 and friends
        for x, y, o2 in ((sa, sb, op), (sb, sa, _flip(op))):
            if isinstance(x, S) and x.op == "len" and isinstance(y, K) and isinstance(y.v, int):
                tr = S("truth", (x.args[0],))
                if (isinstance(o2, ast.Gt) and y.v == 0) or (isinstance(o2, ast.GtE) and y.v == 1):
                    return [(st, self._b(st, tr))]
                if (isinstance(o2, ast.Lt) and y.v == 1) or (isinstance(o2, ast.LtE) and y.v == 0):
                    return [(st, self._b(st, S("not", (tr,), ("bool",))))]
        kinds = [st.heap[x.oid].kind if isinstance(x, R) else None for x in (a, b)]
        if "set" in kinds and set(kinds) <= {"set", "list"}:
            x, y = (a, b) if isinstance(op, (ast.LtE, ast.Lt)) else (b, a)
            d, e = self.set_op(st, "sub", x, y), self.set_op(st, "sub", y, x)
            if d is not None and (isinstance(op, (ast.LtE, ast.GtE)) or e is not None):
                return [(st, K(not d and (isinstance(op, (ast.LtE, ast.GtE)) or bool(e))))]
        if "set" in kinds and isinstance(op, (ast.LtE, ast.GtE)):
            x, y = (sa, sb) if isinstance(op, ast.LtE) else (sb, sa)
            if isinstance(x, S) and x.op == "set" and not x.args:
                return [(st, TRUE)]
            return [(st, S("subset", (x, y), ("bool",)))]
        if isinstance(op, ast.Lt):
            t = S("lt", (sa, sb), ("bool",))
        elif isinstance(op, ast.Gt):
            t = S("lt", (sb, sa), ("bool",))
        elif isinstance(op, ast.LtE):
            t = S("not", (S("lt", (sb, sa)),), ("bool",))
        else:
            t = S("not", (S("lt", (sa, sb)),), ("bool",))
        return [(st, self._b(st, t))]

    def _b(self, st, t):
        u = t.args[0] if isinstance(t, S) and t.op == "not" and t.args else t
        if isinstance(u, S) and u.op == "truth" and isinstance(u.args[0], S) and u.args[0].op in ("list", "set", "dict"):
            ps = u.args[0].args
            if not ps or any(isinstance(x, tuple) and x and x[0] in ("item", "kv") for x in ps):
                return K(bool(ps) == (u is t))
        k = self.known(st, t)
        return t if k is None else K(k)

    def contains(self, st, a, b):
        if isinstance(b, K) and isinstance(a, K):
            if isinstance(b.v, str) and isinstance(a.v, str) and (chars.soft(a.v) or chars.soft(b.v)):
                r = chars.contains(b.v, a.v)
                return K(r) if r is not None else S("in", (a, b), ("bool",))
            try:
                return K(a.v in b.v)
            except Exception:
                return self.unknown()
        sa = self.snap(st, a)
        items = None
        if isinstance(b, Tup):
            items = [("item", i) for i in b.items]
        elif isinstance(b, R) and st.heap[b.oid].kind in ("list", "set", "dict"):
            items = list(st.heap[b.oid].parts)
        if isinstance(b, K) and isinstance(b.v, (tuple, list)):
            items = [("item", K(i)) for i in b.v]
        if items is not None:
            undecided = False
            for p in items:
                if p[0] in ("item", "kv"):
                    t = self.mkeq(st, a, p[1])
                    k = self.known(st, t)
                    if k is True:
                        return TRUE
                    if k is None:
                        undecided = True
                else:
                    undecided = True
            if not undecided:
                return FALSE
            if len(items) == 1 and items[0][0] in ("item", "kv"):
                return self.mkeq(st, a, items[0][1])
        sb = self.snap(st, b)
        # constant containers are order independent
        if isinstance(b, R) and all(p[0] == "item" for p in st.heap[b.oid].parts) and len(st.heap[b.oid].parts) <= 8:
            sb = S("oneof", tuple(sorted((self.snap(st, p[1]) for p in st.heap[b.oid].parts), key=repr)))
        elif isinstance(b, Tup):
            sb = S("oneof", tuple(sorted((self.snap(st, p) for p in b.items), key=repr)))
        if isinstance(sb, S) and sb.op == "keysof":
            sb = sb.args[0]
        return S("in", (sa, sb), ("bool",))

    def ev_IfExp(self, e, st):
        outs = []
        for s, v in self.ev(e.test, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            for s2, t in self.truth(s, v, e):
                outs.extend(self.ev(e.body if t else e.orelse, s2))
        return outs

    def ev_Lambda(self, e, st):
        fi = FuncInfo("<lambda>", self.stack[-1].module, e, cls=None, outer=self.stack[-1])
        return [(s, Fn(fi, self.fid, d)) for s, d in self.local_defaults(st, e.args)]

    def local_defaults(self, st, a):
        """[(state, defaults)] of a function defined inside another one."""
        names = [p.arg for p in a.posonlyargs + a.args]
        ds = list(zip(names[len(names) - len(a.defaults) :], a.defaults))
        ds += [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        outs = [(st, ())]
        for n, d in ds:
            nxt = []
            for s, acc in outs:
                if s.exc is not None:
                    nxt.append((s, acc))
                    continue
                nxt.extend((s2, acc + ((n, v),)) for s2, v in self.ev(d, s))
            outs = nxt
        return outs

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_Await(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        outs = []
        for s, v in self.ev(e.value, st) if e.value else [(st, NONE)]:
            if s.exc is None:
                y = self.lookup(s, "<yield>")
                if isinstance(y, R):
                    self.list_append(s, y, v)
            outs.append((s, NONE))
        return outs

    def ev_YieldFrom(self, e, st):
        outs = []
        for s, v in self.ev(e.value, st):
            if s.exc is None:
                y = self.lookup(s, "<yield>")
                if isinstance(y, R):
                    self.list_extend(s, y, v)
            outs.append((s, NONE))
        return outs

    def ev_Slice(self, e, st):
        exprs = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(s, S("slice", tuple(self.snap(s, v) for v in vs)) if s.exc is None else NONE) for s, vs in self.ev_seq(exprs, st)]

    def ev_Subscript(self, e, st):
        outs = []
        for s, vs in self.ev_seq([e.value, e.slice], st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            outs.extend(self.subscript(s, vs[0], vs[1], e))
        return outs

    def elem_ty(self, ty):
        if ty and ty[0] == "opt":
            ty = ty[1]
        if ty and ty[0] in ("list", "set"):
            return ty[1]
        if ty and ty[0] == "str":
            return ("str",)
        return None

    def subscript(self, st, v, i, node):
        if isinstance(i, S) and i.op == "slice":
            return [(st, self.slice(st, v, i))]
        if isinstance(v, Tup) and isinstance(i, K) and isinstance(i.v, int):
            if -len(v.items) <= i.v < len(v.items):
                return [(st, v.items[i.v])]
        if self.unroll > 1 and isinstance(v, Tup) and isinstance(i, K) and isinstance(i.v, int):
            return self.fail(st, "IndexError", node)
        if isinstance(v, K) and isinstance(i, K):
            try:
                return [(st, K(v.v[i.v]))]
            except IndexError:
                if self.unroll > 1:
                    st.exc = Exc("IndexError", S("excval", (self.uid(), "IndexError")), self.where(node))
                    return [(st, NONE)]
            except Exception:
                pass
        if isinstance(v, R):
            o = st.heap[v.oid]
            if o.kind == "obj" and isinstance(o.cls, ClassInfo):
                m = self.p.find_method(o.cls, "__getitem__")
                if m:
                    return self.call(st, BM(Fn(m), v), [i], {}, node)
            if o.kind == "dict":
                return self.dict_get_item(st, v, i, node)
            if o.kind == "list":
                ps = o.parts
                if isinstance(i, K) and isinstance(i.v, int):
                    if i.v >= 0 and len(ps) > i.v and all(p[0] == "item" for p in ps[: i.v + 1]):
                        return [(st, ps[i.v][1])]
                    if i.v < 0 and len(ps) >= -i.v and all(p[0] == "item" for p in ps[i.v :]):
                        return [(st, ps[i.v][1])]
                    if all(p[0] == "item" for p in ps) and not o.lazy:
                        st.exc = Exc("IndexError", S("excval", (self.uid(), "IndexError")), self.where(node))
                        return [(st, NONE)]
                sn = self.snap(st, v)
                outs = []
                nonempty = self.known(st, self.truth_term(st, v)) is True and isinstance(i, K) and i.v in (0, -1)
                if not nonempty:
                    sx = self.partial(st, "IndexError", f"{sn!r}[{i!r}]", node)
                    if sx is not None:
                        outs.append((sx, NONE))
                ety = None
                for p in ps:
                    if p[0] == "rest" and isinstance(p[1], S):
                        ety = ety or self.elem_ty(p[1].ty)
                    elif p[0] == "item" and isinstance(p[1], R) and st.heap[p[1].oid].kind == "obj":
                        ety = ety or ("cls", st.heap[p[1].oid].cls)
                    elif p[0] == "each":
                        for _, qs in p[2]:
                            for q in qs:
                                if q[0] == "item" and isinstance(q[1], R) and q[1].oid in st.heap and st.heap[q[1].oid].kind == "obj":
                                    ety = ety or ("cls", st.heap[q[1].oid].cls)
                ety = ety or self.elem_ty(o.ty)
                # last / first element of a list built by a loop
                if isinstance(i, K) and i.v in (0, -1) and ps:
                    p = ps[0] if i.v == 0 else ps[-1]
                    if p[0] == "rest" and isinstance(p[1], S):
                        outs.insert(0, (st, self.mk(st, S("at", (p[1], i)), ety)))
                        return outs
                    if p[0] == "each" and len(p[2]) == 1 and len(p[2][0][1]) == 1 and p[2][0][1][0][0] == "item":
                        outs.insert(0, (st, p[2][0][1][0][1]))
                        return outs
                outs.insert(0, (st, self.mk(st, S("at", (sn, self.snap(st, i))), ety)))
                return outs
        sn = self.snap(st, v)
        ty = None
        if isinstance(v, S) and v.ty:
            t = v.ty[1] if v.ty[0] == "opt" else v.ty
            if t and t[0] == "list":
                ty = t[1]
            elif t and t[0] == "dict":
                m = self.mk(st, v, t)
                return self.dict_get_item(st, m, i, node)
            elif t and t[0] == "str":
                ty = ("str",)
            elif t and t[0] == "tuple" and isinstance(i, K) and isinstance(i.v, int) and i.v < len(t) - 1:
                ty = t[1 + i.v]
        outs = []
        exc = "IndexError" if isinstance(i, K) and isinstance(i.v, int) else "KeyError"
        if self.known(st, S("truth", (sn,))) is True and isinstance(i, K) and i.v in (0, -1):
            pass
        else:
            for x in ("IndexError", "KeyError") if not (isinstance(i, K) and isinstance(i.v, int)) else ("IndexError",):
                if self.caught(x):
                    sx = self.partial(st, x, f"{sn!r}[{i!r}]", node)
                    outs.append((sx, NONE))
                    break
            else:
                self.partial(st, exc, f"{sn!r}[{i!r}]", node)
        outs.insert(0, (st, self.mk(st, S("at", (sn, self.snap(st, i))), ty)))
        return outs

    def slice(self, st, v, sl):
        if isinstance(v, K) and all(isinstance(a, K) for a in sl.args):
            try:
                return K(v.v[sl.args[0].v : sl.args[1].v : sl.args[2].v])
            except Exception:
                pass
        if isinstance(v, Tup) and all(isinstance(a, K) for a in sl.args):
            return Tup(v.items[sl.args[0].v : sl.args[1].v : sl.args[2].v])
        full = all(isinstance(a, K) and a.v is None for a in sl.args)
        if isinstance(v, R) and st.heap[v.oid].kind == "list":
            ps = st.heap[v.oid].parts
            if full:
                return self.new_list(st, ps)
            if all(p[0] == "item" for p in ps) and all(isinstance(a, K) for a in sl.args):
                return self.new_list(st, ps[sl.args[0].v : sl.args[1].v : sl.args[2].v])
            ty = st.heap[v.oid].ty
            return self.new_list(st, (("rest", S("slice", (self.snap(st, v),) + sl.args, ty or ("list", None))),))
        sn = self.snap(st, v)
        ty = v.ty if isinstance(v, S) else None
        if isinstance(v, S) and ty and ty[0] == "list":
            return self.new_list(st, (("rest", S("slice", (sn,) + sl.args, ty)),))
        return S("slice", (sn,) + sl.args, ty)

    # ------------------------------------------------------------- containers
    def parts_of(self, st, v):
        """sequence parts of an iterable value"""
        if isinstance(v, Tup):
            return tuple(("item", i) for i in v.items)
        if isinstance(v, R):
            o = st.heap[v.oid]
            if o.kind in ("list", "set"):
                return o.parts
            if o.kind == "dict":
                if all(p[0] == "kv" for p in o.parts):
                    return tuple(("item", p[1]) for p in o.parts)
                return (("rest", S("keysof", (self.snap(st, v),), ("list", ("str",)))),)
        if isinstance(v, K):
            if isinstance(v.v, (tuple, list)):
                return tuple(("item", K(i)) for i in v.v)
            if isinstance(v.v, str) and len(v.v) <= MAX_UNROLL:
                return tuple(("item", K(c)) for c in v.v)
        if isinstance(v, Cl) and isinstance(v.ci, ClassInfo) and v.ci.is_enum:
            return tuple(("item", Enm(v.ci, k)) for k in self.enum_members(v.ci))
        sn = self.snap(st, v)
        if isinstance(v, Ex):
            return (("rest", S("ext", (v.name,))),)
        return (("rest", sn),)

    def is_in(self, st, v, parts):
        """Is the value one of the items? None: unknown."""
        unknown = False
        for p in parts:
            t = self.mkeq(st, v, p[1])
            k = bool(t.v) if isinstance(t, K) else self.known(st, t)
            if k is True:
                return True
            if k is None:
                unknown = True
        return None if unknown else False

    def set_op(self, st, n, a, b):
        """Items of the union, difference... of two collections, None when
        they aren't all known."""
        pa, pb = tuple(self.parts_of(st, a)), tuple(self.parts_of(st, b))
        if any(p[0] != "item" for p in pa + pb):
            return None
        if n == "or_":
            got = [(p, self.is_in(st, p[1], pa)) for p in pb]
            return None if any(k is None for _, k in got) else pa + tuple(p for p, k in got if not k)
        got = [(p, self.is_in(st, p[1], pb)) for p in pa]
        if any(k is None for _, k in got):
            return None
        if n == "sub":
            return tuple(p for p, k in got if not k)
        if n == "and_":
            return tuple(p for p, k in got if k)
        rev = [(p, self.is_in(st, p[1], pa)) for p in pb]
        if any(k is None for _, k in rev):
            return None
        return tuple(p for p, k in got + rev if not k)

    def list_append(self, st, r, v):
        o = st.heap[r.oid]
        st.heap[r.oid] = o.replace(parts=o.parts + (("item", v),))

    def list_extend(self, st, r, v):
        o = st.heap[r.oid]
        st.heap[r.oid] = o.replace(parts=o.parts + tuple(self.parts_of(st, v)))

    def dict_set(self, st, r, k, v):
        o = st.heap[r.oid]
        sk = self.snap(st, k)
        parts = list(o.parts)
        for i, p in enumerate(parts):
            if p[0] == "kv" and self.snap(st, p[1]) == sk:
                parts[i] = ("kv", k, v)
                break
        else:
            parts.append(("kv", k, v))
        st.heap[r.oid] = o.replace(parts=tuple(parts), deleted=tuple(d for d in o.deleted if d != sk))

    def dict_update(self, st, r, v):
        if isinstance(v, S) and v.ty and v.ty[0] in ("dict",):
            v = self.mk(st, v, v.ty)
        if isinstance(v, R) and st.heap[v.oid].kind == "dict":
            for p in st.heap[v.oid].parts:
                if p[0] == "kv":
                    self.dict_set(st, r, p[1], p[2])
                else:
                    o = st.heap[r.oid]
                    st.heap[r.oid] = o.replace(parts=o.parts + (p,))
            d = st.heap[v.oid].deleted
            if d:
                st.heap[r.oid] = st.heap[r.oid].replace(deleted=st.heap[r.oid].deleted + d)
            return
        if isinstance(v, R) and st.heap[v.oid].kind == "list":
            for p in st.heap[v.oid].parts:
                if p[0] == "item" and isinstance(p[1], Tup) and len(p[1].items) == 2:
                    self.dict_set(st, r, p[1].items[0], p[1].items[1])
                else:
                    o = st.heap[r.oid]
                    st.heap[r.oid] = o.replace(parts=o.parts + (p,))
            return
        o = st.heap[r.oid]
        st.heap[r.oid] = o.replace(parts=o.parts + (("rest", self.snap(st, v)),))

    def dict_lookup(self, st, r, k):
        """('found', v) | ('absent',) | ('maybe',)"""
        o = st.heap[r.oid]
        sk = self.snap(st, k)
        maybe = False
        for p in reversed(o.parts):
            if p[0] == "kv":
                t = self.known(st, self.mkeq(st, p[1], k))
                if t is True:
                    return ("found", p[2]) if not maybe else ("maybe",)
                if t is None:
                    maybe = True
            else:
                if sk in o.deleted:
                    continue
                maybe = True
        return ("maybe",) if maybe else ("absent",)

    def val_ty(self, st, r):
        o = st.heap[r.oid]
        ty = o.ty
        for p in o.parts:
            if p[0] == "rest" and isinstance(p[1], S) and p[1].ty:
                ty = ty or p[1].ty
        if ty and ty[0] == "opt":
            ty = ty[1]
        return ty[2] if ty and ty[0] == "dict" else None

    def dispatch(self, st, r, k, node):
        """Lookup of an unknown key in a literal table of behaviours (functions,
        classes, tuples...): one state per entry plus, when the key may be
        elsewhere, one without an entry. None: not such a table."""
        o = st.heap[r.oid]
        if not o.parts or len(o.parts) > 16:
            return None
        for p in o.parts:
            if p[0] != "kv" or not isinstance(p[1], (K, Enm)):
                return None
        if all(isinstance(p[2], (K, S)) for p in o.parts):
            return None
        if not isinstance(self.snap(st, k), S):
            return None
        inside = self.known(st, S("in", (self.snap(st, k), self.snap(st, r))))
        outs = []
        rest = st
        for p in o.parts:
            branches = self.branch(rest, self.mkeq(rest, p[1], k), node)
            rest = None
            for s, t in branches:
                if t:
                    outs.append((s, p[2]))
                else:
                    rest = s
            if rest is None:
                break
        if rest is not None and inside is not True:
            outs.append((rest, None))
        return outs

    def dict_get_item(self, st, r, k, node):
        lk = self.dict_lookup(st, r, k)
        if lk[0] == "found":
            return [(st, lk[1])]
        if lk[0] == "maybe":
            table = self.dispatch(st, r, k, node)
            if table is not None:
                outs = []
                for s, v in table:
                    if v is None:
                        sx = self.partial(s, "KeyError", f"{self.snap(s, k)!r}", node)
                        if sx is None:
                            continue
                        outs.append((sx, NONE))
                    else:
                        outs.append((s, v))
                if outs:
                    return outs
        sn = self.snap(st, r)
        sk = self.snap(st, k)
        outs = []
        if lk[0] == "absent":
            o = st.heap[r.oid]
            if o.ty == "defaultdict" or (o.cls == "defaultdict"):
                factory = o.get("<factory>")
                if factory is None:
                    v = self.new_list(st)
                    self.dict_set(st, r, k, v)
                    return [(st, v)]
                outs = []
                for s, v in self.call(st, factory, [], {}, node):
                    if s.exc is None:
                        self.dict_set(s, r, k, v)
                    outs.append((s, v))
                return outs
            if self.caught("KeyError") or self.unroll > 1:
                st.exc = Exc("KeyError", S("excval", (self.uid(), "KeyError")), self.where(node))
                return [(st, NONE)]
        atom = S("in", (sk, sn))
        known = self.known(st, atom)
        if known is not True:
            sx = self.partial(st, "KeyError", f"{sn!r}[{sk!r}]", node)
            if sx is not None:
                if known is False:
                    return [(sx, NONE)]
                sx.facts[atom] = False
                sx.trace = sx.trace + (Ev("assume", (atom, False), self.where(node)),)
                outs.append((sx, NONE))
                st.facts[atom] = True
                self.emit(st, "assume", atom, True, node=node)
        if isinstance(sk, S) and sk.op == "key" and sk.args == (sn,):
            # the value paired with a key of this very dictionary
            return [(st, self.mk(st, S("val", (sn,)), self.val_ty(st, r)))]
        outs.insert(0, (st, self.mk(st, S("at", (sn, sk)), self.val_ty(st, r))))
        return outs

    # --------------------------------------------------------- comprehensions
    def ev_ListComp(self, e, st):
        return self._comp(e.generators, e, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self._comp(e.generators, e, st, "list")

    def ev_SetComp(self, e, st):
        return self._comp(e.generators, e, st, "set")

    def ev_DictComp(self, e, st):
        return self._comp(e.generators, e, st, "dict")

    def _comp(self, gens, e, st, kind):
        """A comprehension is the loop that appends to a fresh container."""
        r = self.alloc(st, O(kind=kind))
        self.accs.add(r.oid)
        fid = self.new_frame(st, {}, self.fid)
        st.frames[fid]["<acc>"] = r
        saved = self.fid

        def leaf(s):
            exprs = [e.key, e.value] if kind == "dict" else [e.elt]
            res = []
            for s2, vs in self.ev_seq(exprs, s):
                if s2.exc is None:
                    if kind == "dict":
                        self.dict_set(s2, r, vs[0], vs[1])
                    else:
                        self.list_append(s2, r, vs[0])
                res.append((s2, None))
            return res

        def gen(i, s):
            if i == len(gens):
                return leaf(s)
            g = gens[i]
            res = []
            # the first iterable is evaluated in the enclosing scope
            self.fid = saved if i == 0 else fid
            try:
                its = self.ev(g.iter, s)
            finally:
                self.fid = fid
            for s2, itv in its:
                if s2.exc is not None:
                    res.append((s2, None))
                    continue

                def body(s3):
                    outs = [(s3, True)]
                    for cond in g.ifs:
                        nxt = []
                        for s4, ok in outs:
                            if not ok or s4.exc is not None:
                                nxt.append((s4, ok))
                                continue
                            for s5, cv in self.ev(cond, s4):
                                if s5.exc is not None:
                                    nxt.append((s5, False))
                                    continue
                                nxt.extend(self.truth(s5, cv, cond))
                        outs = nxt
                    fin = []
                    for s4, ok in outs:
                        if s4.exc is not None or not ok:
                            fin.append((s4, None))
                        else:
                            fin.extend(gen(i + 1, s4))
                    return fin

                res.extend(self.run_for(s2, g.target, itv, body, e, names=assigned_names([g.target])))
            return res

        self.fid = fid
        try:
            outs = gen(0, st)
        finally:
            self.fid = saved
        self.accs.discard(r.oid)
        return [(s, r) for s, _ in outs]

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fi = self._method_frame()
            if fi is not None:
                selfname = fi.node.args.args[0].arg
                return [(st, Super(fi.cls, self.lookup(st, selfname)))]
        exprs = [e.func] + [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        outs = []
        for s, vs in self.ev_seq(exprs, st):
            if s.exc is not None:
                outs.append((s, NONE))
                continue
            fn = vs[0]
            args = []
            for a, v in zip(e.args, vs[1 : 1 + len(e.args)]):
                if isinstance(a, ast.Starred):
                    known = self.expand(s, [("*", v)], {})[0]
                    args.extend(known)
                else:
                    args.append(v)
            kwargs = {}
            for k, v in zip(e.keywords, vs[1 + len(e.args) :]):
                if k.arg is None:
                    kwargs.setdefault("**", []).append(v)
                else:
                    kwargs[k.arg] = v
            outs.extend(self.call(s, fn, args, kwargs, e))
        return outs

    def _method_frame(self):
        for fi in reversed(self.stack):
            f = fi
            while f is not None and f.cls is None:
                f = f.outer
            return f
        return None

    # ------------------------------------------------------------- statements
    def ex_block(self, body, st):
        """[(st, ctl)] ctl: None | ('return',v) | ('break',) | ('continue',)"""
        outs = [(st, None)]
        for stmt in body:
            nxt = []
            for s, ctl in outs:
                if ctl is not None or s.exc is not None:
                    nxt.append((s, ctl))
                    continue
                nxt.extend(self.ex(stmt, s))
            outs = self._dedupe(nxt)
            if all(ctl is not None or s.exc is not None for s, ctl in outs):
                break
        return outs

    def _dedupe(self, outs):
        if len(outs) < 24:
            return outs
        # join states identical up to facts
        groups = {}
        res = []
        for s, ctl in outs:
            try:
                key = (
                    ctl,
                    s.exc,
                    s.trace,
                    tuple(sorted(s.heap.items(), key=lambda kv: kv[0])),
                    tuple(
                        (k, tuple(v) if isinstance(v, list) else v)
                        for k, v in sorted(s.frames.get(self.fid, {}).items(), key=lambda kv: kv[0])
                    ),
                )
                hash(key)
            except TypeError:
                res.append((s, ctl))
                continue
            if key in groups:
                o = groups[key]
                for k in list(o.facts):
                    if s.facts.get(k) != o.facts[k]:
                        del o.facts[k]
            else:
                groups[key] = s
                res.append((s, ctl))
        if len(res) > 6000:
            raise Budget("too many abstract states")
        return res

    def ex(self, s, st):
        self.tick()
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            self.note(f"unsupported statement {type(s).__name__}")
            return [(st, None)]
        self.curnode = s
        return m(s, st)

    def ex_Pass(self, s, st):
        return [(st, None)]

    ex_Import = ex_ImportFrom = ex_Pass

    def ex_ImportFrom(self, s, st):
        m = self.stack[-1].module
        mod = self.p._abs_module(m, s)
        for a in s.names:
            if mod in self.p.modules:
                r = self.p.resolve(self.p.modules[mod], a.name)
                v = self.from_binding(st, r, self.p.modules[mod]) if r else Ex(f"{mod}.{a.name}")
            else:
                v = Ex(f"{mod}.{a.name}")
            self.store(st, a.asname or a.name, v)
        return [(st, None)]

    def ex_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            self.store(st, n, M(self.p.modules[full]) if full in self.p.modules else Ex(full))
        return [(st, None)]

    def ex_Global(self, s, st):
        self.emit(st, "global", tuple(s.names), node=s)
        fr = st.frames[self.fid]
        fr["<global>"] = frozenset(s.names) | (fr.get("<global>") or frozenset())
        return [(st, None)]

    def ex_Nonlocal(self, s, st):
        fr = st.frames[self.fid]
        fr["<nonlocal>"] = frozenset(s.names) | (fr.get("<nonlocal>") or frozenset())
        return [(st, None)]

    def ex_Expr(self, s, st):
        return [(s2, None) for s2, _ in self.ev(s.value, st)]

    def ex_Return(self, s, st):
        if s.value is None:
            return [(st, ("return", NONE))]
        return [(s2, ("return", v) if s2.exc is None else None) for s2, v in self.ev(s.value, st)]

    def ex_Break(self, s, st):
        return [(st, ("break",))]

    def ex_Continue(self, s, st):
        return [(st, ("continue",))]

    def ex_Assign(self, s, st):
        outs = []
        for s2, v in self.ev(s.value, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            cur = [s2]
            for t in s.targets:
                nxt = []
                for s3 in cur:
                    nxt.extend(self.assign(s3, t, v) if s3.exc is None else [s3])
                cur = nxt
            outs.extend((x, None) for x in cur)
        return outs

    def ex_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        outs = []
        for s2, v in self.ev(s.value, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            if isinstance(v, S) and v.ty is None:
                ty = self.p.parse_type(self.stack[-1].module, s.annotation)
                if ty is not None:
                    v = self.mk(s2, v, ty)
            elif isinstance(v, R) and s2.heap[v.oid].kind in ("list", "dict", "set") and s2.heap[v.oid].ty is None:
                ty = self.p.parse_type(self.stack[-1].module, s.annotation)
                if ty is not None and ty[0] == s2.heap[v.oid].kind:
                    s2.heap[v.oid] = s2.heap[v.oid].replace(ty=ty)
            outs.extend((x, None) for x in self.assign(s2, s.target, v))
        return outs

    def ex_AugAssign(self, s, st):
        load = _as_load(s.target)
        outs = []
        for s2, vs in self.ev_seq([load, s.value], st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            cur, v = vs
            if isinstance(cur, R) and s2.heap[cur.oid].kind == "list" and isinstance(s.op, ast.Add):
                self.emit(s2, "mut", self.snap(s2, cur), "extend", (self.snap(s2, v),), cur.oid, node=s)
                self.list_extend(s2, cur, v)
                outs.extend((x, None) for x in self.assign(s2, s.target, cur))
                continue
            if isinstance(cur, R) and s2.heap[cur.oid].kind in ("set", "dict") and isinstance(s.op, ast.BitOr):
                self.emit(s2, "mut", self.snap(s2, cur), "update", (self.snap(s2, v),), cur.oid, node=s)
                if s2.heap[cur.oid].kind == "set":
                    self.list_extend(s2, cur, v)
                else:
                    self.dict_update(s2, cur, v)
                outs.append((s2, None))
                continue
            outs.extend((x, None) for x in self.assign(s2, s.target, self.binop(s2, s.op, cur, v)))
        return outs

    def assign(self, st, t, v):
        """[st]"""
        if isinstance(t, ast.Name):
            self.store(st, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                if s.exc is None:
                    self.setattr(s, o, t.attr, v, t)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.ev_seq([t.value, t.slice], st):
                if s.exc is not None:
                    out.append(s)
                    continue
                c, k = vs
                if isinstance(c, S) and c.ty and c.ty[0] in ("dict", "list"):
                    c = self.mk(s, c, c.ty)
                if isinstance(c, R):
                    o = s.heap[c.oid]
                    if o.kind == "obj" and isinstance(o.cls, ClassInfo):
                        m = self.p.find_method(o.cls, "__setitem__")
                        if m:
                            out.extend(s2 for s2, _ in self.call(s, BM(Fn(m), c), [k, v], {}, t))
                            continue
                    self.emit(s, "mut", self.snap(s, c), "setitem", (self.snap(s, k), self.snap(s, v)), c.oid, v, node=t)
                    if o.kind == "dict":
                        self.dict_set(s, c, k, v)
                    elif o.kind == "list" and isinstance(k, S) and k.op == "slice" and all(
                        isinstance(a, K) and a.v is None for a in k.args
                    ):
                        s.heap[c.oid] = o.replace(parts=tuple(self.parts_of(s, v)))
                    else:
                        s.heap[c.oid] = o.replace(parts=(("rest", S("modified", (self.snap(s, c), self.snap(s, k), self.snap(s, v)), o.ty)),))
                else:
                    self.emit(s, "mut", self.snap(s, c), "setitem", (self.snap(s, k), self.snap(s, v)), None, v, node=t)
                out.append(s)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, t.elts, v)
        if isinstance(t, ast.Starred):
            return self.assign(st, t.value, v)
        self.note(f"unsupported target {type(t).__name__}")
        return [st]

    def unpack(self, st, elts, v):
        n = len(elts)
        star = next((i for i, x in enumerate(elts) if isinstance(x, ast.Starred)), None)
        parts = None
        if isinstance(v, Tup) or (
            isinstance(v, R)
            and st.heap[v.oid].kind in ("list", "set")
            and all(p[0] == "item" for p in st.heap[v.oid].parts)
        ):
            parts = [p[1] for p in self.parts_of(st, v)]
        if parts is not None and star is None and len(parts) == n:
            cur = [st]
            for t, x in zip(elts, parts):
                cur = [s2 for s in cur for s2 in (self.assign(s, t, x) if s.exc is None else [s])]
            return cur
        if parts is not None and star is not None and len(parts) >= n - 1:
            cur = [st]
            after = n - star - 1
            mid = parts[star : len(parts) - after]
            vals = parts[:star] + [None] + parts[len(parts) - after :]
            for i, t in enumerate(elts):
                nx = []
                for s in cur:
                    x = self.new_list(s, [("item", m) for m in mid]) if i == star else vals[i]
                    nx.extend(self.assign(s, t, x) if s.exc is None else [s])
                cur = nx
            return cur
        if parts is not None and (isinstance(v, Tup) or not st.heap[v.oid].lazy):
            # the wrong number of values
            st.exc = Exc("ValueError", S("excval", (self.uid(), "ValueError")), self.where(self.curnode))
            return [st]
        sn = self.snap(st, v)
        out = []
        ty = v.ty if isinstance(v, S) else None
        fixed = ty and ty[0] == "tuple" and len(ty) - 1 == n
        elem_of_zip = isinstance(v, S) and v.op in ("pair",)
        if not fixed and not elem_of_zip and star is None:
            sx = self.partial(st, "ValueError", f"unpack {sn!r}", self.curnode)
            if sx is not None:
                atom = S("unpacks", (sn, K(n)))
                sx.facts[atom] = False
                sx.trace = sx.trace + (Ev("assume", (atom, False), self.where()),)
                st.facts[atom] = True
                self.emit(st, "assume", atom, True)
                out.append(sx)
        cur = [st]
        for i, t in enumerate(elts):
            nx = []
            for s in cur:
                if i == star:
                    x = self.new_list(s, (("rest", S("slice", (sn, K(i), K(-(n - i - 1) or None), NONE), ("list", self.elem_ty(ty)))),))
                else:
                    ety = ty[1 + i] if fixed else self.elem_ty(ty)
                    idx = i if star is None or i < star else i - n
                    x = self.mk(s, S("at", (sn, K(idx))), ety)
                nx.extend(self.assign(s, t, x) if s.exc is None else [s])
            cur = nx
        return cur + out

    def ex_Delete(self, s, st):
        outs = [st]
        for t in s.targets:
            nxt = []
            for s1 in outs:
                if isinstance(t, ast.Subscript):
                    for s2, vs in self.ev_seq([t.value, t.slice], s1):
                        if s2.exc is None and isinstance(vs[0], R) and s2.heap[vs[0].oid].kind == "list" and not (isinstance(vs[1], S) and vs[1].op == "slice"):
                            from . import builtins_model as bm
                            nxt.extend(s3 for s3, _ in bm.call_method(self, s2, vs[0], "pop", [vs[1]], {}, s))
                            continue
                        if s2.exc is None and isinstance(vs[0], R):
                            self.emit(s2, "mut", self.snap(s2, vs[0]), "delitem", (self.snap(s2, vs[1]),), vs[0].oid, node=s)
                            self.dict_delete(s2, vs[0], vs[1])
                        nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s2, v in self.ev(t.value, s1):
                        if s2.exc is None:
                            self.emit(s2, "set", self.snap(s2, v), t.attr, S("deleted"), v.oid if isinstance(v, R) else None, S("deleted"), node=s)
                        nxt.append(s2)
                else:
                    if isinstance(t, ast.Name):
                        s1.frames[self.fid].pop(t.id, None)
                    nxt.append(s1)
            outs = nxt
        return [(s2, None) for s2 in outs]

    def dict_delete(self, st, r, k):
        o = st.heap[r.oid]
        sk = self.snap(st, k)
        parts = tuple(p for p in o.parts if not (p[0] in ("kv", "item") and self.snap(st, p[1]) == sk))
        deleted = o.deleted
        if any(p[0] in ("rest", "each") for p in parts) and sk not in deleted:
            deleted = deleted + (sk,)
        st.heap[r.oid] = o.replace(parts=parts, deleted=deleted)

    def ex_If(self, s, st):
        outs = []
        for s2, v in self.ev(s.test, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            for s3, t in self.truth(s2, v, s):
                outs.extend(self.ex_block(s.body if t else s.orelse, s3))
        return outs

    def ex_Assert(self, s, st):
        outs = []
        for s2, v in self.ev(s.test, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            for s3, t in self.truth(s2, v, s):
                if not t:
                    s3.exc = Exc("AssertionError", NONE, self.where(s))
                outs.append((s3, None))
        return outs

    def ex_FunctionDef(self, s, st):
        fi = FuncInfo(s.name, self.stack[-1].module, s, cls=None, outer=self.stack[-1])
        outs = []
        for s2, d in self.local_defaults(st, s.args):
            if s2.exc is None:
                self.store(s2, s.name, Fn(fi, self.fid, d))
            outs.append((s2, None))
        return outs

    def ex_ClassDef(self, s, st):
        self.store(st, s.name, self.unknown())
        return [(st, None)]

    def ex_Raise(self, s, st):
        if s.exc is None:
            fr_exc = st.frames[self.fid].get("<exc>")
            st.exc = fr_exc if fr_exc is not None else Exc("RuntimeError", NONE, self.where(s))
            self.emit(st, "reraise", st.exc.name, node=s)
            return [(st, None)]
        outs = []
        for s2, v in self.ev(s.exc, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            cls = None
            val = v
            if isinstance(v, Cl):
                cls = v.ci
                for s3, r in self.construct(s2, cls, [], {}, s):
                    if s3.exc is None:
                        s3.exc = Exc(cls, r, self.where(s))
                        self.emit(s3, "raise", cls.name, self.snap(s3, r), r.oid if isinstance(r, R) else None, node=s)
                    outs.append((s3, None))
                continue
            if isinstance(v, Ex):
                cls = v.name.split(".")[-1]
            elif isinstance(v, R):
                o = s2.heap[v.oid]
                cls = o.cls if isinstance(o.cls, ClassInfo) else "Exception"
            elif isinstance(v, S) and v.op in ("ret", "extcall") and v.args:
                d = v.args[0]
                n = d.name if isinstance(d, Ex) else str(d)
                cls = n.split(".")[-1].strip("'\"")
            elif isinstance(v, S) and v.op == "excval":
                cls = v.args[1]
            else:
                fe = s2.frames[self.fid].get("<exc>")
                cls = fe.cls if fe is not None else "Exception"
            s2.exc = Exc(cls, v, self.where(s))
            self.emit(s2, "raise", s2.exc.name, self.snap(s2, v), v.oid if isinstance(v, R) else None, node=s)
            outs.append((s2, None))
        return outs

    def handler_types(self, st, h):
        if h.type is None:
            return [None]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            r = self.p.resolve_expr(self.stack[-1].module, t)
            if r and r[0] == "class":
                out.append(r[1])
            elif r and r[0] == "ext":
                out.append(r[1].split(".")[-1])
            elif r and r[0] == "assign":
                v = self.from_binding(st, r, r[2])
                for p in self.parts_of(st, v):
                    if p[0] == "item":
                        out.append(p[1].ci if isinstance(p[1], Cl) else p[1].name.split(".")[-1] if isinstance(p[1], Ex) else "?")
            else:
                v = None
                if isinstance(t, ast.Name):
                    v = self.lookup(st, t.id)
                if isinstance(v, Cl):
                    out.append(v.ci)
                elif isinstance(v, Ex):
                    out.append(v.name.split(".")[-1])
                else:
                    out.append(ast.unparse(t))
        return out

    def ex_Try(self, s, st):
        hts = [(h, self.handler_types(st, h)) for h in s.handlers]
        self.tries.append([t for _, ts in hts for t in ts])
        try:
            outs = self.ex_block(s.body, st)
        finally:
            self.tries.pop()
        res = []
        for s2, ctl in outs:
            if s2.exc is None:
                if ctl is None and s.orelse:
                    res.extend(self.ex_block(s.orelse, s2))
                else:
                    res.append((s2, ctl))
                continue
            for h, ts in hts:
                if any(self.exc_matches(s2.exc.cls, t) for t in ts):
                    exc = s2.exc
                    s2.exc = None
                    fr = s2.frames[self.fid]
                    saved = fr.get("<exc>")
                    fr["<exc>"] = exc
                    if h.name:
                        fr[h.name] = exc.value if exc.value is not None else S("excval", (self.uid(), exc.name))
                    self.emit(s2, "handled", exc.name, exc.where, node=h)
                    for s3, c3 in self.ex_block(h.body, s2):
                        s3.frames[self.fid]["<exc>"] = saved
                        if saved is None:
                            s3.frames[self.fid].pop("<exc>", None)
                        res.append((s3, c3))
                    break
            else:
                res.append((s2, ctl))
        if s.finalbody:
            fin = []
            for s2, ctl in res:
                exc = s2.exc
                s2.exc = None
                for s3, c3 in self.ex_block(s.finalbody, s2):
                    if s3.exc is None and c3 is None:
                        s3.exc = exc
                        fin.append((s3, ctl))
                    else:
                        fin.append((s3, c3))
            res = fin
        return res

    ex_TryStar = ex_Try

    def ex_With(self, s, st):
        return self._with(s.items, s.body, st, s)

    def _with(self, items, body, st, node):
        if not items:
            return self.ex_block(body, st)
        it = items[0]
        outs = []
        for s2, cm in self.ev(it.context_expr, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            if isinstance(cm, S) and cm.ty is not None:
                cm = self.mk(s2, cm, cm.ty)
            summ = None
            if isinstance(cm, R):
                o = s2.heap[cm.oid]
                if o.kind == "obj" and isinstance(o.cls, ClassInfo):
                    summ = self.summaries.get(f"with:{o.cls.name}")
                    if summ is not None:
                        outs.extend(summ(self, s2, cm, lambda s3: self._with(items[1:], body, s3, node), node))
                        continue
                    en = self.p.find_method(o.cls, "__enter__")
                    ex = self.p.find_method(o.cls, "__exit__")
                    if en and ex:
                        outs.extend(self._with_cm(s2, cm, en, ex, it, items, body, node))
                        continue
            # contextlib.suppress(X)
            if isinstance(cm, S) and cm.op == "suppress":
                self.tries.append([a for a in cm.args])
                try:
                    inner = self._with(items[1:], body, s2, node)
                finally:
                    self.tries.pop()
                for s3, c3 in inner:
                    if s3.exc is not None and any(self.exc_matches(s3.exc.cls, t) for t in cm.args):
                        self.emit(s3, "handled", s3.exc.name, s3.exc.where, node=node)
                        s3.exc = None
                        c3 = None
                    outs.append((s3, c3))
                continue
            # plain resource (open(...)): enter returns the resource itself
            cur = [s2]
            if it.optional_vars is not None:
                cur = self.assign(s2, it.optional_vars, cm)
            for s3 in cur:
                if s3.exc is not None:
                    outs.append((s3, None))
                    continue
                self.emit(s3, "withenter", self.snap(s3, cm), node=node)
                for s4, c in self._with(items[1:], body, s3, node):
                    self.emit(s4, "withexit", self.snap(s4, cm), node=node)
                    outs.append((s4, c))
        return outs

    def _with_cm(self, st, cm, en, ex, it, items, body, node):
        outs = []
        for s2, v in self.call(st, BM(Fn(en), cm), [], {}, node):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            cur = [s2] if it.optional_vars is None else self.assign(s2, it.optional_vars, v)
            for s3 in cur:
                # conservatively assume __exit__ may swallow what it tests for
                self.tries.append(["TokenError" if False else self.p.maybe_cls("TokenError") or "?"])
                try:
                    inner = self._with(items[1:], body, s3, node)
                finally:
                    self.tries.pop()
                for s4, c in inner:
                    exc = s4.exc
                    s4.exc = None
                    if exc is None:
                        a = [NONE, NONE, NONE]
                    else:
                        et = Cl(exc.cls) if isinstance(exc.cls, ClassInfo) else Ex(f"builtins.{exc.name}")
                        a = [et, exc.value or self.unknown(), self.unknown()]
                    for s5, rv in self.call(s4, BM(Fn(ex), cm), a, {}, node):
                        if s5.exc is not None:
                            outs.append((s5, None))
                            continue
                        if exc is None:
                            outs.append((s5, c))
                            continue
                        for s6, t in self.truth(s5, rv, node):
                            if not t:
                                s6.exc = exc
                                outs.append((s6, c))
                            else:
                                outs.append((s6, None))
        return outs

    # ----------------------------------------------------------------- match
    def ex_Match(self, s, st):
        outs = []
        for s2, v in self.ev(s.subject, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            cur = [s2]
            for case in s.cases:
                nxt = []
                for s3 in cur:
                    for s4, ok in self.match_pattern(s3, case.pattern, v):
                        if s4.exc is not None:
                            outs.append((s4, None))
                            continue
                        if not ok:
                            nxt.append(s4)
                            continue
                        if case.guard is not None:
                            for s5, g in self.ev(case.guard, s4):
                                if s5.exc is not None:
                                    outs.append((s5, None))
                                    continue
                                for s6, t in self.truth(s5, g, case.guard):
                                    if t:
                                        outs.extend(self.ex_block(case.body, s6))
                                    else:
                                        nxt.append(s6)
                        else:
                            outs.extend(self.ex_block(case.body, s4))
                cur = nxt
            outs.extend((s3, None) for s3 in cur)
        return outs

    def match_pattern(self, st, p, v):
        if isinstance(p, ast.MatchValue):
            outs = []
            for s, pv in self.ev(p.value, st):
                outs.extend(self.branch(s, self.mkeq(s, v, pv), p))
            return outs
        if isinstance(p, ast.MatchSingleton):
            outs = []
            for s, t in self.compare(st, ast.Is(), v, K(p.value), p):
                outs.extend(self.branch(s, t, p))
            return outs
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store(st, p.name, v)
                return [(st, True)]
            outs = []
            for s, ok in self.match_pattern(st, p.pattern, v):
                if ok and p.name:
                    self.store(s, p.name, v)
                outs.append((s, ok))
            return outs
        if isinstance(p, ast.MatchOr):
            outs = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, ok in self.match_pattern(s, q, v):
                        if ok:
                            outs.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return outs + [(s, False) for s in cur]
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Tup) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(v.items) != len(p.patterns):
                    return [(st, False)]
                cur = [(st, True)]
                for q, x in zip(p.patterns, v.items):
                    nxt = []
                    for s, ok in cur:
                        nxt.extend(self.match_pattern(s, q, x) if ok else [(s, False)])
                    cur = nxt
                return cur
        if isinstance(p, ast.MatchClass):
            outs = []
            for s, c in self.ev(p.cls, st):
                from . import builtins_model as bm

                for s2, t in bm.isinstance_(self, s, v, c, p):
                    outs.extend(self.branch(s2, t, p))
            return outs
        atom = S("matches", (self.snap(st, v), ast.unparse(p)))
        return self.branch(st, atom, p)

    # ------------------------------------------------------------------ loops
    def ex_For(self, s, st):
        outs = []
        for s2, itv in self.ev(s.iter, st):
            if s2.exc is not None:
                outs.append((s2, None))
                continue
            names = assigned_names(s.body) | assigned_names([s.target])
            done = self.run_for(s2, s.target, itv, lambda s3: self.ex_block(s.body, s3), s, names=names)
            for s3, ctl in done:
                if ctl == ("broke",):
                    outs.append((s3, None))
                elif ctl is None and s3.exc is None and s.orelse:
                    outs.extend(self.ex_block(s.orelse, s3))
                else:
                    outs.append((s3, ctl))
        return outs

    def element(self, st, part):
        """values of one generic element of a container part:
        list of (facts, value)"""
        kind = part[0]
        if kind == "item":
            return part[1]
        if kind == "rest":
            t = part[1]
            if isinstance(t, S):
                if t.op == "itemsof":
                    d = t.args[0]
                    kt, vt = None, None
                    if t.ty and t.ty[0] == "list" and t.ty[1] and t.ty[1][0] == "tuple":
                        kt, vt = t.ty[1][1], t.ty[1][2]
                    return Tup((self.mk(st, S("key", (d,)), kt), self.mk(st, S("val", (d,)), vt)))
                if t.op == "keysof":
                    return S("key", (t.args[0],), ("str",))
                if t.op == "valuesof":
                    return self.mk(st, S("val", (t.args[0],)), self.elem_ty(t.ty))
                if t.op == "enumerate":
                    x = t.args[0]
                    el = self.element(st, ("rest", x))
                    return Tup((S("index", (x,) + t.args[1:], ("int",)), el))
                if t.op == "zip":
                    return Tup(tuple(self.element(st, ("rest", x)) for x in t.args))
                if t.op in ("reversed", "sorted", "tuple_of"):
                    return self.element(st, ("rest", t.args[0]))
                if t.op == "list" and len(t.args) == 1 and t.args[0][0] == "rest":
                    return self.element(st, t.args[0])
                return self.mk(st, S("elem", (t,)), self.elem_ty(t.ty))
            return S("elem", (t,))
        raise AssertionError(kind)

    def run_for(self, st, target, itv, body, node, names=()):
        """Generic for loop. body(state) -> [(state, ctl)].
        Returns [(state, ctl)]; ctl ('broke',) marks exit by break."""
        if self.raise_mode and isinstance(itv, K) and itv.v is None:
            st.exc = Exc("TypeError", NONE, self.where(node))
            return [(st, None)]
        if isinstance(itv, S) and itv.ty is not None and itv.ty[0] in ("list", "dict", "set", "opt"):
            m = self.mk(st, itv, itv.ty)
            if isinstance(m, R):
                itv = m
        if isinstance(itv, R) and st.heap[itv.oid].kind == "set":
            self.emit(st, "iterset", self.snap(st, itv), node=node)
        parts = self.parts_of(st, itv)
        explicit = all(p[0] == "item" for p in parts)
        cur = [st]
        fin = []
        if explicit and len(parts) > MAX_UNROLL:
            parts = (("rest", self.snap(st, itv)),)
        # the container may be modified by the body: work on the snapshot
        for part in parts:
            nxt = []
            for s in cur:
                if part[0] == "item":
                    for s2 in self.assign(s, target, part[1]):
                        if s2.exc is not None:
                            fin.append((s2, None))
                            continue
                        for s3, ctl in body(s2):
                            if s3.exc is not None:
                                fin.append((s3, None))
                            elif ctl is None or ctl[0] == "continue":
                                nxt.append(s3)
                            elif ctl[0] == "break":
                                fin.append((s3, ("broke",)))
                            else:
                                fin.append((s3, ctl))
                elif part[0] == "rest":
                    n2, f2 = self.generic_iter(s, part[1], lambda x, pt=part: [((), self.element(x, pt))], target, body, node, names)
                    nxt.extend(n2)
                    fin.extend(f2)
                else:  # each
                    def elems(x, pt=part):
                        res = []
                        for facts, ps in pt[2]:
                            if not ps:
                                res.append((facts, SKIP))
                            for q in ps:
                                if q[0] == "item":
                                    res.append((facts, q[1]))
                                elif q[0] == "kv":
                                    res.append((facts, q[1]))
                                elif q[0] == "rest":
                                    res.append((facts, self.element(x, q)))
                                else:
                                    res.append((facts, S("elem", (self.snap(x, q[1]),))))
                        return res

                    n2, f2 = self.generic_iter(s, part[1], elems, target, body, node, names)
                    nxt.extend(n2)
                    fin.extend(f2)
            cur = self._dedupe_states(nxt)
        return [(s, None) for s in cur] + fin

    def _dedupe_states(self, sts):
        if len(sts) < 24:
            return sts
        return [s for s, _ in self._dedupe([(s, None) for s in sts])]

    def generic_iter(self, st, src, elems, target, body, node, names):
        src = self.snap(st, src) if not isinstance(src, tuple) else src
        base_len = len(st.trace)

        def once(base):
            normals, exits = [], []
            for facts, el in elems(base):
                b = base.fork()
                self.havoc(b, names, node)
                for f in facts:
                    b.facts[f[0]] = f[1]
                f0 = dict(b.facts)
                if el is SKIP:
                    # an alternative of the source that has no element
                    b.facts = dict(b.facts)
                    normals.append((b, {k: v for k, v in f0.items() if k not in dict(facts)}))
                    continue
                for b2 in self.assign(b, target, el):
                    if b2.exc is not None:
                        exits.append((b2, None, f0))
                        continue
                    for b3, ctl in body(b2):
                        if b3.exc is not None:
                            exits.append((b3, None, f0))
                        elif ctl is None or ctl[0] == "continue":
                            normals.append((b3, f0))
                        elif ctl[0] == "break":
                            exits.append((b3, ("broke",), f0))
                        else:
                            exits.append((b3, ctl, f0))
            return normals, exits

        np = len(self.partials)
        normals, exits = once(st)
        if self.touched(st, normals, src):
            del self.partials[np:]
            normals, exits = once(st)
        hv = self.carried(st, normals, node)
        if hv:
            del self.partials[np:]
            base = st.fork()
            base.heap.update(hv)
            normals, exits = once(base)
        rb = self.rebound(st, normals, names, node)
        if rb:
            base = st.fork()
            base.heap.update(hv)
            for n, v in rb.items():
                base.frames[self.fid][n] = self.mk_carried(base, st, n, v, node)
            n2, x2 = once(base)
            normals, exits = normals + n2, exits + x2
        return self.finish_loop(st, src, base_len, normals, exits, node, "for", names, target, hv)

    def rebound(self, st, normals, names, node):
        """Locals that hold an object at the entry of the loop and another
        one at the end of an iteration."""
        out = {}
        fr = st.frames[self.fid]
        for n in names:
            old = fr.get(n)
            if not isinstance(old, R):
                continue
            for b, _ in normals:
                v = b.frames[self.fid].get(n)
                if isinstance(v, R) and v != old and b.heap.get(v.oid) is not None and b.heap[v.oid].kind == st.heap[old.oid].kind:
                    out[n] = b.heap[v.oid]
        return out

    def touched(self, st, normals, src=None):
        """Containers first reached, and changed, by the body of a loop: make
        them part of the state at its entry."""
        res = False
        for b, _ in normals:
            for oid, o in b.heap.items():
                e = st.heap.get(oid)
                if e is None or e is o or e.kind != "obj" or not e.lazy or (src is not None and iterated(e.path, src)):
                    continue
                for k, v in o.attrs:
                    if not isinstance(v, R) or v.oid in st.heap or st.heap[oid].get(k) is not None:
                        continue
                    x = b.heap[v.oid]
                    if x.kind not in ("list", "dict", "set") or not x.lazy or not isinstance(x.ty, tuple) or x.path != S("attr", (e.path, k)):
                        continue
                    if len(x.parts) == 1 and x.parts[0][0] == "rest" and x.parts[0][1] == x.path:
                        continue
                    st.heap[oid] = st.heap[oid].with_attr(k, self.mk(st, x.path, x.ty, x.nullable))
                    res = True
        return res

    def mk_carried(self, s, st, n, o, node):
        """The value a local received in a previous iteration."""
        t = S("carried", (n, getattr(node, "lineno", 0)))
        if o.kind == "obj":
            return self.mk(s, t, ("cls", o.cls)) if isinstance(o.cls, ClassInfo) else t
        ty = o.ty if isinstance(o.ty, tuple) else (o.kind, None) if o.kind != "dict" else ("dict", None, None)
        return self.mk(s, t, ty)

    def carried(self, st, normals, node):
        """Objects whose known content at the entry of a loop does not hold at
        a generic iteration because the body changes it: {oid: havocked}."""
        hv = {}
        for b, _ in normals:
            for oid, o in b.heap.items():
                e = st.heap.get(oid)
                if e is None or e is o or e == o or oid in self.accs:
                    continue
                if e.kind in ("list", "dict", "set"):
                    if oid in hv or e.parts == o.parts or any(p[0] == "rest" for p in e.parts):
                        continue
                    ty = e.ty if isinstance(e.ty, tuple) else None
                    hv[oid] = e.replace(parts=e.parts + (("rest", S("accum", (getattr(node, "lineno", 0), oid), ty)),))
                elif e.kind == "obj":
                    h = hv.get(oid, e)
                    for k, v in o.attrs:
                        cur = e.get(k)
                        if cur is None or cur == v or isinstance(cur, (R, Tup)) or isinstance(v, R):
                            continue
                        if isinstance(cur, S) and cur.op == "phi":
                            continue
                        ty = cur.ty if isinstance(cur, S) else None
                        if isinstance(cur, K) and cur.v is not None:
                            ty = (type(cur.v).__name__,)
                        h = h.with_attr(k, S("phi", (k, getattr(node, "lineno", 0), self.snap(st, cur)), ty))
                    if h is not e:
                        hv[oid] = h
        return hv

    def havoc(self, st, names, node):
        """Loop-carried locals lose their value at a generic iteration."""
        fr = st.frames[self.fid]
        for n in names:
            if n in fr:
                old = fr[n]
                if isinstance(old, R):
                    continue
                fr[n] = S("phi", (n, getattr(node, "lineno", 0), self.snap(st, old)), old.ty if isinstance(old, S) else (None if not isinstance(old, K) else None))

    def finish_loop(self, st, src, base_len, normals, exits, node, kind, names, target=None, hv=None):
        alts = []
        for b, f0 in normals:
            delta = tuple((k, v) for k, v in b.facts.items() if f0.get(k) != v)
            alts.append((delta, b.trace[base_len:]))
        out = []
        fin = []
        where = self.where(node)
        full = tuple(_uniq(alts))
        # completion
        if normals or True:
            s = st  # reuse entry state as the completed state
            entry_heap = dict(st.heap)
            base_trace = st.trace
            if full or normals:
                s.trace = s.trace + (LoopEv(src, full, kind, where),)
            else:
                # the body never completes normally: completion means no element
                atom = S("truth", (src,))
                s.trace = s.trace + (Ev("assume", (atom, False), where),)
                s.facts[atom] = False
            self.merge_heap(s, entry_heap, normals, src, node, hv or {})
            self.merge_locals(s, normals, names, src, node)
            # facts that hold after every iteration about loop invariants are
            # not kept: only entry facts survive
            out.append(s)
        for b, ctl, f0 in exits:
            sub = b.trace[base_len:]
            pre = base_trace
            if full:
                pre = pre + (LoopEv(src, full, kind, where, True),)
            b.trace = pre + (Ev("iter", (src,), where),) + sub
            if full:
                self.before_exit(st, entry_heap, hv or {}, b)
            fin.append((b, ctl))
        return out, fin

    def before_exit(self, s, entry, hv, b):
        """What the iterations before the one that leaves the loop have added
        to containers."""
        for oid, e in entry.items():
            if e.kind not in ("list", "set", "dict"):
                continue
            full = s.heap.get(oid)
            if full is None or full is e or full.parts == e.parts or full.parts[: len(e.parts)] != e.parts:
                continue
            he = hv.get(oid, e)
            o = b.heap.get(oid, he)
            if o.parts[: len(he.parts)] == he.parts:
                b.heap[oid] = o.replace(parts=full.parts + o.parts[len(he.parts) :])
                for q in full.parts[len(e.parts) :]:
                    self._import_parts(s, b, q)

    def _import_parts(self, s, b, q):
        if isinstance(q, R):
            if q.oid not in b.heap and q.oid in s.heap:
                b.heap[q.oid] = s.heap[q.oid]
                o = s.heap[q.oid]
                for x in list(o.parts) + [v for _, v in o.attrs]:
                    self._import_parts(s, b, x)
        elif isinstance(q, Tup):
            for x in q.items:
                self._import_parts(s, b, x)
        elif isinstance(q, tuple):
            for x in q:
                self._import_parts(s, b, x)

    def merge_locals(self, s, normals, names, src, node):
        fr = s.frames[self.fid]
        for n in names:
            vals = []
            if n in fr:
                vals.append(fr[n])
            bound_in_all = True
            for b, _ in normals:
                v = b.frames[self.fid].get(n)
                if v is None:
                    bound_in_all = False
                elif v not in vals:
                    vals.append(v)
            if not vals:
                continue
            # make sure objects created in the body are visible
            for b, _ in normals:
                for v in vals:
                    self.import_obj(s, b, v)
            if len(vals) == 1:
                fr[n] = vals[0]
                continue
            ty = None
            for v in vals:
                if isinstance(v, R) and s.heap[v.oid].kind == "obj" and isinstance(s.heap[v.oid].cls, ClassInfo):
                    ty = ty or ("cls", s.heap[v.oid].cls)
                elif isinstance(v, S) and v.ty:
                    ty = ty or v.ty
            nullable = any(isinstance(v, K) and v.v is None for v in vals)
            term = S("phi", (n, getattr(node, "lineno", 0)) + tuple(self.snap(s, v) for v in vals))
            if ty is not None and ty[0] == "cls" and not any(isinstance(v, K) and v.v is not None for v in vals):
                fr[n] = self.mk(s, term, ("opt", ty) if nullable else ty)
            else:
                fr[n] = S(term.op, term.args, ty if not nullable else (("opt", ty) if ty and ty[0] != "opt" else ty))
        # objects created by the body and referenced from merged containers
        for b, _ in normals:
            for oid, o in b.heap.items():
                if oid not in s.heap:
                    s.heap[oid] = o
            for k, v in b.memo.items():
                if k not in s.memo:
                    s.memo[k] = v

    def import_obj(self, s, b, v):
        if isinstance(v, R) and v.oid not in s.heap and v.oid in b.heap:
            s.heap[v.oid] = b.heap[v.oid]

    def merge_heap(self, s, entry, normals, src, node, hv):
        changed = {}
        for b, f0 in normals:
            for oid, o in b.heap.items():
                if oid in entry and entry[oid] is not o and hv.get(oid, entry[oid]) != o:
                    changed.setdefault(oid, []).append((b, f0))
        fresh = {}
        for b, f0 in normals:
            for oid, o in b.heap.items():
                if oid not in s.heap or oid in fresh:
                    vs = fresh.setdefault(oid, [])
                    if all(x != o for x, _ in vs):
                        vs.append((o, b))
                    s.heap[oid] = vs[0][0]
            for k, v in b.memo.items():
                s.memo.setdefault(k, v)
        for oid, vs in fresh.items():
            if len(vs) > 1:
                s.heap[oid] = self.merge_fresh(s, vs, normals, node)
        for oid in changed:
            e = entry[oid]
            if e.kind in ("list", "set", "dict"):
                alts = []
                ok = True
                he = hv.get(oid, e)
                for b, f0 in normals:
                    o = b.heap.get(oid, he)
                    if o.parts[: len(he.parts)] != he.parts or o.deleted != e.deleted:
                        ok = False
                        break
                    added = o.parts[len(he.parts) :]
                    delta = tuple((k, v) for k, v in b.facts.items() if f0.get(k) != v)
                    alts.append((delta, added))
                if ok:
                    s.heap[oid] = e.replace(parts=e.parts + (("each", src, tuple(_uniq(alts))),))
                else:
                    deps = tuple(
                        self.snap_part(b, p)
                        for b, _ in normals
                        for p in b.heap.get(oid, e).parts
                    )
                    dels = e.deleted
                    for b, _ in normals:
                        for d in b.heap.get(oid, e).deleted:
                            if d not in dels:
                                dels = dels + (d,)
                    # deletions of loop keys only: keep the rest of the container
                    same = all(b.heap.get(oid, he).parts == he.parts for b, _ in normals)
                    if same:
                        s.heap[oid] = e.replace(deleted=dels)
                    else:
                        s.heap[oid] = e.replace(
                            parts=(("rest", S("looped", (src,) + tuple(S("part", p) if isinstance(p, tuple) else p for p in deps), e.ty)),)
                        )
            else:
                o2 = e
                names = []
                for b, _ in normals:
                    for k, v in b.heap.get(oid, e).attrs:
                        if k not in names:
                            names.append(k)
                for n in names:
                    vals = []
                    ev = e.get(n)
                    if ev is not None:
                        vals.append(ev)
                    for b, _ in normals:
                        v = b.heap.get(oid, e).get(n)
                        if v is not None and v not in vals:
                            vals.append(v)
                    if e.lazy and ev is None and e.path is not None:
                        init = S("attr", (e.path, n))
                        # the element of the loop is always iterated over
                        per_iter = any(t == S("elem", (src,)) or t == S("val", (src,)) for t in _terms(e.path)) or _loop_elem(e.path, src)
                        if (not per_iter or any(b.heap.get(oid, e).get(n) is None for b, _ in normals)) and not any(
                            self.snap(s, v) == init for v in vals
                        ):
                            vals.append(init)
                    if len({self.snap(s, v) for v in vals}) == 1:
                        o2 = o2.with_attr(n, vals[0])
                    else:
                        o2 = o2.with_attr(
                            n, S("phi", (n, getattr(node, "lineno", 0)) + tuple(self.snap(s, v) for v in vals))
                        )
                s.heap[oid] = o2

    def merge_fresh(self, s, vs, normals, node):
        """Join the versions of an object created inside a loop body."""
        e = vs[0][0]
        if e.kind == "obj":
            names = []
            for o, _ in vs:
                for k, _v in o.attrs:
                    if k not in names:
                        names.append(k)
            o2 = e
            for n in names:
                vals = []
                for o, b in vs:
                    v = o.get(n)
                    if v is None and o.lazy and o.path is not None:
                        v = S("attr", (o.path, n))
                    if v is not None and v not in vals:
                        vals.append(v)
                for v in vals:
                    for _, b in vs:
                        self.import_obj(s, b, v)
                if len({self.snap(s, v) for v in vals}) == 1:
                    o2 = o2.with_attr(n, vals[0])
                else:
                    o2 = o2.with_attr(n, S("phi", (n, getattr(node, "lineno", 0)) + tuple(self.snap(s, v) for v in vals)))
            return o2
        k = 0
        while all(len(o.parts) > k for o, _ in vs) and all(o.parts[k] == e.parts[k] for o, _ in vs):
            k += 1
        alts = tuple(_uniq([((), o.parts[k:]) for o, _ in vs]))
        dels = tuple(d for d in e.deleted if all(d in o.deleted for o, _ in vs))
        return e.replace(parts=e.parts[:k] + (("each", S("alt", ()), alts),), deleted=dels)

    def unrolled(self, s, st):
        """A while loop whose condition is decided at every iteration; None
        when it is not."""
        np = len(self.partials)
        work, done, steps = [st.fork()], [], 0
        while work:
            cur = work.pop()
            steps += 1
            if steps > 80:
                del self.partials[np:]
                return None
            branches = []
            for b, v in self.ev(s.test, cur):
                if b.exc is not None:
                    branches.append((b, None))
                else:
                    branches.extend(self.truth(b, v, s))
            if len(branches) != 1:
                del self.partials[np:]
                return None
            b, t = branches[0]
            if t is None:
                done.append((b, None))
            elif not t:
                done.extend(self.ex_block(s.orelse, b) if s.orelse else [(b, None)])
            else:
                for b2, ctl in self.ex_block(s.body, b):
                    if b2.exc is not None or (ctl is not None and ctl[0] not in ("continue", "break")):
                        done.append((b2, ctl))
                    elif ctl is not None and ctl[0] == "break":
                        done.append((b2, None))
                    else:
                        work.append(b2)
        return done

    def ex_While(self, s, st):
        if self.unroll > 1:
            r = self.unrolled(s, st)
            if r is not None:
                return r
        names = assigned_names(s.body) | assigned_names([s.test])
        loopid = S("while", (getattr(s, "lineno", 0), self.stack[-1].qual))
        entry_heap = dict(st.heap)
        # which heap attributes does the body change?  First pass to find out.
        base_len = len(st.trace)
        outs = []

        def one_pass(state):
            b = state.fork()
            self.havoc(b, names, s)
            f0 = dict(b.facts)
            normals, exits, falses = [], [], []
            for b2, v in self.ev(s.test, b):
                if b2.exc is not None:
                    exits.append((b2, None, f0))
                    continue
                for b3, t in self.truth(b2, v, s):
                    if not t:
                        falses.append(b3)
                        continue
                    for b4, ctl in self.ex_block(s.body, b3):
                        if b4.exc is not None:
                            exits.append((b4, None, f0))
                        elif ctl is None or ctl[0] == "continue":
                            normals.append((b4, f0))
                        elif ctl[0] == "break":
                            exits.append((b4, ("broke",), f0))
                        else:
                            exits.append((b4, ctl, f0))
            return normals, exits, falses

        probe = st.fork()
        save_oid = self.next_oid
        np = len(self.partials)
        normals, exits, falses = one_pass(probe)
        if self.touched(st, normals):
            entry_heap = dict(st.heap)
            del self.partials[np:]
            normals, exits, falses = one_pass(st.fork())
        # havoc heap attributes changed by the body before the real pass
        hv = st
        for b, f0 in normals:
            for oid, o in b.heap.items():
                if oid in entry_heap and entry_heap[oid] != o and o.kind == "obj":
                    e = hv.heap[oid]
                    for k, v in o.attrs:
                        if entry_heap[oid].get(k) != v:
                            cur = e.get(k)
                            if cur is None and e.lazy:
                                continue
                            if isinstance(cur, R):
                                continue
                            e = e.with_attr(k, S("phi", (k, getattr(s, "lineno", 0), self.snap(hv, cur) if cur is not None else NONE), cur.ty if isinstance(cur, S) else None))
                    hv.heap[oid] = e
        del self.partials[np:]
        # invalidate facts about container emptiness / havoc'd things is not
        # needed: facts are keyed on immutable snapshots
        hvm = {oid: o for oid, o in self.carried(hv, normals, s).items() if o.kind != "obj"}
        base = hv
        if hvm:
            base = hv.fork()
            base.heap.update(hvm)
        normals, exits, _ = one_pass(base)
        post, fin = self.finish_loop(hv, loopid, base_len, normals, exits, s, "while", names, None, hvm)
        for p in post:
            # leave through a false condition
            b = p
            for b2, v in self.ev(s.test, b):
                if b2.exc is not None:
                    fin.append((b2, None))
                    continue
                for b3, t in self.truth(b2, v, s):
                    if t:
                        continue
                    if s.orelse:
                        fin.extend(self.ex_block(s.orelse, b3))
                    else:
                        fin.append((b3, None))
        for b, ctl in fin:
            outs.append((b, None if ctl == ("broke",) else ctl))
        return outs


def _flip(op):
    return {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    else:
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return ast.copy_location(n, t)


def _terms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, S):
            stack.extend(x.args)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)


BUILTIN_NAMES = {
    "list": set(dir(list)) | set(dir(collections.deque)) | set(dir(iter([]))) | {"send", "close", "throw"},
    "dict": set(dir(dict)) | set(dir(collections.OrderedDict)) | set(dir(collections.defaultdict)) | set(dir(collections.Counter)) | set(dir(collections.ChainMap)),
    "set": set(dir(set)) | set(dir(frozenset)),
}


def _loop_elem(path, src):
    """Is `path` an element (or part of one) of the iterated source?"""
    base = src
    while isinstance(base, S) and base.op in ("valuesof", "itemsof", "keysof", "enumerate", "list", "sorted", "reversed") and base.args:
        a = base.args[0]
        if isinstance(a, tuple) and len(a) > 1:
            a = a[1]
        base = a
    for t in _terms(path):
        if isinstance(t, S) and t.op in ("elem", "val", "key") and t.args and t.args[0] in (src, base):
            return True
    return False


def _uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def walk_scope(fn):
    """nodes of a function body, not entering nested functions"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


_EMPTY_ARGS = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None)


# ---------------------------------------------------------------- trace tools
def flat(trace, ctx=()):
    """Yield (event, loop context) for every event, entering loop summaries.
    loop context: tuple of (src, facts-of-alternative, kind)."""
    for e in trace:
        if isinstance(e, LoopEv):
            for facts, sub in e.alts:
                yield from flat(sub, ctx + ((e.src, facts, e.kind),))
        else:
            yield e, ctx
