"""Transfer functions for builtin containers, strings and library calls."""

from __future__ import annotations

import ast
import collections.abc

from .loader import ClassInfo
from . import absint as A
from . import chars
from .absint import BI, BM, Cl, Ex, Ev, Exc, Enm, FALSE, Fn, K, NONE, O, Pt, R, S, Super, TRUE, Tup

STR_PURE = {
    "lower", "upper", "strip", "lstrip", "rstrip", "capitalize", "title", "casefold", "swapcase",
    "removeprefix", "removesuffix", "replace", "format", "zfill", "ljust", "rjust", "center",
    "expandtabs", "translate", "as_posix", "hexdigest", "name",
}
STR_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower",
            "isidentifier", "isnumeric", "isdecimal"}


def _pos(args):
    return [a for a in args if not (isinstance(a, tuple) and len(a) == 2 and a[0] == "*")]


def _snaps(I, st, args):
    return tuple(I.snap(st, a[1]) if isinstance(a, tuple) else I.snap(st, a) for a in args)


def call_method(I, st, recv, name, args, kwargs, node):
    if isinstance(recv, S) and recv.ty is not None:
        m = I.mk(st, recv, recv.ty)
        if isinstance(m, R):
            recv = m
    if isinstance(recv, R):
        o = st.heap[recv.oid]
        if o.nullable and I.raise_mode and I.known(st, S("isnone", (I.snap(st, recv),))) is not False:
            if I.known(st, I.truth_term(st, recv)) is not True:
                I.partial(st, "AttributeError", f"method {name} of possibly None {I.snap(st, recv)!r}", node)
        if o.kind == "list":
            return list_method(I, st, recv, o, name, args, kwargs, node)
        if o.kind == "set":
            return set_method(I, st, recv, o, name, args, kwargs, node)
        if o.kind == "dict":
            return dict_method(I, st, recv, o, name, args, kwargs, node)
    if isinstance(recv, K) and isinstance(recv.v, (str, int)):
        return str_method(I, st, recv, name, args, kwargs, node)
    if isinstance(recv, K) and isinstance(recv.v, (chars.Match, chars.Regex)):
        r = regex_method(I, st, recv, name, _pos(args))
        if r is not NotImplemented:
            return r
    if isinstance(recv, Tup):
        if name in ("index", "count"):
            return [(st, S(name, (recv,) + _snaps(I, st, args), ("int",)))]
    if isinstance(recv, S):
        if I._isstr(recv) or name in STR_PURE or name in STR_BOOL or name in (
            "split", "rsplit", "partition", "rpartition", "splitlines", "join", "encode", "decode",
        ):
            return str_method(I, st, recv, name, args, kwargs, node)
        return opaque_method(I, st, recv, name, args, kwargs, node)
    return opaque_method(I, st, recv, name, args, kwargs, node)


def opaque_method(I, st, recv, name, args, kwargs, node):
    sr = I.snap(st, recv)
    if name in ("keys", "values", "items"):
        op = {"keys": "keysof", "values": "valuesof", "items": "itemsof"}[name]
        return [(st, S(op, (sr,), ("list", None)))]
    if name in ("copy",):
        return [(st, S("copy", (sr,), recv.ty if isinstance(recv, S) else None))]
    if name in ("append", "extend", "update", "add", "insert", "pop", "remove", "clear", "setdefault", "discard", "sort"):
        I.emit(st, "mut", sr, name, _snaps(I, st, args), None, *(args[:1] if args else ()), node=node)
    if name == "get":
        a = _pos(args)
        d = a[1] if len(a) > 1 else NONE
        return [(st, S("getitem", (sr, I.snap(st, a[0]) if a else NONE, I.snap(st, d))))]
    outs = []
    if I.files is not None and name in ("read", "read_text") and isinstance(sr, S):
        from .model import subterms
        hit = [I.files[x.v] for x in subterms(sr) if isinstance(x, K) and isinstance(x.v, str) and x.v in I.files]
        if len(hit) == 1:
            return [(st, K(hit[0]))]
    if name in ("read", "read_text", "readlines", "open", "iterdir"):
        for x in ("FileNotFoundError", "OSError", "UnicodeDecodeError"):
            sx = I.partial(st, x, f"{sr!r}.{name}()", node)
            if sx is not None:
                outs.append((sx, NONE))
    if name in ("groupdict",):
        return [(st, S("groupdict", (sr,), ("dict", ("str",), None)))]
    if name in ("group", "strftime", "isoformat"):
        return [(st, S(name, (sr,) + _snaps(I, st, args)))]
    a = _snaps(I, st, args)
    kw = tuple(sorted((k, I.snap(st, v)) for k, v in kwargs.items() if k != "**"))
    u = I.uid()
    I.emit(st, "opaque", S("attr", (sr, name)), a, kw, u, node=node)
    outs.insert(0, (st, S("mret", (sr, name, a, kw, u))))
    return outs


# ------------------------------------------------------------------- strings
def str_method(I, st, recv, name, args, kwargs, node):
    a = _pos(args)
    if isinstance(recv, K) and name == "join" and len(a) == 1 and isinstance(a[0], R) and I.unroll > 1:
        ps = I.parts_of(st, a[0])
        if all(p[0] == "item" and isinstance(p[1], K) and isinstance(p[1].v, str) for p in ps):
            return [(st, K(recv.v.join(p[1].v for p in ps)))]
    if isinstance(recv, K) and all(isinstance(x, K) for x in a) and (chars.soft(recv.v) or any(chars.soft(x.v) for x in a)):
        try:
            r = chars.method(recv.v, name, [x.v for x in a], {k: x for k, x in kwargs.items()})
            if isinstance(r, list):
                return [(st, I.new_list(st, [("item", K(x)) for x in r]))]
            if isinstance(r, tuple):
                return [(st, Tup(tuple(K(x) for x in r)))]
            return [(st, K(r))]
        except (chars.Unknown, TypeError):
            pass
    elif isinstance(recv, K) and all(isinstance(x, K) for x in a) and all(isinstance(x, K) for x in kwargs.values()) and "**" not in kwargs and len(a) == len(args):
        try:
            r = getattr(recv.v, name)(*[x.v for x in a], **{k: x.v for k, x in kwargs.items()})
            if isinstance(r, list):
                return [(st, I.new_list(st, [("item", K(x)) for x in r]))]
            if isinstance(r, tuple):
                return [(st, Tup(tuple(K(x) for x in r)))]
            return [(st, K(r))]
        except Exception:
            pass
    sr = I.snap(st, recv)
    sa = _snaps(I, st, args)
    if name in ("startswith", "endswith") and len(sa) == 1 and isinstance(sa[0], K) and isinstance(sa[0].v, str) and isinstance(sr, S) and sr.op == "fstr" and sr.args:
        # a text whose beginning (or end) is known
        end = sr.args[0] if name == "startswith" else sr.args[-1]
        if isinstance(end, K) and isinstance(end.v, str) and end.v:
            x, y = (end.v, sa[0].v) if name == "startswith" else (end.v[::-1], sa[0].v[::-1])
            if len(x) >= len(y) or not y.startswith(x):
                return [(st, K(x.startswith(y)))]
    if name in STR_BOOL:
        return [(st, S(name, (sr,) + sa, ("bool",)))]
    if name in ("split", "rsplit", "partition", "rpartition") and I.raise_mode and a and isinstance(a[0], K) and a[0].v == "":
        return I.fail(st, "ValueError", node)
    if name in ("split", "rsplit", "splitlines"):
        term = S(name, (sr,) + sa, ("list", ("str",)))
        if a and not isinstance(a[0], K) and I.raise_mode and I.known(st, S("truth", (sa[0],))) is not True:
            I.partial(st, "ValueError", f"split by possibly empty separator {sa[0]!r}", node)
        r = I.mk(st, term, ("list", ("str",)))
        # a split always yields at least one element
        if a and not (isinstance(a[0], K) and a[0].v is None):
            st.facts[S("truth", (term,))] = True
        return [(st, r)]
    if name in ("partition", "rpartition"):
        return [(st, Tup(tuple(S("at", (S(name, (sr,) + sa), K(i)), ("str",)) for i in range(3))))]
    if name == "join":
        if a and isinstance(recv, K):
            ps = I.parts_of(st, a[0])
            if all(p[0] == "item" for p in ps) and ps:
                items = []
                for i, p in enumerate(ps):
                    if i and recv.v != "":
                        items.append(recv)
                    items.append(p[1])
                v = items[0]
                for x in items[1:]:
                    v = I.binop(st, ast.Add(), v if I._isstr(v) else S("str", (I.snap(st, v),), ("str",)), x)
                return [(st, v)]
        return [(st, S("join", (sr,) + sa, ("str",)))]
    if name in ("index", "rindex"):
        sx = I.partial(st, "ValueError", f"{sr!r}.{name}", node)
        r = [(st, S(name, (sr,) + sa, ("int",)))]
        if sx is not None:
            r.append((sx, NONE))
        return r
    if name in ("find", "rfind", "count"):
        return [(st, S(name, (sr,) + sa, ("int",)))]
    if name in ("encode", "decode"):
        return [(st, S(name, (sr,) + sa))]
    return [(st, S(name, (sr,) + sa, ("str",)))]


# --------------------------------------------------------------------- lists
def list_method(I, st, r, o, name, args, kwargs, node):
    a = _pos(args)
    sn = I.snap(st, r)
    if name == "append":
        I.emit(st, "mut", sn, "append", (I.snap(st, a[0]),), r.oid, a[0], node=node)
        I.list_append(st, r, a[0])
        return [(st, NONE)]
    if name == "extend":
        I.emit(st, "mut", sn, "extend", (I.snap(st, a[0]),), r.oid, a[0], node=node)
        I.list_extend(st, r, a[0])
        return [(st, NONE)]
    if name == "insert":
        I.emit(st, "mut", sn, "insert", _snaps(I, st, a), r.oid, a[1], node=node)
        if isinstance(a[0], K) and a[0].v == 0:
            st.heap[r.oid] = o.replace(parts=(("item", a[1]),) + o.parts)
        else:
            st.heap[r.oid] = o.replace(parts=(("rest", S("inserted", (sn,) + _snaps(I, st, a), o.ty)),))
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.alloc(st, O(kind="list", parts=o.parts, ty=o.ty)))]
    if name == "clear":
        I.emit(st, "mut", sn, "clear", (), r.oid, node=node)
        st.heap[r.oid] = o.replace(parts=())
        return [(st, NONE)]
    if name == "reverse":
        I.emit(st, "mut", sn, "reverse", (), r.oid, node=node)
        if all(p[0] == "item" for p in o.parts):
            st.heap[r.oid] = o.replace(parts=tuple(reversed(o.parts)))
        else:
            st.heap[r.oid] = o.replace(parts=(("rest", S("reversed", (sn,), o.ty)),))
        return [(st, NONE)]
    if name == "sort":
        kw = tuple((k, I.snap(st, v)) for k, v in kwargs.items() if k != "**" and isinstance(v, K))
        I.emit(st, "mut", sn, "sort", kw, r.oid, node=node)
        key = kwargs.get("key")
        done = concrete_sort(I, st, o.parts, key, kwargs.get("reverse"), node)
        if done is not None:
            st.heap[r.oid] = o.replace(parts=done)
            return [(st, NONE)]
        if key is not None:
            el = I.element(st, ("rest", sn)) if isinstance(sn, S) else I.unknown()
            for s2, kv in I.call(st.fork(), key, [el], {}, node):
                kw = kw + (("keyfn", I.snap(s2, kv)),)
        st.heap[r.oid] = o.replace(parts=(("rest", S("sorted", (sn,) + kw, o.ty)),))
        return [(st, NONE)]
    if name == "pop":
        i = a[0] if a else K(-1)
        ps = o.parts
        outs = []
        if isinstance(i, K) and ps and all(p[0] == "item" for p in ps) and -len(ps) <= i.v < len(ps):
            idx = i.v if i.v >= 0 else len(ps) + i.v
            v = ps[idx][1]
            I.emit(st, "mut", sn, "pop", (i,), r.oid, node=node)
            st.heap[r.oid] = o.replace(parts=ps[:idx] + ps[idx + 1 :])
            return [(st, v)]
        if isinstance(i, K) and i.v == -1 and ps and ps[-1][0] == "item":
            I.emit(st, "mut", sn, "pop", (i,), r.oid, node=node)
            st.heap[r.oid] = o.replace(parts=ps[:-1])
            return [(st, ps[-1][1])]
        if isinstance(i, K) and i.v == 0 and ps and ps[0][0] == "item":
            I.emit(st, "mut", sn, "pop", (i,), r.oid, node=node)
            st.heap[r.oid] = o.replace(parts=ps[1:])
            return [(st, ps[0][1])]
        if not ps and not o.lazy and I.unroll > 1:
            return I.fail(st, "IndexError", node)
        if I.known(st, I.truth_term(st, r)) is not True:
            sx = I.partial(st, "IndexError", f"{sn!r}.pop()", node)
            if sx is not None:
                outs.append((sx, NONE))
        I.emit(st, "mut", sn, "pop", (I.snap(st, i),), r.oid, node=node)
        v = I.mk(st, S("at", (sn, I.snap(st, i))), I.elem_ty(o.ty))
        st.heap[r.oid] = o.replace(parts=(("rest", S("popped", (sn, I.snap(st, i)), o.ty)),))
        outs.insert(0, (st, v))
        return outs
    if name == "remove":
        I.emit(st, "mut", sn, "remove", _snaps(I, st, a), r.oid, node=node)
        sx = I.partial(st, "ValueError", f"{sn!r}.remove", node)
        st.heap[r.oid] = o.replace(parts=(("rest", S("removed", (sn,) + _snaps(I, st, a), o.ty)),))
        return [(st, NONE)] + ([(sx, NONE)] if sx is not None else [])
    if name in ("index", "count"):
        if name == "index":
            sx = I.partial(st, "ValueError", f"{sn!r}.index", node)
            return [(st, S(name, (sn,) + _snaps(I, st, a), ("int",)))] + ([(sx, NONE)] if sx is not None else [])
        return [(st, S(name, (sn,) + _snaps(I, st, a), ("int",)))]
    if name in STR_PURE or name in STR_BOOL:
        return [(st, S(name, (sn,) + _snaps(I, st, a)))]
    return opaque_method(I, st, S("attr", (sn, "self")), name, args, kwargs, node)


def set_method(I, st, r, o, name, args, kwargs, node):
    a = _pos(args)
    sn = I.snap(st, r)
    if name == "add":
        I.emit(st, "mut", sn, "add", _snaps(I, st, a), r.oid, a[0], node=node)
        if all(p[0] == "item" for p in o.parts) and I.is_in(st, a[0], o.parts) is True:
            return [(st, NONE)]
        I.list_append(st, r, a[0])
        return [(st, NONE)]
    if name in ("update",):
        for x in a:
            I.emit(st, "mut", sn, "update", (I.snap(st, x),), r.oid, x, node=node)
            I.list_extend(st, r, x)
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.alloc(st, O(kind="set", parts=o.parts, ty=o.ty)))]
    if name == "union":
        parts = o.parts
        for x in a:
            parts = parts + tuple(I.parts_of(st, x))
        return [(st, I.new_list(st, parts, "set"))]
    if name in ("issubset", "issuperset", "isdisjoint") and a:
        ps = I.set_op(st, "and_", r, a[0]) if name == "isdisjoint" else I.set_op(st, "sub", r, a[0]) if name == "issubset" else I.set_op(st, "sub", a[0], r)
        if ps is not None:
            return [(st, K(not ps))]
    if name in ("issubset", "issuperset"):
        x, y = (sn, I.snap(st, a[0])) if name == "issubset" else (I.snap(st, a[0]), sn)
        if isinstance(x, S) and x.op in ("set", "list") and not x.args:
            return [(st, TRUE)]
        return [(st, I._b(st, S("subset", (x, y), ("bool",))))]
    if name in ("difference", "intersection", "symmetric_difference") and len(a) == 1:
        ps = I.set_op(st, {"difference": "sub", "intersection": "and_"}.get(name, "xor"), r, a[0])
        if ps is not None:
            return [(st, I.new_list(st, ps, "set"))]
    if name in ("difference", "intersection", "symmetric_difference"):
        return [(st, I.new_list(st, (("rest", S("set" + name, (sn,) + _snaps(I, st, a), ("set", None))),), "set"))]
    if name in ("discard", "remove", "pop", "clear"):
        I.emit(st, "mut", sn, name, _snaps(I, st, a), r.oid, node=node)
        if name in ("discard", "remove") and all(p[0] == "item" for p in o.parts):
            got = [(p, I.is_in(st, a[0], (p,))) for p in o.parts]
            if all(k is not None for _, k in got) and (name == "discard" or any(k for _, k in got)):
                st.heap[r.oid] = o.replace(parts=tuple(p for p, k in got if not k))
                return [(st, NONE)]
        if name == "pop" and len(o.parts) == 1 and o.parts[0][0] == "item":
            st.heap[r.oid] = o.replace(parts=())
            return [(st, o.parts[0][1])]
        st.heap[r.oid] = o.replace(parts=(("rest", S("removed", (sn,) + _snaps(I, st, a), o.ty)),) if name != "clear" else ())
        return [(st, NONE if name != "pop" else I.unknown())]
    return opaque_method(I, st, S("attr", (sn, "self")), name, args, kwargs, node)


# --------------------------------------------------------------------- dicts
def dict_method(I, st, r, o, name, args, kwargs, node):
    a = _pos(args)
    sn = I.snap(st, r)
    if name in ("get", "pop"):
        has_default = len(a) > 1 or name == "get"
        d = a[1] if len(a) > 1 else NONE
        if name == "pop":
            I.emit(st, "mut", sn, "pop", (I.snap(st, a[0]),), r.oid, node=node)
        lk = I.dict_lookup(st, r, a[0])
        if lk[0] == "found":
            if name == "pop":
                I.dict_delete(st, r, a[0])
            return [(st, lk[1])]
        if lk[0] == "absent":
            if has_default:
                return [(st, d)]
            sx = I.partial(st, "KeyError", f"{sn!r}.pop({I.snap(st, a[0])!r})", node)
            if sx is not None:
                return [(sx, NONE)]
            st.exc = Exc("KeyError", NONE, I.where(node))
            return [(st, NONE)]
        if name == "get":
            table = I.dispatch(st, r, a[0], node)
            if table is not None:
                return [(s, d if v is None else v) for s, v in table]
        sk = I.snap(st, a[0])
        atom = S("in", (sk, sn))
        outs = []
        if not has_default:
            if I.known(st, atom) is not True:
                sx = I.partial(st, "KeyError", f"{sn!r}.pop({sk!r})", node)
                if sx is not None:
                    sx.facts[atom] = False
                    outs.append((sx, NONE))
            v = I.mk(st, S("at", (sn, sk)), I.val_ty(st, r))
            I.dict_delete(st, r, a[0])
            outs.insert(0, (st, v))
            return outs
        known = I.known(st, atom)
        vty = I.val_ty(st, r)
        if known is True:
            v = I.mk(st, S("at", (sn, sk)), vty)
        elif known is False:
            v = d
        else:
            dd = I.snap(st, d)
            v = S("getitem", (sn, sk, dd))
            ty = vty
            if isinstance(dd, K) and dd.v is None:
                ty = ("opt", vty) if vty and vty[0] != "opt" else vty
            # container default: same shape
            if isinstance(d, R) and ty is None:
                k = st.heap[d.oid].kind
                ty = ("dict", None, None) if k == "dict" else ((k, None) if k in ("list", "set") else None)
            if isinstance(d, K) and isinstance(d.v, str) and ty is None:
                ty = None
            v = I.mk(st, v, ty)
        if name == "pop":
            I.dict_delete(st, r, a[0])
        return [(st, v)]
    if name == "setdefault":
        d = a[1] if len(a) > 1 else NONE
        I.emit(st, "mut", sn, "setdefault", _snaps(I, st, a), r.oid, d, node=node)
        lk = I.dict_lookup(st, r, a[0])
        if lk[0] == "found":
            return [(st, lk[1])]
        if lk[0] == "absent":
            I.dict_set(st, r, a[0], d)
            return [(st, d)]
        sk = I.snap(st, a[0])
        dty = None
        if isinstance(d, R):
            k = st.heap[d.oid].kind
            dty = ("dict", None, None) if k == "dict" else ((k, None) if k in ("list", "set") else None)
        v = I.mk(st, S("getitem", (sn, sk, I.snap(st, d))), I.val_ty(st, r) or dty)
        return [(st, v)]
    if name == "update":
        for x in a:
            I.emit(st, "mut", sn, "update", (I.snap(st, x),), r.oid, x, node=node)
            I.dict_update(st, r, x)
        for k, v in kwargs.items():
            if k == "**":
                for x in v:
                    I.emit(st, "mut", sn, "update", (I.snap(st, x),), r.oid, x, node=node)
                    I.dict_update(st, r, x)
            else:
                I.emit(st, "mut", sn, "update", (Tup((K(k), I.snap(st, v))),), r.oid, v, node=node)
                I.dict_set(st, r, K(k), v)
        return [(st, NONE)]
    if name == "copy":
        return [(st, I.alloc(st, O(kind="dict", parts=o.parts, ty=o.ty, deleted=o.deleted, cls=o.cls)))]
    if name == "clear":
        I.emit(st, "mut", sn, "clear", (), r.oid, node=node)
        st.heap[r.oid] = o.replace(parts=(), deleted=())
        return [(st, NONE)]
    if name == "keys":
        if all(p[0] == "kv" for p in o.parts):
            return [(st, I.new_list(st, [("item", p[1]) for p in o.parts]))]
        return [(st, S("keysof", (sn,), ("list", ("str",))))]
    if name in ("values", "items"):
        if all(p[0] == "kv" for p in o.parts):
            return [(st, I.new_list(st, [("item", p[2] if name == "values" else Tup((p[1], p[2]))) for p in o.parts]))]
        vty = I.val_ty(st, r)
        if name == "values":
            return [(st, S("valuesof", (sn,), ("list", vty)))]
        kty = o.ty[1] if o.ty and o.ty[0] == "dict" else None
        parts = []
        # mixed: explicit pairs first, then one generic rest
        for p in o.parts:
            if p[0] == "kv":
                parts.append(("item", Tup((p[1], p[2]))))
            elif p[0] == "rest":
                parts.append(("rest", S("itemsof", (p[1],), ("list", ("tuple", kty, vty)))))
            else:
                alts = []
                for facts, ps in p[2]:
                    alts.append((facts, tuple(("item", Tup((q[1], q[2]))) if q[0] == "kv" else ("rest", S("itemsof", (q[1],), ("list", ("tuple", kty, vty)))) for q in ps)))
                parts.append(("each", p[1], tuple(alts)))
        return [(st, I.new_list(st, parts))]
    if name == "fromkeys":
        return [(st, I.unknown(ty=("dict", None, None)))]
    return opaque_method(I, st, S("attr", (sn, "self")), name, args, kwargs, node)


# ---------------------------------------------------------------- isinstance
_BT = {"str": "str", "int": "int", "bool": "bool", "float": "float", "dict": "dict", "list": "list", "tuple": "tuple", "set": "set"}


def isinstance_(I, st, v, c, node):
    cs = list(c.items) if isinstance(c, Tup) else [c]
    res = []
    for x in cs:
        t = None
        if isinstance(x, Cl):
            if isinstance(v, R):
                o = st.heap[v.oid]
                if o.kind == "obj" and isinstance(o.cls, ClassInfo):
                    if I.p.is_subclass(o.cls, x.ci) and not o.nullable:
                        t = True
                    elif not I.p.is_subclass(o.cls, x.ci) and not I.p.is_subclass(x.ci, o.cls) and not any(
                        s in I.p.subclasses.get(x.ci.full, []) for s in I.p.subclasses.get(o.cls.full, [])
                    ):
                        t = False
                    elif not I.p.is_subclass(o.cls, x.ci) and o.exact:
                        t = False
                elif o.kind != "obj":
                    t = False
            elif isinstance(v, (K, Tup)):
                t = False
            elif isinstance(v, Enm):
                t = I.p.is_subclass(v.cls, x.ci)
        elif isinstance(x, Ex):
            n = x.name.split(".")[-1]
            kind = _BT.get(n)
            if isinstance(v, K):
                tt = {"str": str, "int": int, "bool": bool, "float": float, "dict": dict, "list": list, "tuple": tuple, "set": set}.get(n)
                tt = tt or getattr(collections.abc, n, None)
                t = isinstance(v.v, tt) if tt else (False if v.v is None else None)
            elif isinstance(v, R) and st.heap[v.oid].kind != "obj":
                k = st.heap[v.oid].kind
                if kind:
                    t = k == kind
                elif n in ("Mapping", "MutableMapping"):
                    t = k == "dict"
                elif n in ("Sequence", "MutableSequence"):
                    t = k == "list"
                elif n in ("Iterable", "Collection"):
                    t = True
            elif isinstance(v, R):
                if kind:
                    t = False
            elif isinstance(v, Tup):
                t = n in ("tuple", "Sequence", "Iterable", "Collection")
            elif isinstance(v, (Fn, BM)):
                t = True if n in ("Callable", "object") else False if kind or n in ("Mapping", "MutableMapping", "Sequence", "MutableSequence", "Iterable", "Collection") else None
            elif isinstance(v, S) and (v.op in ("var", "fstr") or I.unroll > 1) and v.ty in (("str",), ("int",)):
                if kind:
                    t = True if kind == v.ty[0] else False if kind != "bool" or v.ty[0] == "str" else None
                elif n in ("Mapping", "MutableMapping"):
                    t = False
        res.append((x, t))
    if any(t is True for _, t in res):
        return [(st, TRUE)]
    if all(t is False for _, t in res):
        return [(st, FALSE)]
    names = tuple(sorted((x.ci.name if isinstance(x, Cl) else x.name.split(".")[-1] if isinstance(x, Ex) else repr(x)) for x, t in res if t is not False))
    return [(st, I._b(st, S("isinstance", (I.snap(st, v),) + names, ("bool",))))]


# ----------------------------------------------------------------- externals
def _as_kind(I, st, args, kind):
    if not args:
        return I.alloc(st, O(kind=kind))
    v = args[0]
    if kind == "dict":
        r = I.alloc(st, O(kind="dict"))
        I.dict_update(st, r, v)
        if isinstance(v, R):
            st.heap[r.oid] = st.heap[r.oid].replace(ty=st.heap[v.oid].ty)
        elif isinstance(v, S):
            st.heap[r.oid] = st.heap[r.oid].replace(ty=v.ty if v.ty and v.ty[0] == "dict" else None)
        return r
    parts = tuple(I.parts_of(st, v))
    ty = None
    if isinstance(v, R):
        ty = st.heap[v.oid].ty
    elif isinstance(v, S):
        ty = v.ty
    if ty and ty[0] == "opt":
        ty = ty[1]
    if ty and ty[0] in ("list", "set"):
        ty = (kind, ty[1])
    else:
        ty = None
    if kind == "set":
        parts = tuple(A._uniq(list(parts)))
    return I.alloc(st, O(kind=kind, parts=parts, ty=ty))


def call_ext(I, st, name, args, kwargs, node):
    n = name[9:] if name.startswith("builtins.") else name
    a = _pos(args)
    if n.startswith("virtual.") and "*." + n[8:] in I.summaries and a and isinstance(a[0], R):
        ci = st.heap[a[0].oid].cls
        m = I.p.find_method(ci, n[8:]) if isinstance(ci, ClassInfo) else None
        if m is not None:
            r = I.summaries["*." + n[8:]](I, st, m, list(args), dict(kwargs), node)
            if r is not NotImplemented:
                return r
    if n.startswith("super.") or n.startswith("virtual."):
        sa = _snaps(I, st, args)
        kw = tuple(sorted((k, I.snap(st, v)) for k, v in kwargs.items() if k != "**"))
        u = I.uid()
        I.emit(st, "opaque", K(n), sa, kw, u, node=node)
        ty = None
        if n.startswith("virtual.") and a and isinstance(a[0], R):
            ci = st.heap[a[0].oid].cls
            m = I.p.find_method(ci, n[8:]) if isinstance(ci, ClassInfo) else None
            if m is not None:
                ty = I.p.parse_type(m.module, m.node.returns)
                if n[8:] == "deepcopy":
                    ty = ("cls", ci)
        return [(st, I.mk(st, S("vcall", (n.split(".", 1)[1],) + sa + ((kw,) if kw else ())), ty))]
    h = _EXT.get(n) or _EXT.get(n.split(".")[-1] if n.split(".")[0] in ("copy", "functools", "itertools", "collections", "contextlib", "pathlib", "dataclasses", "json", "yaml") else n)
    if h is not None:
        r = h(I, st, args, kwargs, node)
        if r is not NotImplemented:
            return r
    bt = getattr(__import__("builtins"), n, None)
    if isinstance(bt, type) and issubclass(bt, BaseException):
        return [(st, S("ret", (Ex(name), _snaps(I, st, args), (), I.uid())))]
    if n in ("re.match", "re.search", "re.fullmatch", "re.compile") and I.unroll > 1 and all(isinstance(x, K) for x in args) and not kwargs:
        r = regex(n[3:], [x.v for x in args])
        if r is not NotImplemented:
            return [(st, K(r))]
    if n == "id" and len(a) == 1 and isinstance(a[0], (R, S)):
        # one number for each object
        key = I.snap(st, a[0]) if isinstance(a[0], S) or st.heap[a[0].oid].lazy else a[0].oid
        ids = I.__dict__.setdefault("ids", {})
        return [(st, K(7000000 + ids.setdefault(key, len(ids))))]
    if n in A.PURE_EXT or n.startswith(("re.", "hashlib.", "os.path.", "textwrap.", "string.", "html.", "math.")):
        kw = tuple(sorted((k, I.snap(st, v)) for k, v in kwargs.items() if k != "**"))
        ty = {"str": ("str",), "repr": ("str",), "len": ("int",), "int": ("int",), "re.sub": ("str",), "re.escape": ("str",)}.get(n)
        if n in ("re.match", "re.search", "re.fullmatch"):
            ty = ("opt", None)
        return [(st, S("pure", (n,) + _snaps(I, st, args) + ((kw,) if kw else ()), ty))]
    return I.opaque_call(st, Ex(name), args, kwargs, node)


def regex(name, a):
    """`re.NAME` applied to known arguments; NotImplemented when unknown."""
    flags = 0
    if not a or not isinstance(a[0], (str, chars.Regex)):
        return NotImplemented
    pattern = a[0]
    if isinstance(pattern, chars.Regex):
        pattern, flags = pattern.pattern, pattern.flags
    if chars.soft(pattern):
        return NotImplemented
    if name == "compile":
        return chars.Regex(pattern, a[1] if len(a) > 1 else flags)
    if len(a) < 2 or not isinstance(a[1], str):
        return NotImplemented
    try:
        return chars.match(pattern, a[1], name, a[2] if len(a) > 2 else flags)
    except (chars.Unknown, RecursionError):
        return NotImplemented


def regex_method(I, st, recv, name, args):
    a = [x.v for x in args if isinstance(x, K)]
    if len(a) != len(args):
        return NotImplemented
    m = recv.v
    if isinstance(m, chars.Regex):
        if name not in ("match", "search", "fullmatch") or len(a) != 1:
            return NotImplemented
        r = regex(name, [m, *a])
        return r if r is NotImplemented else [(st, K(r))]
    try:
        if name in ("group", "__getitem__"):
            if len(a) > 1:
                return [(st, Tup(tuple(K(m.one(g)) for g in a)))]
            return [(st, K(m.one(a[0] if a else 0)))]
        if name == "groups" and not a:
            return [(st, Tup(tuple(K(m.one(i)) for i in range(1, len(m.spans)))))]
        if name == "groupdict" and not a:
            r = I.alloc(st, A.O(kind="dict"))
            for n, i in m.names:
                I.dict_set(st, r, K(n), K(m.one(i)))
            return [(st, r)]
        if name in ("start", "end", "span"):
            sp = m.spans[m.number(a[0]) if a else 0]
            return [(st, Tup((K(sp[0]), K(sp[1]))) if name == "span" else K(sp[name == "end"]))]
    except (KeyError, IndexError):
        pass
    return NotImplemented


def x_len(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, K):
        try:
            return [(st, K(len(v.v)))]
        except TypeError:
            pass
    if isinstance(v, Tup):
        return [(st, K(len(v.items)))]
    if isinstance(v, R):
        o = st.heap[v.oid]
        if o.kind in ("list", "dict") and all(p[0] in ("item", "kv") for p in o.parts):
            return [(st, K(len(o.parts)))]
        if o.kind == "obj" and isinstance(o.cls, ClassInfo):
            m = I.p.find_method(o.cls, "__len__")
            if m:
                return I.call(st, BM(Fn(m), v), [], {}, node)
    return [(st, S("len", (I.snap(st, v),), ("int",)))]


def x_str(I, st, args, kwargs, node):
    if not args:
        return [(st, K(""))]
    v = args[0]
    if isinstance(v, K):
        return [(st, K(str(v.v)))]
    if I._isstr(v) and not (v.ty and v.ty[0] == "opt"):
        return [(st, v)]
    return [(st, S("str", (I.snap(st, v),), ("str",)))]


def x_int(I, st, args, kwargs, node):
    if args and isinstance(args[0], K) and not chars.soft(args[0].v):
        try:
            return [(st, K(int(args[0].v)))]
        except Exception as exc:
            if I.unroll > 1:
                return I.fail(st, type(exc).__name__, node)
    if args and isinstance(args[0], S) and args[0].ty == ("int",):
        return [(st, args[0])]
    outs = []
    sn = I.snap(st, args[0])
    sx = I.partial(st, "ValueError", f"int({sn!r})", node)
    if sx is not None:
        atom = S("isint", (sn,))
        sx.facts[atom] = False
        sx.trace = sx.trace + (Ev("assume", (atom, False), I.where(node)),)
        outs.append((sx, NONE))
    return [(st, S("int", _snaps(I, st, args), ("int",)))] + outs


def x_open(I, st, args, kwargs, node):
    sa = _snaps(I, st, args)
    kw = tuple(sorted((k, I.snap(st, v)) for k, v in kwargs.items() if k != "**"))
    I.emit(st, "open", sa, kw, node=node)
    outs = []
    if I.files is not None and sa and isinstance(sa[0], K):
        if sa[0].v in I.files:
            return [(st, S("file", sa + ((kw,) if kw else ())))]
        return I.fail(st, "FileNotFoundError", node)
    # a name with a NUL character is a ValueError
    for x in ("FileNotFoundError", "OSError", "UnicodeDecodeError") + (("ValueError",) if I.unroll > 1 else ()):
        if I.caught(x):
            sx = I.partial(st, x, f"open({sa!r})", node)
            outs.append((sx, NONE))
        else:
            I.partial(st, x, f"open({sa!r})", node)
    return [(st, S("file", sa + ((kw,) if kw else ())))] + outs


def x_isinstance(I, st, args, kwargs, node):
    return isinstance_(I, st, args[0], args[1], node)


def x_getattr(I, st, args, kwargs, node):
    a = args
    if len(a) >= 2 and isinstance(a[1], K) and isinstance(a[1].v, str):
        v = a[0]
        if isinstance(v, R) and st.heap[v.oid].kind == "obj" and len(a) == 3:
            o = st.heap[v.oid]
            ci = o.cls
            if o.get(a[1].v) is None and isinstance(ci, ClassInfo) and o.exact:
                if (
                    I.p.find_method(ci, a[1].v) is None
                    and I.p.find_class_attr(ci, a[1].v) is None
                    and a[1].v not in I.p.attr_types(ci)
                ):
                    return [(st, a[2])]
        return I.getattr(st, v, a[1].v, node)
    sa = _snaps(I, st, args)
    return [(st, S("getattr", sa))]


def x_setattr(I, st, args, kwargs, node):
    if isinstance(args[1], K) and isinstance(args[1].v, str):
        I.setattr(st, args[0], args[1].v, args[2], node)
    else:
        I.emit(st, "set", I.snap(st, args[0]), I.snap(st, args[1]), I.snap(st, args[2]), None, args[2], node=node)
    return [(st, NONE)]


def x_list(I, st, args, kwargs, node):
    return [(st, _as_kind(I, st, args, "list"))]


def x_tuple(I, st, args, kwargs, node):
    if not args:
        return [(st, Tup(()))]
    ps = I.parts_of(st, args[0])
    if all(p[0] == "item" for p in ps):
        return [(st, Tup(tuple(p[1] for p in ps)))]
    return [(st, _as_kind(I, st, args, "list"))]


def x_set(I, st, args, kwargs, node):
    return [(st, _as_kind(I, st, args, "set"))]


def x_dict(I, st, args, kwargs, node):
    r = _as_kind(I, st, _pos(args), "dict")
    for k, v in kwargs.items():
        if k == "**":
            for x in v:
                I.dict_update(st, r, x)
        else:
            I.dict_set(st, r, K(k), v)
    return [(st, r)]


def x_defaultdict(I, st, args, kwargs, node):
    # the factory is kept beside the entries
    factory = (("<factory>", args[0]),) if args and args[0] != NONE else ()
    r = I.alloc(st, O(kind="dict", cls="defaultdict", attrs=factory))
    if len(args) > 1:
        I.dict_update(st, r, args[1])
    return [(st, r)]


def _map_parts(I, st, v, f):
    """apply f(value) -> value on explicit parts, None when not possible"""
    out = []
    for p in I.parts_of(st, v):
        if p[0] != "item":
            return None
        out.append(("item", f(len(out), p[1])))
    return out


def x_enumerate(I, st, args, kwargs, node):
    start = args[1] if len(args) > 1 else kwargs.get("start", K(0))
    if isinstance(start, K) and isinstance(start.v, int):
        ps = _map_parts(I, st, args[0], lambda i, v: Tup((K(i + start.v), v)))
        if ps is not None:
            return [(st, I.new_list(st, ps))]
    sn = I.snap(st, args[0])
    extra = () if isinstance(start, K) and start.v == 0 else (I.snap(st, start),)
    ety = None
    if isinstance(sn, S):
        ety = I.elem_ty(sn.ty)
    return [(st, S("enumerate", (sn,) + extra, ("list", ("tuple", ("int",), ety))))]


def x_zip(I, st, args, kwargs, node):
    pss = [I.parts_of(st, x[1] if isinstance(x, tuple) else x) for x in args]
    if args and all(all(p[0] == "item" for p in ps) for ps in pss):
        return [(st, I.new_list(st, [("item", Tup(tuple(p[1] for p in row))) for row in zip(*pss)]))]
    return [(st, S("zip", _snaps(I, st, args), ("list", None)))]


def concrete_sort(I, st, ps, key, rev, node):
    """Parts in order when all the keys are known constants; None otherwise."""
    if ps is None or not all(q[0] == "item" for q in ps):
        return None
    if not (rev is None or isinstance(rev, K)):
        return None
    keys = []
    for q in ps:
        v = q[1]
        if key is not None and not (isinstance(key, K) and key.v is None):
            outs = I.call(st.fork(), key, [v], {}, node)
            if len(outs) != 1 or outs[0][0].exc is not None:
                return None
            v = outs[0][1]
        if isinstance(v, K):
            keys.append(v.v)
        elif isinstance(v, Tup) and all(isinstance(x, K) for x in v.items):
            keys.append(tuple(x.v for x in v.items))
        else:
            return None
    try:
        idx = sorted(range(len(ps)), key=lambda i: keys[i], reverse=bool(rev.v) if rev is not None else False)
    except TypeError:
        return None
    return tuple(ps[i] for i in idx)


def x_sorted(I, st, args, kwargs, node):
    ps = I.parts_of(st, args[0])
    sn = I.snap(st, args[0])
    rev = kwargs.get("reverse")
    key = kwargs.get("key")
    done = concrete_sort(I, st, ps, key, rev, node)
    if done is not None:
        ety = None
        if done and all(I._isstr(q[1]) for q in done):
            ety = ("str",)
        return [(st, I.alloc(st, O(kind="list", parts=done, ty=("list", ety))))]
    kw = ()
    if rev is not None:
        kw += (("reverse", I.snap(st, rev)),)
    if key is not None and not (isinstance(key, K) and key.v is None):
        el = I.element(st, ("rest", sn)) if isinstance(sn, S) else I.unknown()
        for s2, kv in I.call(st.fork(), key, [el], {}, node):
            kw += (("keyfn", I.snap(s2, kv)),)
    ty = sn.ty if isinstance(sn, S) else None
    if ty and ty[0] == "opt":
        ty = ty[1]
    if isinstance(sn, S) and sn.op == "keysof":
        ty = ("list", ("str",))
    ety = I.elem_ty(ty)
    if ety is None:
        for p in ps:
            if p[0] == "item" and I._isstr(p[1]):
                ety = ("str",)
    return [(st, I.alloc(st, O(kind="list", parts=(("rest", S("sorted", (sn,) + kw, ("list", ety))),), ty=("list", ety))))]


def x_reversed(I, st, args, kwargs, node):
    ps = I.parts_of(st, args[0])
    if all(p[0] == "item" for p in ps):
        return [(st, I.new_list(st, tuple(reversed(ps))))]
    sn = I.snap(st, args[0])
    ty = sn.ty if isinstance(sn, S) else None
    return [(st, S("reversed", (sn,), ty if ty and ty[0] in ("list",) else ("list", None)))]


def x_map(I, st, args, kwargs, node):
    """map(f, xs): the loop appending f(x)."""
    acc = I.alloc(st, O(kind="list"))
    f = args[0]
    if len(args) != 2:
        return [(st, S("map", _snaps(I, st, args), ("list", None)))]
    fid = I.new_frame(st, {}, I.fid)
    saved = I.fid
    I.fid = fid
    tgt = ast.copy_location(ast.Name(id="<mapx>", ctx=ast.Store()), node)

    def body(s):
        res = []
        for s2, v in I.call(s, f, [s.frames[fid]["<mapx>"]], {}, node):
            if s2.exc is None:
                I.list_append(s2, acc, v)
            res.append((s2, None))
        return res

    try:
        outs = I.run_for(st, tgt, args[1], body, node, names={"<mapx>"})
    finally:
        I.fid = saved
    return [(s, acc) for s, _ in outs]


def x_filter(I, st, args, kwargs, node):
    acc = I.alloc(st, O(kind="list"))
    f = args[0]
    fid = I.new_frame(st, {}, I.fid)
    saved = I.fid
    I.fid = fid
    tgt = ast.copy_location(ast.Name(id="<mapx>", ctx=ast.Store()), node)

    def body(s):
        res = []
        x = s.frames[fid]["<mapx>"]
        rs = [(s, x)] if isinstance(f, K) and f.v is None else I.call(s, f, [x], {}, node)
        for s2, v in rs:
            if s2.exc is not None:
                res.append((s2, None))
                continue
            for s3, t in I.truth(s2, v, node):
                if t:
                    I.list_append(s3, acc, x)
                res.append((s3, None))
        return res

    try:
        outs = I.run_for(st, tgt, args[1], body, node, names={"<mapx>"})
    finally:
        I.fid = saved
    return [(s, acc) for s, _ in outs]


def _quant(which):
    """any / all over an iterable: the early exit loop"""

    def h(I, st, args, kwargs, node):
        v = args[0]
        ps = I.parts_of(st, v)
        want = which == "any"
        outs = []
        cur = [st]
        for p in ps:
            nxt = []
            for s in cur:
                if p[0] == "item":
                    for s2, t in I.truth(s, p[1], node):
                        if t == want:
                            outs.append((s2, K(want)))
                        else:
                            nxt.append(s2)
                elif p[0] == "each":
                    # generic element of each alternative
                    terms = []
                    for facts, qs in p[2]:
                        for q in qs:
                            if q[0] == "item":
                                t = I.truth_term(s, q[1])
                                terms.append((facts, t))
                    conj = tuple(terms)
                    const = [t.v for _, t in conj if isinstance(t, K)]
                    if conj and len(const) == len(conj):
                        if which == "all" and all(const) or which == "any" and not any(const):
                            nxt.append(s)
                            continue
                    atom = S("anyof" if want else "allof", (p[1], conj), ("bool",))
                    for s2, t in I.branch(s, atom, node):
                        if t == want:
                            outs.append((s2, K(want)))
                        else:
                            nxt.append(s2)
                else:
                    atom = S("anyof" if want else "allof", (p[1], ()), ("bool",))
                    for s2, t in I.branch(s, atom, node):
                        if t == want:
                            outs.append((s2, K(want)))
                        else:
                            nxt.append(s2)
            cur = nxt
        return outs + [(s, K(not want)) for s in cur]

    return h


def x_next(I, st, args, kwargs, node):
    ps = I.parts_of(st, args[0])
    if ps and ps[0][0] == "item":
        return [(st, ps[0][1])]
    if ps and ps[0][0] == "each":
        # first match of a generic search: the value of a matching iteration,
        # or the default / StopIteration
        outs = []
        for facts, qs in ps[0][2]:
            for q in qs:
                if q[0] == "item":
                    s2 = st.fork()
                    for f in facts:
                        s2.facts[f[0]] = f[1]
                    outs.append((s2, q[1]))
        if len(args) > 1:
            outs.append((st, args[1]))
        else:
            sx = I.partial(st, "StopIteration", "next()", node)
            if sx is not None:
                outs.append((sx, NONE))
        if outs:
            return outs
    if not ps:
        if len(args) > 1:
            return [(st, args[1])]
        if I.unroll > 1:
            return I.fail(st, "StopIteration", node)
    sn = I.snap(st, args[0])
    outs = []
    v = I.element(st, ps[0]) if ps and ps[0][0] == "rest" else S("elem", (sn,))
    if len(args) > 1:
        atom = S("truth", (sn,))
        for s2, t in I.branch(st, atom, node):
            outs.append((s2, v if t else args[1]))
        return outs
    if I.known(st, S("truth", (sn,))) is not True:
        sx = I.partial(st, "StopIteration", "next()", node)
        if sx is not None:
            outs.append((sx, NONE))
    return [(st, S("first", (sn,)) if not isinstance(v, R) else v)] + outs


def x_iter(I, st, args, kwargs, node):
    return [(st, args[0])]


def x_minmax(name):
    def h(I, st, args, kwargs, node):
        xs = args
        if len(args) == 1:
            ps = I.parts_of(st, args[0])
            xs = [p[1] for p in ps] if ps is not None and all(p[0] == "item" for p in ps) else None
        if xs and all(isinstance(x, K) and not chars.soft(x.v) for x in xs) and not kwargs:
            try:
                return [(st, K((min if name == "min" else max)(x.v for x in xs)))]
            except Exception:
                pass
        if xs and kwargs.get("key") is not None:
            # the first of the greatest (or smallest) items
            rev = K(True) if name == "max" else None
            done = concrete_sort(I, st, tuple(("item", x) for x in xs), kwargs["key"], rev, node)
            if done:
                return [(st, done[0][1])]
            return [(st, S(name, (*_snaps(I, st, xs), K("by key"))))]
        if xs:
            return [(st, S(name, tuple(sorted(A._uniq(_snaps(I, st, xs)), key=repr)), ("int",) if all((isinstance(x, S) and x.ty == ("int",)) or (isinstance(x, K) and isinstance(x.v, int)) for x in xs) else None))]
        return [(st, S(name, _snaps(I, st, args)))]

    return h


def x_sum(I, st, args, kwargs, node):
    return [(st, S("sum", _snaps(I, st, args)))]


def x_range(I, st, args, kwargs, node):
    if all(isinstance(x, K) and isinstance(x.v, int) for x in args):
        r = range(*[x.v for x in args])
        if len(r) <= A.MAX_UNROLL:
            return [(st, I.new_list(st, [("item", K(i)) for i in r]))]
    return [(st, S("range", _snaps(I, st, args), ("list", ("int",))))]


def x_type(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, R) and st.heap[v.oid].kind == "obj" and st.heap[v.oid].exact and isinstance(st.heap[v.oid].cls, ClassInfo):
        return [(st, Cl(st.heap[v.oid].cls))]
    return [(st, S("attr", (I.snap(st, v), "__class__")))]


def x_hasattr(I, st, args, kwargs, node):
    v, n = args[0], args[1]
    if isinstance(v, R) and isinstance(n, K):
        o = st.heap[v.oid]
        if o.kind == "obj" and isinstance(o.cls, ClassInfo):
            if I.unroll > 1 and not o.lazy and o.get(n.v) is None and not I.p.find_method(o.cls, n.v) and not I.p.find_class_attr(o.cls, n.v) and not I.p.find_method(o.cls, "__getattr__"):
                return [(st, FALSE)]
            if o.get(n.v) is not None or I.p.find_method(o.cls, n.v) or I.p.find_class_attr(o.cls, n.v) or n.v in I.p.attr_types(o.cls):
                return [(st, TRUE)]
            if o.exact:
                return [(st, FALSE)]
    return [(st, S("isinstance", (I.snap(st, v), "hasattr:" + repr(n)), ("bool",)))]


def x_callable(I, st, args, kwargs, node):
    if isinstance(args[0], (Fn, BM, Pt, BI, Cl, Ex)):
        return [(st, TRUE)]
    return [(st, S("isinstance", (I.snap(st, args[0]), "callable"), ("bool",)))]


def x_bool(I, st, args, kwargs, node):
    if not args:
        return [(st, FALSE)]
    t = I.truth_term(st, args[0])
    k = I.known(st, t)
    if k is not None:
        return [(st, K(k))]
    return [(st, S(t.op, t.args, ("bool",)) if isinstance(t, S) else t)]


def x_partial(I, st, args, kwargs, node):
    return [(st, Pt(args[0], tuple(args[1:]), tuple((k, v) for k, v in kwargs.items() if k != "**")))]


def x_noop(I, st, args, kwargs, node):
    return [(st, NONE)]


def x_copy(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, R):
        o = st.heap[v.oid]
        if o.kind == "obj" and isinstance(o.cls, ClassInfo):
            for m in ("__copy__",):
                fm = I.p.find_method(o.cls, m)
                if fm:
                    return I.call(st, BM(Fn(fm), v), [], {}, node)
            return [(st, I.alloc(st, o.replace(path=S("copy", (I.snap(st, v),)))))]
        return [(st, I.alloc(st, o.replace(path=None, lazy=False)))]
    return [(st, v)]


def x_deepcopy(I, st, args, kwargs, node):
    return _deep(I, st, args[0], 8)


def _deep(I, st, v, depth):
    if isinstance(v, (K, Enm, Cl, Fn, Ex)):
        return [(st, v)]
    if isinstance(v, R) and depth:
        o = st.heap[v.oid]
        if o.kind in ("list", "set", "dict"):
            def dp(p):
                if p[0] == "item":
                    return ("item", _deep(I, st, p[1], depth - 1)[0][1])
                if p[0] == "kv":
                    return ("kv", p[1], _deep(I, st, p[2], depth - 1)[0][1])
                if p[0] == "each":
                    return ("each", p[1], tuple((f, tuple(dp(q) for q in qs)) for f, qs in p[2]))
                return ("rest", S("deepcopy", (p[1],), p[1].ty if isinstance(p[1], S) else None))
            return [(st, I.alloc(st, O(kind=o.kind, parts=tuple(dp(p) for p in o.parts), ty=o.ty, cls=o.cls, deleted=o.deleted)))]
        if isinstance(o.cls, ClassInfo):
            term = S("deepcopy", (I.snap(st, v),))
            r = I.alloc(st, O(kind="obj", cls=o.cls, path=term, lazy=True, exact=o.exact))
            oo = st.heap[r.oid]
            for n, x in o.attrs:
                oo = oo.with_attr(n, _deep(I, st, x, depth - 1)[0][1])
            st.heap[r.oid] = oo
            return [(st, r)]
    if I.unroll > 1 and isinstance(v, S) and v.ty in (("str",), ("int",), ("bool",)):
        return [(st, v)]
    return [(st, S("deepcopy", (I.snap(st, v),), v.ty if isinstance(v, S) else None))]


def x_objnew(I, st, args, kwargs, node):
    c = args[0] if args else None
    if isinstance(c, Cl):
        r = I.alloc(st, O(kind="obj", cls=c.ci))
        I.emit(st, "new", c.ci.name, r.oid, node=node)
        return [(st, r)]
    return NotImplemented


def x_asdict(I, st, args, kwargs, node):
    v = args[0]
    if isinstance(v, R):
        o = st.heap[v.oid]
        if o.kind == "obj" and isinstance(o.cls, ClassInfo) and o.cls.is_dataclass:
            r = I.alloc(st, O(kind="dict"))
            for n in I.dataclass_fields(o.cls):
                outs = I.getattr(st, v, n, node)
                x = _deep(I, st, outs[0][1], 8)[0][1]
                I.dict_set(st, r, K(n), x)
            return [(st, r)]
    return NotImplemented


def x_suppress(I, st, args, kwargs, node):
    return [(st, S("suppress", tuple(x.ci if isinstance(x, Cl) else x.name.split(".")[-1] if isinstance(x, Ex) else "?" for x in args)))]


def x_chain(I, st, args, kwargs, node):
    parts = ()
    for x in args:
        if isinstance(x, tuple):
            return [(st, S("chain", _snaps(I, st, args), ("list", None)))]
        parts += tuple(I.parts_of(st, x))
    return [(st, I.new_list(st, parts))]


def groups(I, st, v, key, node):
    """groupby on a list of known items whose keys are known to be equal or
    not; None when they are not."""
    ps = I.parts_of(st, v)
    if any(p[0] != "item" for p in ps):
        return None
    probe = st.fork()
    out = []
    for p in ps:
        k = p[1]
        if key is not None:
            rs = I.call(probe, key, [p[1]], {}, node)
            if len(rs) != 1 or rs[0][0].exc is not None:
                return None
            probe, k = rs[0]
        if out:
            t = I.mkeq(probe, out[-1][0], k)
            t = t.v if isinstance(t, K) else I.known(probe, t)
            if t is None:
                return None
            if t:
                out[-1][1].append(p)
                continue
        out.append((k, [p]))
    return [(probe, I.new_list(probe, [("item", Tup((k, I.new_list(probe, qs)))) for k, qs in out]))]


def x_groupby(I, st, args, kwargs, node):
    if I.unroll > 1 and args:
        key = args[1] if len(args) > 1 else kwargs.get("key")
        r = groups(I, st, args[0], None if isinstance(key, K) else key, node)
        if r is not None:
            return r
    sn = I.snap(st, args[0])
    key = args[1] if len(args) > 1 else kwargs.get("key")
    kt = NONE
    if key is not None and isinstance(sn, S):
        el = I.element(st, ("rest", sn))
        r = I.call(st.fork(), key, [el], {}, node)
        kt = I.snap(r[0][0], r[0][1])
    ty = sn.ty if isinstance(sn, S) else None
    return [(st, S("groupby", (sn, kt), ("list", ("tuple", None, ("list", I.elem_ty(ty))))))]


def x_path(I, st, args, kwargs, node):
    sa = _snaps(I, st, args)
    return [(st, S("path", sa))]


def x_print(I, st, args, kwargs, node):
    I.emit(st, "print", _snaps(I, st, args), node=node)
    return [(st, NONE)]


def x_sysexit(I, st, args, kwargs, node):
    I.emit(st, "sysexit", _snaps(I, st, args), node=node)
    st.exc = Exc("SystemExit", args[0] if args else NONE, I.where(node))
    return [(st, NONE)]


def x_yamlload(I, st, args, kwargs, node):
    outs = []
    sx = I.partial(st, "YAMLError", "yaml load", node)
    if sx is not None:
        outs.append((sx, NONE))
    return [(st, S("yaml", _snaps(I, st, args)))] + outs


_EXT = {
    "len": x_len, "str": x_str, "int": x_int, "open": x_open, "isinstance": x_isinstance,
    "getattr": x_getattr, "setattr": x_setattr, "list": x_list, "tuple": x_tuple, "set": x_set,
    "frozenset": x_set, "dict": x_dict, "OrderedDict": x_dict, "defaultdict": x_defaultdict,
    "enumerate": x_enumerate, "zip": x_zip, "sorted": x_sorted, "reversed": x_reversed, "map": x_map,
    "filter": x_filter, "any": _quant("any"), "all": _quant("all"), "next": x_next, "iter": x_iter,
    "min": x_minmax("min"), "max": x_minmax("max"), "sum": x_sum, "range": x_range, "type": x_type,
    "hasattr": x_hasattr, "callable": x_callable, "bool": x_bool, "functools.partial": x_partial,
    "partial": x_partial, "print": x_print, "copy.copy": x_copy, "copy.deepcopy": x_deepcopy,
    "copy": x_copy, "deepcopy": x_deepcopy, "object.__init__": x_noop, "object.__new__": x_objnew,
    "dataclasses.asdict": x_asdict, "asdict": x_asdict, "suppress": x_suppress, "itertools.chain": x_chain,
    "itertools.chain.from_iterable": None, "groupby": x_groupby, "itertools.groupby": x_groupby,
    "pathlib.Path": x_path, "Path": x_path, "sys.exit": x_sysexit, "yaml.safe_load": x_yamlload, "safe_load": x_yamlload,
}
