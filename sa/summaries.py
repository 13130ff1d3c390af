"""Summaries of the package's own primitives.

They are used when a rule reasons about code *above* the primitive (a block
processor calls `get_token`); the primitives themselves are checked by the
rules about the tokens manager, the parser loop and the node classes (an
assume/guarantee split).
"""

from __future__ import annotations

from .absint import BM, Cl, Enm, Exc, Fn, K, NONE, O, R, S, State, Tup, FALSE, TRUE
from .loader import ClassInfo


def _tm_index(interp, st, tm):
    o = st.heap[tm.oid]
    v = o.get("index")
    if v is None:
        v = S("cur", (interp.snap(st, tm),), ("int",))
        st.heap[tm.oid] = o.with_attr("index", v)
    return v


def _bind(interp, st, fi, args, kwargs):
    return interp.bind(st, fi.node.args, args, kwargs, fi.qual, None, fi.module)


def token_cls(interp):
    return ("cls", interp.p.cls("Token"))


def _tok(interp, st, tm, idx):
    return interp.mk(st, S("tok", (interp.snap(st, idx),)), token_cls(interp))


def _fail(interp, st, node, what):
    s = st.fork()
    tok_err = interp.p.maybe_cls("TokenError") or "TokenError"
    s.exc = Exc(tok_err, S("tokenerror", ()), interp.where(node))
    interp.emit(s, "tokenfail", what, node=node)
    return s


def predicate(interp, st, tm, idx, fn):
    """Term of a test function applied to the value of the token."""
    s = st.fork()
    mode, interp.raise_mode = interp.raise_mode, False
    try:
        val = S("attr", (S("tok", (interp.snap(st, idx),)), "value"))
        outs = interp.call(s, fn, [val], {}, interp.curnode)
        if len(outs) == 1 and outs[0][0].exc is None:
            return interp.snap(outs[0][0], interp.truth_term(*outs[0]))
    finally:
        interp.raise_mode = mode
    return K(repr(type(fn).__name__) + str(getattr(getattr(fn, "info", None), "name", "")) + str(id(getattr(getattr(fn, "info", None), "node", None))))


def _check_key(interp, st, tm, idx, ttype, tvalue, fn):
    f = None if fn is None or fn == NONE else interp.snap(st, fn) if isinstance(fn, (S, R, K, Tup)) else predicate(interp, st, tm, idx, fn)
    tsn = (lambda v: None if v is None or v == NONE else interp.snap(st, v) if isinstance(v, (S, R, K, Tup)) else v)
    return S("tokis", (interp.snap(st, idx), tsn(ttype), tsn(tvalue), f))


def _decide(interp, st, key):
    """None unknown, True/False when the facts decide the token test."""
    _, (idx, ty, val, fn) = key.op, key.args
    if ty is None and val is None and fn is None:
        return True
    for k, v in st.facts.items():
        if isinstance(k, S) and k.op == "tokis" and k.args[0] == idx:
            if k == key:
                return v
            if v:
                # a positive test is known for this token
                kty, kval, kfn = k.args[1], k.args[2], k.args[3]
                if ty is not None and kty is not None and isinstance(ty, Enm) and isinstance(kty, Enm) and ty != kty:
                    return False
                if val is not None and kval is not None and isinstance(val, K) and isinstance(kval, K) and val != kval:
                    return False
                if (ty is None or ty == kty) and (val is None or val == kval) and fn is None:
                    return True
            else:
                # negative test on a weaker requirement
                kty, kval, kfn = k.args[1], k.args[2], k.args[3]
                if kfn is None and (kty is None or kty == ty) and (kval is None or kval == val):
                    return False
    # facts from `peek_token().type == T`
    tokt = S("tok", (idx,))
    for k, v in st.facts.items():
        if isinstance(k, S) and k.op == "eq" and len(k.args) == 2:
            a, b = k.args
            if isinstance(b, S) and b.op == "attr":
                a, b = b, a
            if isinstance(a, S) and a.op == "attr" and a.args[0] == tokt:
                want = ty if a.args[1] == "type" else val if a.args[1] == "value" else None
                if want is None:
                    continue
                if b == want:
                    if not v:
                        return False
                    if a.args[1] == "type" and val is None and fn is None:
                        return True
                elif v and type(b) is type(want):
                    return False
    return None


def _peeklike(advance):
    def summ(interp, st, fi, args, kwargs, node):
        env = _bind(interp, st, fi, args, kwargs)
        names = [a.arg for a in fi.node.args.args]
        tm = env[names[0]]
        if not isinstance(tm, R):
            return NotImplemented
        g = lambda i: env.get(names[i]) if len(names) > i else None
        idx = _tm_index(interp, st, tm)
        key = _check_key(interp, st, tm, idx, g(1), g(2), g(3))
        d = _decide(interp, st, key)
        outs = []
        if d is not True:
            s2 = _fail(interp, st, node, key)
            s2.facts[key] = False
            outs.append((s2, NONE))
        if d is not False:
            if d is None:
                st.facts[key] = True
            t = _tok(interp, st, tm, idx)
            interp.emit(st, "gettoken" if advance else "peektoken", key, node=node)
            if advance:
                st.heap[tm.oid] = st.heap[tm.oid].with_attr("index", S("next", (interp.snap(st, idx),), ("int",)))
            outs.insert(0, (st, t))
        return outs

    return summ


def peek_is(interp, st, fi, args, kwargs, node):
    env = _bind(interp, st, fi, args, kwargs)
    names = [a.arg for a in fi.node.args.args]
    tm = env[names[0]]
    if not isinstance(tm, R):
        return NotImplemented
    g = lambda i: env.get(names[i]) if len(names) > i else None
    idx = _tm_index(interp, st, tm)
    key = _check_key(interp, st, tm, idx, g(1), g(2), g(3))
    d = _decide(interp, st, key)
    if d is not None:
        return [(st, TRUE if d else FALSE)]
    s2 = st.fork()
    st.facts[key] = True
    s2.facts[key] = False
    interp.emit(st, "assume", key, True, node=node)
    interp.emit(s2, "assume", key, False, node=node)
    return [(st, TRUE), (s2, FALSE)]


def collect(interp, st, fi, args, kwargs, node):
    env = _bind(interp, st, fi, args, kwargs)
    names = [a.arg for a in fi.node.args.args]
    tm = env[names[0]]
    if not isinstance(tm, R):
        return NotImplemented
    idx = _tm_index(interp, st, tm)
    rest = tuple((n, interp.snap(st, env[n])) for n in names[1:] if not isinstance(env[n], tuple))
    u = interp.uid()
    interp.emit(st, "collect", fi.name, interp.snap(st, idx), rest, node=node)
    st.heap[tm.oid] = st.heap[tm.oid].with_attr("index", S("aftercollect", (interp.snap(st, idx), u), ("int",)))
    term = S("collected", (fi.name, interp.snap(st, idx), rest))
    if fi.name == "collect":
        return [(st, interp.mk(st, term, ("list", token_cls(interp))))]
    return [(st, interp.mk(st, term, token_cls(interp)))]


def with_tm(interp, st, cm, body, node):
    """`with self.tm`: swallow TokenError and restore the position."""
    idx = _tm_index(interp, st, cm)
    tok_err = interp.p.maybe_cls("TokenError") or "TokenError"
    interp.tries.append([tok_err])
    try:
        outs = body(st)
    finally:
        interp.tries.pop()
    res = []
    for s, ctl in outs:
        if s.exc is not None and interp.exc_matches(s.exc.cls, tok_err):
            s.exc = None
            ctl = None
            s.heap[cm.oid] = s.heap[cm.oid].with_attr("index", idx)
            interp.emit(s, "swallowed", "TokenError", node=node)
        res.append((s, ctl))
    return res


def lex_and_parse(interp, st, fi, args, kwargs, node):
    env = _bind(interp, st, fi, args, kwargs)
    names = [a.arg for a in fi.node.args.args]
    c = env[names[0]]
    if isinstance(c, R):
        c = Cl(st.heap[c.oid].cls)
    if not isinstance(c, Cl):
        return NotImplemented
    kwn = fi.node.args.kwarg.arg if fi.node.args.kwarg else None
    bound = []
    raw = {}
    for n, v in env.items():
        if n in (names[0], "<parent>", "<yield>"):
            continue
        if n == kwn:
            if isinstance(v, R):
                for p in st.heap[v.oid].parts:
                    if p[0] == "kv" and isinstance(p[1], K):
                        bound.append((p[1].v, interp.snap(st, p[2])))
                        raw[p[1].v] = p[2]
            continue
        bound.append((n, interp.snap(st, v)))
        raw[n] = v
    u = interp.uid()
    bound = tuple(sorted(bound, key=lambda x: x[0]))
    term = S("parsed", (c.ci.name, bound, u))
    interp.emit(st, "parse", c.ci.name, bound, u, tuple((k, v) for k, v in raw.items() if isinstance(v, (R, K, S, Tup))), node=node)
    r = interp.mk(st, term, ("cls", c.ci))
    if isinstance(r, R):
        st.heap[r.oid] = st.heap[r.oid].replace(exact=True)
    return [(st, r)]


def parsed_arguments(interp, st, fi, args, kwargs, node):
    """`ArgumentsParser.arguments` of an already parsed (opaque) parser."""
    v = args[0]
    if not isinstance(v, R) or not st.heap[v.oid].lazy:
        return NotImplemented
    ci = interp.p.cls("NodeArguments")
    term = S("attr", (interp.snap(st, v), fi.name))
    return [(st, interp.mk(st, S(term.op, term.args + (interp.uid(),)), ("cls", ci)))]


def opaque(name=None, ty=None):
    def summ(interp, st, fi, args, kwargs, node):
        pos = list(args)
        env = _bind(interp, st, fi, args, kwargs)
        bound = tuple((k, interp.snap(st, v)) for k, v in env.items() if k not in ("<parent>",) and not isinstance(v, tuple))
        u = interp.uid()
        interp.emit(st, "call", fi.qual, bound, u, node=node)
        t = ty
        if t is None:
            t = interp.p.parse_type(fi.module, fi.node.returns)
        return [(st, interp.mk(st, S("ret", (fi.qual, bound, u)), t))]

    return summ


def processed_text(interp, st, fi, args, kwargs, node):
    v = args[0]
    if not isinstance(v, R) or not st.heap[v.oid].lazy:
        return NotImplemented
    return [(st, interp.mk(st, S("attr", (interp.snap(st, v), "processed_text")), token_cls(interp)))]


def env_getitem(interp, st, fi, args, kwargs, node):
    env = _bind(interp, st, fi, args, kwargs)
    names = [a.arg for a in fi.node.args.args]
    e, k = env[names[0]], env[names[1]]
    outs = []
    ks = interp.snap(st, k)
    es = interp.snap(st, e)
    s2 = interp.partial(st, "KeyError", f"environment[{ks!r}]", node)
    if s2 is not None:
        outs.append((s2, NONE))
    outs.insert(0, (st, S("envvar", (es, ks))))
    return outs


def env_get(interp, st, fi, args, kwargs, node):
    env = _bind(interp, st, fi, args, kwargs)
    names = [a.arg for a in fi.node.args.args]
    e, k = env[names[0]], env[names[1]]
    d = env[names[2]] if len(names) > 2 else NONE
    interp.emit(st, "envget", interp.snap(st, e), interp.snap(st, k), interp.snap(st, d), node=node)
    if isinstance(d, R):
        o = st.heap[d.oid]
        if o.kind == "obj" and isinstance(o.cls, ClassInfo):
            return [(st, interp.mk(st, S("envget", (interp.snap(st, e), interp.snap(st, k))), ("cls", o.cls)))]
        ty = (o.kind, None) if o.kind != "dict" else ("dict", None, None)
        return [(st, interp.mk(st, S("envget", (interp.snap(st, e), interp.snap(st, k))), ty))]
    return [(st, S("envget", (interp.snap(st, e), interp.snap(st, k), interp.snap(st, d))))]


TM = {
    "TokensManager.get_token": _peeklike(True),
    "TokensManager.peek_token": _peeklike(False),
    "TokensManager.peek_token_is": peek_is,
    "TokensManager.collect": collect,
    "TokensManager.collect_join": collect,
    "with:TokensManager": with_tm,
}

PARSE = {
    "BaseParser.lex_and_parse": lex_and_parse,
    "ArgumentsParser.arguments": parsed_arguments,
    "PreprocessVariablesParser.get_processed_text": processed_text,
}

ENV = {
    "Environment.__getitem__": env_getitem,
    "Environment.get": env_get,
}
