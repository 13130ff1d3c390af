from .. import summaries as su
from ..absint import Cl, Enm, K, LoopEv, NONE, R, S, State, Tup
from ..model import Out, Processors, attr, call, depends, interp, run, short, subterms, var
from .common import alts, loop_events

PROPERTY = {
    "id": "P14",
    "title": "Failed attempts leave no trace, successful reads move by one token",
    "statement": "Reading a token tests it before moving: when the test fails TokenError is raised and the position is unchanged, otherwise the position moves by one and the token tested is returned, while peeking never moves. Leaving the context of the tokens manager with any error restores the position it had at the beginning, silences TokenError only and always unwinds its stack, while without errors the new position is kept; a processing function that fails or refuses has not changed the parser's position, buffers, managers or nodes. Collecting tokens takes, in order, all the tokens up to the first unescaped stop token or end of text, which is not consumed, drops nothing but the escape in front of a stop token, and joining concatenates their values.",
    "quantifier": {"over": ["inputs", "histories"], "text": "every position, every test of a token, every processing function and every way it can fail"},
    "why_tests_cant": "Tests try a few sequences of tokens; that an attempt is undone wherever it fails is a claim on all the paths of all the processing functions.",
    "anchors": {
        "files": ["mau/parsers/managers/tokens_manager.py", "mau/parsers/base_parser.py", "mau/parsers/document_parser.py"],
        "state": [{"name": "position", "meaning": "index of the last token consumed", "where": "mau/parsers/managers/tokens_manager.py TokensManager"}],
        "mechanism": [{"name": "backtracking", "where": "mau/parsers/managers/tokens_manager.py TokensManager.__exit__"}],
        "observe_at": ["TokensManager.index", "parser buffers"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the tokens manager on symbolic tokens, loop summary of the collection, effect analysis of every failing path of the processing functions"
LEVEL_NOTE = "The manager's primitives are analysed at every position of a list of three symbolic tokens (nothing else about the list is used); the processing functions are analysed from an arbitrary state. A list header is always followed by its text (a fact of the lexer). The inline parser is not covered by the effect analysis: text tried as a style and then read again registers its macros twice, which changes nothing in the output."
EXPLANATION = "For every outcome of the primitives the facts about the token say whether it must succeed; the final position, the value and the exception must agree. The collection loop is summarised and each of its alternatives must append the tokens it consumes. For each processing function every outcome that ends with TokenError, or that does not return True, must show no effect on objects that existed before."
ASSUMPTIONS = ["the list of tokens ends with EOF", "LIST tokens are followed by TEXT"]

ONLY = {k: v for k, v in su.TM.items() if "collect" in k or k.startswith("with")}
NTOK = 3


def check(ctx):
    primitives(ctx)
    context_manager(ctx)
    collecting(ctx)
    atomic(ctx)


# -------------------------------------------------------------- primitives
def bare(prog):
    return interp(prog, None, base={**su.PARSE, **su.ENV})


def manager(ip, st, prog, index):
    """A tokens manager on a list of symbolic tokens."""
    tm = ip.lazy_obj(st, "TokensManager", "tm")
    tk = ("cls", prog.cls("Token"))
    toks = ip.new_list(st, tuple(("item", ip.mk(st, var(f"t{i}"), tk)) for i in range(NTOK)))
    st.heap[tm.oid] = st.heap[tm.oid].with_attr("tokens", toks).with_attr("index", index)
    return tm


CASES = {
    "any": {},
    "type": {"ttype": True},
    "type+value": {"ttype": True, "tvalue": True},
    "value": {"tvalue": True},
    "function": {"value_check_function": True},
    "all": {"ttype": True, "tvalue": True, "value_check_function": True},
}
WANT = {"ttype": S("var", ("ttype",)), "tvalue": S("var", ("tvalue",)), "value_check_function": S("var", ("fn",))}


def verdicts(o, given, tok):
    """{argument: True/False/None} result of each test according to the facts"""
    res = {}
    for a in given:
        w = WANT[a]
        r = None
        for k, v in o.st.facts.items():
            if not isinstance(k, S):
                continue
            if a != "value_check_function" and k.op == "eq" and w in k.args and depends(k, tok):
                if attr(tok, "type" if a == "ttype" else "value") in k.args:
                    r = v
                else:
                    r = "?"
            elif a == "value_check_function":
                rets = [x for x in subterms(k) if isinstance(x, S) and x.op == "ret" and x.args[0] == w]
                if rets:
                    if not depends(rets[0], attr(tok, "value")):
                        r = "wrong"
                    elif k.op in ("eq", "is") and K(False) in k.args:
                        r = not v
                    elif k.op == "truth":
                        r = v
                    elif k.op in ("eq", "is") and K(True) in k.args:
                        r = v
                    else:
                        r = "?"
        res[a] = r
    return res


def primitives(ctx):
    prog = ctx.prog
    for meth in ("get_token", "peek_token", "peek_token_is"):
        fi = prog.method("TokensManager", meth)
        params = [a.arg for a in fi.node.args.args][1:]
        ctx.need("anchor", meth, set(WANT) <= set(params), f"parameters are {params}")
        for case, given in CASES.items():
            if meth == "peek_token_is" and "ttype" not in given:
                continue
            for index in range(-1, NTOK):
                ip = bare(prog)
                box = {}
                args = {a: (WANT[a] if a in given else NONE) for a in WANT}

                def setup(st, s, v):
                    box["tm"] = s

                st = State()
                tm = manager(ip, st, prog, K(index))
                for a in given:
                    st.facts[S("truth", (WANT[a],))] = True
                    st.facts[S("isnone", (WANT[a],))] = False
                outs = run(ip, fi, self_cls="TokensManager", args=args, state=st, self_val=tm)
                ctx.saw(ip)
                ctx.paths += len(outs)
                pos = min(index + 1, NTOK - 1)
                for o in outs:
                    one(ctx, o, tm, meth, given, case, index, var(f"t{pos}"))


def one(ctx, o, tm, meth, given, case, index, tok):
    where = o.exc_where if o.exc else o.where()
    end = o.get(tm, "index")
    v = verdicts(o, given, tok)
    wrong = [x for k in o.st.facts for x in subterms(k) if isinstance(x, S) and x.op == "var" and x.args[0] in [f"t{i}" for i in range(NTOK)] and x != tok]
    ctx.check("primitive", f"{meth}:tested token", not wrong and "wrong" not in v.values(), "another token is tested", where, o.path_text)
    failed = o.exc_name == "TokenError"
    if o.exc and not failed:
        ctx.check("primitive", f"{meth}:error", False, f"{o.exc_name} escapes", where, o.path_text)
        return
    if meth == "peek_token_is":
        ctx.check("primitive", f"{meth}:error", not failed, "TokenError escapes from a test", where, o.path_text)
        val = o.value
        failed = None if not isinstance(val, K) else val.v is not True
        if failed is None:
            ctx.check("primitive", f"{meth}:result", None, "")
            return
    unknown = [x for x in v.values() if x == "?"]
    if any(x is False for x in v.values()):
        ctx.check("primitive", f"{meth}:refuses", failed, f"a token that fails the test ({case}) is accepted", where, o.path_text)
    elif unknown:
        ctx.check("primitive", f"{meth}:refuses", None, "")
    elif all(x is True for x in v.values()):
        ctx.check("primitive", f"{meth}:accepts", not failed, f"a token that passes the tests ({case}) is refused", where, o.path_text)
    else:
        missing = [a for a, x in v.items() if x is None]
        ctx.check("primitive", f"{meth}:tests", failed, f"a token is accepted and {'/'.join(missing)} is not tested", where, o.path_text)
    if failed or meth != "get_token":
        ctx.check("primitive", f"{meth}:position", end == K(index), f"the position changes from {index} to {short(end)} {'although the test fails' if failed else 'and the token is only peeked'}", where, o.path_text)
    elif index < NTOK - 1:
        ctx.check("primitive", f"{meth}:position", end == K(index + 1), f"the position changes from {index} to {short(end)}", where, o.path_text)
    if not failed and meth != "peek_token_is":
        ctx.check("primitive", f"{meth}:value", o.snap(o.value) == tok, f"the token returned at position {index} is {short(o.snap(o.value))}", where, o.path_text)


# --------------------------------------------------------- context manager
def context_manager(ctx):
    prog = ctx.prog
    enter, leave = prog.method("TokensManager", "__enter__"), prog.method("TokensManager", "__exit__")
    ip = bare(prog)
    st = State()
    tm = ip.lazy_obj(st, "TokensManager", "tm")
    i0, i1 = S("var", ("i0",)), S("var", ("i1",))
    st.heap[tm.oid] = st.heap[tm.oid].with_attr("index", i0)
    before = {}
    for n, ty in prog.attr_types(prog.cls("TokensManager")).items():
        before[n] = attr(var("tm"), n)
    kinds = {"none": NONE, "TokenError": Cl(prog.cls("TokenError")), "MauException": Cl(prog.cls("MauException"))}
    for o in [Out(ip, s, v) for s, v in ip.call_function(enter, st, [], {}, tm)]:
        if o.exc:
            ctx.check("context", "enter", False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
            continue
        ctx.check("context", "enter", o.get(tm, "index") == i0, "entering the context moves the position", o.where(), o.path_text)
        for kind, et in kinds.items():
            s = o.st.fork()
            s.heap[tm.oid] = s.heap[tm.oid].with_attr("index", i1)
            ev = NONE if kind == "none" else S("var", ("error",))
            for p in [Out(ip, x, v) for x, v in ip.call_function(leave, s, [et, ev, ev], {}, tm)]:
                ctx.paths += 1
                if p.exc:
                    ctx.check("context", f"{kind}:error", False, f"{p.exc_name} escapes", p.exc_where, p.path_text)
                    continue
                end = p.get(tm, "index")
                want = i1 if kind == "none" else i0
                ctx.check("context", f"{kind}:position", end == want, f"after {'an error' if kind != 'none' else 'a success'} the position is {short(end)}", p.where(), p.path_text)
                val = p.value
                sup = val.v if isinstance(val, K) else None
                if kind != "none":
                    ok = None if not isinstance(val, K) else bool(sup) == (kind == "TokenError")
                    ctx.check("context", f"{kind}:silenced", ok, f"{kind} is {'silenced' if sup else 'not silenced'}", p.where(), p.path_text)
                for n in before:
                    if n in ("index", "tokens"):
                        continue
                    d = p.deep(p.get(tm, n), 3)
                    ok = d == before[n] or d == S("list", (("rest", before[n]),))
                    ctx.check("context", f"{kind}:{n}", ok or (None if depends(d, lambda x: isinstance(x, S) and x.op == "unknown") else False), f"{n} is {short(d)} after the context", p.where(), p.path_text)
    ctx.saw(ip)


# --------------------------------------------------------------- collection
def collecting(ctx):
    prog = ctx.prog
    base = {**su.PARSE, **su.ENV, **{k: v for k, v in su.TM.items() if "collect" not in k}}
    for meth in ("collect", "collect_join"):
        fi = prog.method("TokensManager", meth)
        ip = interp(prog, None, base=base)
        box = {}

        def setup(st, s, v):
            box["s"] = s

        outs = run(ip, fi, self_cls="TokensManager", self_path="tm", setup=setup)
        ctx.saw(ip)
        ctx.paths += len(outs)
        done = 0
        for o in outs:
            if o.exc:
                ctx.check("collect", f"{meth}:error", None if o.exc_name == "TokenError" else False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
                continue
            done += 1
            idx = o.snap(o.get(box["s"], "index"))
            stop = stop_fact(o.st.facts, idx)
            ctx.check("collect", f"{meth}:stop", None if stop is None and no_stop_shape(o, idx) else stop is True, "the collection may end at something that is not a stop token", o.where(), o.path_text)
            eof = end_of_text(o, idx)
            ctx.check("collect", f"{meth}:end", eof, "the collection does not stop at the end of the text", o.where(), o.path_text)
            loops = [e for e in loop_events(o) if any(x.kind == "gettoken" for _, tr in e.alts for x in flat_events(tr))]
            if not loops:
                ctx.check("collect", f"{meth}:taken", None, "")
            for l in loops:
                iteration(ctx, o, l, meth)
            if meth == "collect":
                acc(ctx, o, o.value, meth)
            else:
                joined(ctx, o)
        ctx.need("collect", meth, done > 0, "no outcome")


def flat_events(tr):
    for e in tr:
        if isinstance(e, LoopEv):
            for _, sub in e.alts:
                yield from flat_events(sub)
        else:
            yield e


GIVEN = S("var", ("stop_tokens",))


def stop_fact(facts, idx):
    for k, v in (facts.items() if isinstance(facts, dict) else facts):
        if isinstance(k, S) and k.op in ("in", "anyeq") and k.args[0] == S("tok", (idx,)) and depends(k.args[1], GIVEN):
            return v
    return None


def no_stop_shape(o, idx):
    return any(v and depends(k, S("tok", (idx,))) for k, v in o.st.facts.items())


def end_of_text(o, idx):
    """Is EOF among the stop tokens?"""
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "in" and k.args[0] == S("tok", (idx,)):
            for x in subterms(k.args[1]):
                if isinstance(x, S) and x.op == "new" and x.args[0] == "Token":
                    ob = o.st.heap.get(x.args[1]) if len(x.args) > 1 else None
                    ty = ob.get("type") if ob is not None else None
                    if isinstance(ty, Enm) and ty.name == "EOF" and o.snap(ob.get("value")) == K(""):
                        return True
            if any(isinstance(x, S) and x.op in ("phi", "unknown") for x in subterms(k.args[1])):
                return None
            return False
    return None


def is_escape(o, facts, idx):
    for k, v in facts:
        if isinstance(k, S) and v and depends(k, S("tok", (idx,))):
            if k.op == "eq":
                for x in k.args:
                    if x == K("\\"):
                        return True
                    if isinstance(x, S) and x.op == "new":
                        ob = o.st.heap.get(x.args[1]) if len(x.args) > 1 else None
                        if ob is not None and o.snap(ob.get("value")) == K("\\"):
                            return True
            if k.op == "tokis" and k.args[2] == K("\\"):
                return True
    return False


def iteration(ctx, o, l, meth):
    """Tokens consumed by each alternative of the loop."""
    for facts, tr in l.alts:
        f = list(facts.items() if isinstance(facts, dict) else facts)
        got = [e.data[0].args[0] for e in flat_events(tr) if e.kind == "gettoken"]
        if not got:
            continue
        first = got[0]
        sf = stop_fact(f, first)
        ctx.check("collect", f"{meth}:not stop", None if sf is None else not sf, "a stop token is consumed", None)


def acc(ctx, o, v, meth):
    """The list returned holds every token consumed."""
    ps = o.parts(v)
    if ps is None or len(ps) != 1 or ps[0][0] != "each":
        ctx.check("collect", f"{meth}:taken", None if ps is None else False if ps == () else None, "the tokens consumed are not returned", o.where(), o.path_text)
        return
    q = ps[0]
    for facts, sub in q[2]:
        fl = list(facts)
        # positions consumed in this iteration, from the items and the facts
        cur = first_index(fl)
        if cur is None:
            ctx.check("collect", f"{meth}:taken", None, "")
            continue
        items = [o.snap(x[1]) if x[0] == "item" else None for x in sub]
        consumed = consumed_in(o, fl)
        if consumed is None:
            ctx.check("collect", f"{meth}:taken", None, "")
            continue
        ctx.check("collect", f"{meth}:progress", len(consumed) > 0, "an iteration consumes nothing: the collection never ends", o.where(), o.path_text)
        want = [S("tok", (i,)) for i in consumed]
        if items == want:
            ctx.check("collect", f"{meth}:taken", True)
            continue
        # only an escape in front of a stop token may be dropped
        esc = len(want) == 2 and items == want[1:] and is_escape(o, fl, consumed[0]) and stop_fact(fl, consumed[1]) is True
        keep = S("truth", (S("var", ("preserve_escaped_stop_tokens",)),))
        kept = dict(fl).get(keep)
        ctx.check("collect", f"{meth}:taken", esc, f"the tokens {short(want)} are consumed and {short(items)} are returned", o.where(), o.path_text)
        ctx.check("collect", f"{meth}:preserve", kept is False or (None if any(depends(k, keep.args[0]) for k, _ in fl if kept is None) else False), "an escape is dropped although it must be preserved", o.where(), o.path_text)


def first_index(fl):
    for k, v in fl:
        if isinstance(k, S) and k.op == "in" and isinstance(k.args[0], S) and k.args[0].op == "tok":
            return k.args[0].args[0]
    return None


def consumed_in(o, fl):
    """Positions consumed by the iteration with these facts (from the loop
    events with the same facts)."""
    for l in loop_events(o):
        for facts, tr in l.alts:
            g = list(facts.items() if isinstance(facts, dict) else facts)
            if g == fl:
                return [e.data[0].args[0] for e in flat_events(tr) if e.kind == "gettoken"]
    return None


def joined(ctx, o):
    v = o.get(o.value, "value")
    t = o.deep(v, 5)
    if t == K(""):
        # nothing collected
        empty = any(isinstance(k, S) and k.op == "truth" and not x and depends(k, lambda y: isinstance(y, S) and y.op == "while") for k, x in o.st.facts.items())
        ctx.check("join", "empty", True if empty else False, "the text collected is lost", o.where(), o.path_text)
        return
    if not (isinstance(t, S) and t.op == "join"):
        ctx.check("join", "value", None if depends(t, lambda y: isinstance(y, S) and y.op == "while") else False, f"the text is {short(t)}", o.where(), o.path_text)
        return
    ctx.check("join", "separator", t.args[0] == S("var", ("join_with",)), f"tokens are joined with {short(t.args[0])}", o.where(), o.path_text)
    lst = t.args[1]
    ok = None
    if isinstance(lst, S) and lst.op == "list" and len(lst.args) == 1 and lst.args[0][0] == "each":
        ok = every_value(lst.args[0])
    elif depends(lst, lambda y: isinstance(y, S) and y.op in ("slice", "reversed", "sorted", "set")):
        ok = False
    ctx.check("join", "value", ok, f"the text is made of {short(lst)}", o.where(), o.path_text)


def every_value(q):
    res = True
    for facts, sub in q[2]:
        if not sub:
            # only empty values may be skipped
            val = lambda y: isinstance(y, S) and y.op == "attr" and y.args[1] == "value"
            ok = any((k.op == "eq" and v and K("") in k.args and any(val(y) for y in k.args)) or (k.op == "truth" and not v and val(k.args[0])) for k, v in facts if isinstance(k, S))
            res = res if ok else False
            continue
        for x in sub:
            if x[0] == "item" and isinstance(x[1], S) and x[1].op == "attr" and x[1].args[1] == "value":
                continue
            if x[0] == "each":
                if every_value(x) is not True:
                    res = None
                continue
            if x[0] == "item" and isinstance(x[1], S) and x[1].op in ("strip", "lower", "upper", "slice", "replace"):
                return False
            res = None
    return res


# ---------------------------------------------------------------- atomicity
def rooted(t):
    """Does the object with this identity belong to the parser (or anything it
    had before)?"""
    while isinstance(t, S):
        if t == S("var", ("parser",)):
            return True
        if t.op in ("new", "parsed", "ret", "tok", "const"):
            return False
        if t.op in ("list", "dict", "set"):
            return any(isinstance(q, tuple) and q[0] == "rest" and rooted(q[1]) for q in t.args)
        if not t.args or not isinstance(t.args[0], S):
            return False
        t = t.args[0]
    return False


def after_list(o):
    """The failing test is the one of the text after a list header."""
    fails = [e for e in o.events("tokenfail")]
    if not fails:
        return False
    key = fails[-1].data[0]
    i = key.args[0]
    if not (isinstance(key.args[1], Enm) and key.args[1].name == "TEXT" and isinstance(i, S) and i.op == "next"):
        return False
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "tokis" and v and k.args[0] == i.args[0] and isinstance(k.args[1], Enm) and k.args[1].name == "LIST":
            return True
    return any(e.kind in ("gettoken", "assume", "peektoken") and isinstance(e.data[0], S) and e.data[0].op == "tokis" and e.data[0].args[0] == i.args[0] and isinstance(e.data[0].args[1], Enm) and e.data[0].args[1].name == "LIST" for e in o.events("gettoken", "assume", "peektoken"))


def at_loop_head(o):
    """The failing test is about the first token of an iteration: what the
    iterations before established about it is not known."""
    fails = o.events("tokenfail")
    i = fails[-1].data[0].args[0] if fails else None
    return isinstance(i, S) and i.op == "phi"


def parsers(prog):
    base = prog.cls("BaseParser")
    return sorted(c.name for c in prog.classes.values() if c is not base and prog.is_subclass(c, base))


PRE = S("var", ("parser",))


def atomic(ctx):
    n = 0
    for name in parsers(ctx.prog):
        if name == "TextParser":
            continue
        pr = Processors(ctx.prog, name)
        for i in range(pr.count):
            ip, outs = pr.outcomes(i)
            ctx.saw(ip)
            ctx.paths += len(outs)
            n += 1
            for o in outs:
                refused = o.exc is None and o.value != K(True)
                if not (o.exc_name == "TokenError" or refused):
                    continue
                cons = f"{name}:{pr.names[i].split('.')[-1]}"
                if refused:
                    end = o.snap(o.get(o.parser, "tm", "index"))
                    cur = S("cur", (attr(PRE, "tm"),))
                    ctx.check("atomic", cons + ":position", end in (cur, attr(PRE, "tm", "index")) or (None if isinstance(o.value, S) else False), f"the function does not succeed and the position is {short(end)}", o.where(), o.path_text)
                    if isinstance(o.value, S):
                        continue
                if not refused and after_list(o):
                    continue
                bad = [e for e in o.events("set", "mut") if rooted(e.data[0]) and not own_tm(e.data[0])]
                e = bad[0] if bad else None
                ctx.check("atomic", cons, (None if at_loop_head(o) else False) if bad else True, f"{short(e.data[0], 60)} changes and then the attempt fails: the next element is parsed in another state" if e else "", e.where if e else None, o.path_text)
    ctx.need("coverage", "functions", n > 5, "no processing function found")


def own_tm(t):
    return isinstance(t, S) and (t == attr(PRE, "tm") or (t.op == "attr" and own_tm(t.args[0])))
