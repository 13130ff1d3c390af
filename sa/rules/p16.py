from .. import summaries as su
from ..absint import Budget, Cl, Enm, Exc, K, LoopEv, NONE, R, S, State, Tup
from ..model import client, Out, Processors, attr, depends, interp, run, short, subterms, var
from .common import loop_events, message
from .documents import Unclear
from .p14 import flat_events, parsers

PROPERTY = {
    "id": "P16",
    "title": "Parsing goes on to the end of the text, makes progress or reports an error",
    "statement": "A parser tries its processing functions in order and from the same position until one succeeds, again and again up to the end of the text, and completes its work (`finalise`) exactly once, at the end. What no function accepts and a position that does not change are errors with the position of the token, errors of the functions reach the caller, and a failed attempt never does. Every processing function that succeeds consumes at least one token, every iteration of its loops does too, and what is given to a parser is lexed entirely and parsed once, with the given environment and options.",
    "quantifier": {"over": ["inputs"], "text": "every text, every parser, every outcome of the processing functions"},
    "why_tests_cant": "Tests parse texts that end; that no text makes a parser stop early or loop is a claim on all the paths of the loops and of the processing functions.",
    "anchors": {
        "files": ["mau/parsers/base_parser.py", "mau/parsers/document_processors/list.py", "mau/parsers/document_processors/paragraph.py"],
        "state": [{"name": "position", "meaning": "index of the last token consumed", "where": "mau/parsers/managers/tokens_manager.py TokensManager"}],
        "mechanism": [{"name": "parser loop", "where": "mau/parsers/base_parser.py BaseParser.parse"}],
        "observe_at": ["BaseParser.parse", "BaseParser.lex_and_parse"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the parser loop with processing functions that can do anything, ranking argument (consumed tokens) on every processing function and loop"
LEVEL_NOTE = "The loop is analysed with functions that succeed, fail after reading, refuse, raise or do nothing, in every combination up to the first that ends the attempt, at the first and at a later token. Progress of inline elements is part of P28, the lexers are P15; a function whose progress can't be decided statically is counted as undecided (the loop reports it at run time)."
EXPLANATION = "For each iteration of the summarised loop the functions tried, their order, the position they start from and the way the iteration ends are compared; the exceptional outcomes are classified by what was tried before. For progress the final position of each successful outcome must be beyond the initial one."
ASSUMPTIONS = ["the tokens manager restores the position of failed attempts (P14)"]

CLS = "PreprocessVariablesParser"
ERR = S("var", ("inner_error",))


def check(ctx):
    loop(ctx)
    progress(ctx)
    whole(ctx)


# --------------------------------------------------------------------- loop
LOOP = """
from mau.environment.environment import Environment
from mau.message import BaseMessageHandler
from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
from mau.nodes.inline import TextNode
from mau.text_buffer import Context
from mau.token import Token, TokenType

def client(handler: BaseMessageHandler):
    tokens = [
        Token(TokenType.TEXT, "a", Context(0, 0, 0, 1, "main.mau")),
        Token(TokenType.EOL, "", Context(0, 1, 0, 1, "main.mau")),
        Token(TokenType.EOL, "", Context(0, 2, 0, 2, "main.mau")),
        Token(TokenType.EOF, "", Context(0, 3, 0, 3, "main.mau")),
    ]
    parser = PreprocessVariablesParser(tokens, handler, Environment())
    parser.nodes.append(TextNode("before"))
    parser.parse()
    return parser

def empty(handler: BaseMessageHandler):
    tokens = [Token(TokenType.EOF, "", Context(0, 0, 0, 0, "main.mau"))]
    parser = PreprocessVariablesParser(tokens, handler, Environment())
    parser.parse()
    return parser
"""
SIZE = 3


def one(outs):
    """The only outcome of a call."""
    if len(outs) != 1:
        raise Unclear("several outcomes")
    return outs[0]


def fake(k, scenario):
    """A processing function that does what the scenario says for the
    position it is called from."""
    def summ(ip, st, fi, args, kwargs, node):
        me = args[0] if args else kwargs.get("self")
        st, tm = one(ip.getattr(st, me, "tm", node))
        st, peek = one(ip.getattr(st, tm, "peek_token", node))
        st, token = one(ip.call(st, peek, [], {}, node))
        st, context = one(ip.getattr(st, token, "context", node))
        st, column = one(ip.getattr(st, context, "start_column", node))
        if not isinstance(column, K):
            raise Unclear(f"the position is {short(column)}")
        kind = scenario(column.v, k)
        ip.emit(st, "try", k, column.v, kind, node=node)
        if kind in ("true", "token"):
            # a failed attempt has read something before failing
            st, get = one(ip.getattr(st, tm, "get_token", node))
            st, _ = one(ip.call(st, get, [], {}, node))
        if kind in ("token", "error"):
            st.exc = Exc(ip.p.cls("TokenError"), S("tokenerror", ()), ip.where(node)) if kind == "token" else Exc(ip.p.cls("MauException"), ERR, ip.where(node))
            return [(st, NONE)]
        return [(st, {"true": K(True), "stuck": K(True), "false": K(False), "none": NONE}[kind])]
    return summ


def done(ip, st, fi, args, kwargs, node):
    ip.emit(st, "finalise", node=node)
    return [(st, NONE)]


def reference(scenario, count, size):
    """The functions tried and how the work ends."""
    log, i = [], 0
    while i < size:
        for k in range(count):
            kind = scenario(i, k)
            log.append((k, i))
            if kind == "error":
                return log, "inner", i
            if kind == "stuck":
                return log, "error", i
            if kind == "true":
                i += 1
                break
        else:
            return log, "error", i
    return log, "end", i


def scenarios(count):
    """{name: scenario}: every way the functions tried can end, at the first
    and at the second position."""
    fails = {()}
    allf = {()}
    for _ in range(count):
        allf = {p + (x,) for p in allf for x in ("token", "false")}
        fails |= allf
    ends = [p + (e,) for p in sorted(fails) for e in ("true", "error", "stuck") if len(p) < count]
    ends += [p for p in sorted(fails) if len(p) == count]
    ends += [("none",) * count, ("none", "true", "true", "true")[:count]]
    for at in (0, 1):
        for p in ends:
            def scenario(i, k, at=at, p=p):
                if i != at:
                    # accepted by the last function
                    return "true" if k == count - 1 else "token"
                return p[k] if k < len(p) else "error"
            yield f"{', '.join(p)} at {at}", scenario, SIZE
    yield "accepted", lambda i, k: "true", SIZE
    yield "empty text", lambda i, k: "true", 0


def loop(ctx):
    prog = ctx.prog
    pr = Processors(prog, CLS)
    ctx.need("anchor", CLS, pr.count >= 2, "less than two processing functions")
    fin = prog.method(CLS, "finalise")
    fs = client(prog, LOOP, "loop")
    for name, scenario, size in scenarios(pr.count):
        extra = {info.full: fake(k, scenario) for k, info in enumerate(pr.infos)}
        extra[fin.full] = done
        ip = interp(prog, extra, base={}, raise_mode=True, unroll=40, max_steps=100000, max_cpu=20, max_depth=200)
        log, end, at = reference(scenario, pr.count, size)
        try:
            outs = run(ip, fs["client" if size else "empty"], state=State())
        except Budget:
            ctx.check("loop", name, None, "parsing goes on and on")
            continue
        except Unclear as exc:
            ctx.check("loop", name, None, str(exc))
            continue
        ctx.saw(ip)
        ctx.paths += len(outs)
        if not outs:
            ctx.check("loop end", name, False, "parsing never ends", fs["client"].where() if hasattr(fs["client"], "where") else None)
            continue
        single = len(outs) == 1
        for o in outs:
            where = o.exc_where if o.exc else o.where()
            got = [e.data[:2] for e in o.events("try")]

            def judge(rule, ok, msg):
                ctx.check(rule, name, ok if ok or single else None, msg, where, o.path_text)

            judge("loop order", got == log, f"the functions tried, with the positions, are {got} instead of {log}")
            n = len(o.events("finalise"))
            judge("loop finalise", n == (end == "end"), f"the work is completed {n} times")
            if end == "end":
                judge("loop end", o.exc is None, f"parsing ends with {o.exc_name}")
            elif o.exc is None:
                judge("loop error", False, {"inner": "an error of a function is lost", "error": f"the position {at} is neither accepted nor reported"}[end])
            elif end == "inner":
                judge("loop error", o.st.exc.value == ERR, "another error is raised")
            else:
                judge("loop error", o.exc_name == "MauException", f"{o.exc_name} escapes from the parser")
                if o.exc_name == "MauException":
                    m = message(o)
                    c = o.get(m, "context") if m is not None else None
                    col = o.get(c, "start_column") if isinstance(c, R) else None
                    judge("loop position of the error", None if c is None or isinstance(c, S) else col == K(at), f"the error is located at {short(o.snap(c) if c is not None else c)} instead of the token {at}")


# ----------------------------------------------------------------- progress
def consumed(o, end, cur):
    """Is the position `end` beyond `cur`? True/False/None"""
    if end == cur:
        return False
    if isinstance(end, S):
        if end.op == "next":
            return True
        if end.op == "aftercollect":
            if end.args[0] == cur:
                return None
            return consumed(o, end.args[0], cur)
        if end.op == "phi":
            res = [consumed(o, a, cur) for a in end.args[2:]]
            if res and all(r is True for r in res):
                return True
            return None
    return None


def progress(ctx):
    n = 0
    for name in parsers(ctx.prog):
        if name == "TextParser":
            continue
        pr = Processors(ctx.prog, name)
        for i in range(pr.count):
            ip, outs = pr.outcomes(i)
            ctx.saw(ip)
            ctx.paths += len(outs)
            n += 1
            cons = f"{name}:{pr.names[i].split('.')[-1]}"
            cur = S("cur", (attr(S("var", ("parser",)), "tm"),))
            good = 0
            for o in outs:
                if o.exc is None and o.value == K(True):
                    good += 1
                    end = o.snap(o.get(o.parser, "tm", "index"))
                    r = consumed(o, end, cur)
                    if r is None and isinstance(end, S) and end.op == "aftercollect":
                        # nothing collected means that the first token is a
                        # stop token; it is one of those tested afterwards
                        r = True if any(isinstance(k, S) and k.op == "tokis" and not v and k.args[0] == end for k, v in o.st.facts.items()) else None
                    if r is None and isinstance(end, S) and end.op == "phi":
                        r = True if moved(o, cur) or differs(o, end, cur) else None
                    ctx.check("progress", cons, r, "the function succeeds and consumes nothing", o.where(), o.path_text)
                for l in loop_events(o):
                    if l.kind != "while" or not (isinstance(l.src, S) and l.src.op == "while"):
                        continue
                    if l.partial:
                        # the iterations that leave the loop or are not
                        # completed
                        continue
                    for facts, tr in l.alts:
                        evs = list(flat_events(tr))
                        if any(e.kind == "raise" for e in evs):
                            continue
                        # (a recursive call consumes what its function
                        # consumes: it is this same argument)
                        go = any(e.kind in ("gettoken", "collect", "recurse") for e in evs)
                        ctx.check("progress", f"{cons}:loop", True if go else False if on_tokens(facts) and not any(e.kind == "call" for e in evs) else None, "an iteration of the loop consumes nothing: it never ends", l.where or o.where(), o.path_text)
            if not good:
                ctx.check("progress", cons, None, "")
    ctx.need("coverage", "functions", n > 5, "no processing function found")


def on_tokens(facts):
    """The first test of the iteration looks at the next token: only the
    consumption of tokens can make it false."""
    return bool(facts) and any(isinstance(x, S) and x.op in ("tok", "tokis") for x in subterms(facts[0][0]))


def moved(o, cur):
    """A token was consumed at the initial position."""
    return any(e.kind == "gettoken" and e.data[0].args[0] == cur for e in o.events("gettoken"))


def differs(o, end, cur):
    """A test that succeeds at the initial position and fails at the final
    one: they are not the same."""
    f = o.st.facts
    return any(
        isinstance(k, S) and k.op == "tokis" and not v and k.args[0] == end and f.get(S("tokis", (cur, *k.args[1:]))) is True
        for k, v in f.items()
    )


# --------------------------------------------------------------------- whole
def mark(kind):
    def summ(ip, st, fi, args, kwargs, node):
        ip.emit(st, kind, ip.snap(st, args[0]), node=node)
        if kind == "lexed":
            o = st.heap[args[0].oid]
            toks = ip.mk(st, S("lexed", (ip.snap(st, args[0]),)), ("list", ("cls", ip.p.cls("Token"))))
            st.heap[args[0].oid] = o.with_attr("tokens", toks)
        return [(st, NONE)]
    return summ


def whole(ctx):
    """lex_and_parse of every parser."""
    prog = ctx.prog
    for name in parsers(prog):
        fi = prog.method(name, "lex_and_parse")
        base = {k: v for k, v in {**su.TM, **su.PARSE, **su.ENV}.items() if k != "BaseParser.lex_and_parse"}
        lp, pp = set(), set()
        for c in prog.classes.values():
            if prog.is_subclass(c, prog.cls("BaseLexer")):
                lp.add(prog.method(c.name, "process").full)
            if prog.is_subclass(c, prog.cls("BaseParser")):
                pp.add(prog.method(c.name, "parse").full)
        extra = {**{k: mark("lexed") for k in lp}, **{k: mark("parsed") for k in pp}}
        ip = interp(prog, extra, base=base)
        st = State()
        params = [a.arg for a in fi.node.args.args]
        env = ip.lazy_obj(st, "Environment", "environment")
        mh = ip.mk(st, var("message_handler"), ("cls", prog.cls("BaseMessageHandler")))
        pn = ip.mk(st, var("parent_node"), ("cls", prog.cls("Node")))
        kw = {"text": var("text"), "message_handler": mh, "environment": env, "start_line": var("start_line"), "start_column": var("start_column"), "source_filename": var("source_filename")}
        opt = "parent_node"
        if any(a.arg == "forbidden_includes" for a in prog.method(name, "__init__").node.args.args):
            # A document has its own root: the option that counts
            # is the list of the files it can't include.
            opt = "forbidden_includes"
            kw[opt] = ip.mk(st, var(opt), ("list", "str"))
        else:
            kw[opt] = pn
        from ..absint import BM, Fn
        outs = [Out(ip, s, v) for s, v in ip.call_function(fi, st, [], kw, Cl(prog.cls(name)))]
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            where = o.exc_where if o.exc else o.where()
            if o.exc:
                ctx.check("whole", f"{name}:error", None, "")
                continue
            lex, par = o.events("lexed"), o.events("parsed")
            ctx.check("whole", f"{name}:lexed", len(lex) == 1, f"the text is lexed {len(lex)} times", where, o.path_text)
            ctx.check("whole", f"{name}:parsed", len(par) == 1, f"the tokens are parsed {len(par)} times", where, o.path_text)
            v = o.value
            if len(lex) == 1 and len(par) == 1:
                ctx.check("whole", f"{name}:result", o.snap(v) == par[0].data[0], "another parser is returned", where, o.path_text)
                toks = o.snap(o.get(v, "tm", "tokens"))
                ctx.check("whole", f"{name}:tokens", toks == S("lexed", (lex[0].data[0],)) or (False if isinstance(toks, S) and toks.op in ("slice", "list") else None), f"the tokens parsed are {short(toks)}", where, o.path_text)
                lx = lexer_of(o, lex[0].data[0])
                if lx is not None:
                    tb = o.get(lx, "text_buffer")
                    if not isinstance(tb, R):
                        tb = next((x for x in (o.get(lx, n) for n in dict(o.obj(lx).attrs)) if o.is_a(x, "TextBuffer")), None)
                    args = buffer_args(o, tb)
                    if args is not None:
                        for n in ("text", "start_line", "start_column", "source_filename"):
                            if n == "text" and any(v and isinstance(k, S) and k.op == "eq" and set(k.args) == {var("text"), K("")} for k, v in o.st.facts.items()):
                                continue
                            ctx.check("whole", f"{name}:{n}", any(depends(a, var(n)) for a in args), f"{n} does not reach the text that is lexed", where, o.path_text)
                    ctx.check("whole", f"{name}:lexer class", o.cls(lx) is not None and o.cls(lx).name != "BaseLexer" or None, "", where, o.path_text)
            ctx.check("whole", f"{name}:class", o.cls(v) is not None and o.cls(v).name == name, "another parser is used", where, o.path_text)
            e = o.get(v, "environment")
            ctx.check("whole", f"{name}:environment", o.snap(e) == var("environment") or (None if depends(o.snap(e), var("environment")) else False), f"the environment is {short(o.snap(e))}", where, o.path_text)
            held = buffer_args(o, v) or []
            ok = any(depends(a, var(opt)) for a in held)
            if not ok and o.st.facts.get(S("truth", (var(opt),))) is False:
                continue  # an empty list and no list are the same
            ctx.check("whole", f"{name}:options", ok, "options given to the parser are lost", where, o.path_text)


def lexer_of(o, ident):
    for oid, h in o.st.heap.items():
        if h.kind == "obj" and o.snap(R(oid)) == ident:
            return R(oid)
    return None


def buffer_args(o, tb):
    ob = o.obj(tb)
    if ob is None:
        return None
    res = []
    for _, v in ob.attrs:
        t = o.deep(v, 4)
        res += list(subterms(t))
    return res
