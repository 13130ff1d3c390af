from ..absint import BM, Cl, K, NONE, R, S, State, Tup
from ..model import Out, Processors, attr, call, depends, interp, run, short, subterms, var
from .common import message
from .texts import changed

PROPERTY = {
    "id": "P29",
    "title": "Every argument has exactly one role and none is lost or overwritten",
    "statement": "`name=value` is a named argument (value without surrounding spaces), `#x` a tag, `*x` the subtype, `@x` an alias and anything else an unnamed argument kept in its order, all without their quotes and prefix; an unnamed argument after a named one, two subtypes and two aliases are errors with a position. Positional names are given in order to the unnamed arguments, skipping names already given, so that a given named argument is never replaced and the arguments that get no name stay unnamed, in order. An alias adds only the named arguments that are missing, gives its names to the unnamed arguments and its subtype when there is none, an unknown alias is an error, and tags that start with `mau:` become internal tags.",
    "quantifier": {"over": ["inputs"], "text": "every list of arguments, every list of positional names, every alias"},
    "why_tests_cant": "Tests parse a few lists of arguments; that no combination of roles, names and aliases loses, duplicates or replaces an argument is a claim on all of them.",
    "anchors": {
        "files": ["mau/parsers/arguments_parser.py", "mau/nodes/node_arguments.py"],
        "state": [{"name": "arguments by role", "meaning": "unnamed, named, tags, subtype and alias nodes", "where": "mau/parsers/arguments_parser.py ArgumentsParser"}],
        "mechanism": [{"name": "parse of arguments and isolation of roles", "where": "mau/parsers/arguments_parser.py"}],
        "observe_at": ["ArgumentsParser.unnamed_argument_nodes", "ArgumentsParser.named_argument_nodes", "ArgumentsParser.arguments"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the arguments parser: provenance and final role of symbolic arguments, with case splits on their first character"
LEVEL_NOTE = "One argument is analysed from an arbitrary position; roles, aliases and positional names are analysed on lists of up to three symbolic arguments (their values are unknown), so the verdict covers all values but only these lengths, the code treating arguments one by one."
EXPLANATION = "The processing functions of the parser are evaluated and each of their outcomes must add one node, whose value is the text collected at the right place. The roles are decided on lists of symbolic arguments: in each outcome the facts known about the first character of each argument say where it must be found, exactly once, and with which value."
ASSUMPTIONS = ["collect_join returns the text up to the first stop token", "the environment returns the value stored under a key"]

PARSER = var("parser")
BASE = "mau.parsers.base_parser:BaseParser.parse"
UN, NA = "unnamed_argument_nodes", "named_argument_nodes"
INTERNAL = "mau:"


def check(ctx):
    processing(ctx)
    roles(ctx)
    alias(ctx)
    positional(ctx)
    result(ctx)


# ------------------------------------------------------------ one argument
def node_value(o, r):
    v = o.get(r, "value")
    return o.snap(v) if v is not None else None


def collected(v):
    return next((x for x in subterms(v) if isinstance(x, S) and x.op == "collected"), None)


def stop_values(o, rest):
    st = dict(rest).get("stop_tokens")
    if not isinstance(st, S) or st.op not in ("list", "set", "tuple"):
        return None
    res = []
    for q in st.args:
        x = q[1] if isinstance(q, tuple) else q
        ob = o.st.heap.get(x.args[1]) if isinstance(x, S) and x.op == "new" and len(x.args) > 1 else None
        if ob is None:
            return None
        v = o.snap(ob.get("value"))
        res.append(v.v if isinstance(v, K) else None)
    return res


def tested(o, idx, value=None, ty=None):
    """True/False when a test of the token at idx is known, None otherwise"""
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "tokis" and k.args[0] == idx:
            if value is not None and k.args[2] == K(value):
                return v
            if ty is not None and k.args[2] is None and getattr(k.args[1], "name", None) == ty:
                return v
    return None


def processing(ctx):
    pr = Processors(ctx.prog, "ArgumentsParser")
    order = {}
    named = []
    for i in range(pr.count):
        ip, outs = pr.outcomes(i)
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            u = o.added(o.get(o.parser, UN), attr(PARSER, UN))
            n = o.added(o.get(o.parser, NA), attr(PARSER, NA))
            if o.exc:
                ctx.check("one", "error", o.exc_name in ("TokenError", "MauException"), f"{o.exc_name} escapes", o.exc_where, o.path_text)
                if o.exc_name == "MauException":
                    located(ctx, o, "process")
                continue
            if u is None or n is None:
                ctx.check("one", "kept", False if any(isinstance(k, S) for k in (o.snap(o.get(o.parser, UN)), o.snap(o.get(o.parser, NA)))) else None, "the arguments found before are not kept", o.where(), o.path_text)
                continue
            if o.value != K(True):
                ctx.check("one", "refused", not u and not n, "an argument is saved and then refused", o.where(), o.path_text)
                continue
            ctx.check("one", "saved", len(u) + len(n) == 1, f"an argument gives {len(u) + len(n)} nodes", o.where(), o.path_text)
            if len(u) + len(n) != 1:
                continue
            order.setdefault("named" if n else "unnamed", i)
            single(ctx, o, (n or u)[0], bool(n))
            if n:
                named.append((ip, o))
    for what in ("named", "unnamed"):
        ctx.check("one", what, what in order, f"no argument is ever {what}", None)
    if len(order) == 2:
        ctx.check("one", "order", order["named"] < order["unnamed"] or None, "", None)
    # nothing unnamed after a named argument
    fi = ctx.prog.method("ArgumentsParser", "_process_functions")
    for ip, o in named[:4]:
        bad, good = 0, 0
        st = o.st.fork()
        for s, v in ip.call_function(fi, st, [], {}, o.parser):
            if s.exc is not None:
                continue
            fns = Out(ip, s, v).parts(v)
            if fns is None:
                continue
            before = o.snap(o.get(o.parser, UN))
            for q in fns:
                for p in call(ip, s.fork(), q[1]):
                    if p.exc_name == "MauException":
                        located(ctx, p, "unnamed after named")
                        good += 1
                    elif p.exc is None and p.snap(p.get(o.parser, UN)) != before:
                        ctx.check("after", "unnamed", False, "an unnamed argument is accepted after a named one", p.where(), p.path_text)
                        bad += 1
        ctx.check("after", "unnamed", True if good and not bad else None, "", None)
    fresh(ctx, ctx.prog)


def fresh(ctx, prog):
    """A new parser accepts unnamed arguments and starts without arguments."""
    ip = interp(prog)
    st = State()
    toks = ip.mk(st, var("tokens"), ("list", ("cls", prog.cls("Token"))))
    mh = ip.mk(st, var("message_handler"), ("cls", prog.cls("BaseMessageHandler")))
    env = ip.lazy_obj(st, "Environment", "env")
    fi = prog.method("ArgumentsParser", "_process_functions")
    for o in call(ip, st, Cl(prog.cls("ArgumentsParser")), [toks, mh, env]):
        if o.exc:
            continue
        for f in (UN, NA):
            ctx.check("fresh", f, o.items(o.get(o.value, f)) == [] or (None if o.items(o.get(o.value, f)) is None else False), "a new parser already has arguments", o.where(), o.path_text)
        ok = False
        for s, v in ip.call_function(fi, o.st, [], {}, o.value):
            if s.exc is not None:
                continue
            for q in Out(ip, s, v).parts(v) or ():
                for p in call(ip, s.fork(), q[1]):
                    if p.exc is None and p.items(p.get(o.value, UN)):
                        ok = True
        ctx.check("fresh", "accepts", ok, "the first argument can't be unnamed", o.where(), o.path_text)


def located(ctx, o, what):
    m = message(o)
    c = o.get(m, "context") if m is not None else None
    ctx.check("error", what, None if c is None else o.snap(c) != NONE, "the error has no position", o.exc_where, o.path_text)


def single(ctx, o, part, is_named):
    what = "named" if is_named else "unnamed"
    i0 = S("cur", (attr(PARSER, "tm"),))
    node = part[2] if part[0] == "kv" else part[1] if part[0] == "item" else None
    if not o.is_a(node, "ValueNode"):
        ctx.check("value", what, None, "")
        return
    v = node_value(o, node)
    c = collected(v)
    if c is None:
        ctx.check("value", what, False if isinstance(v, K) else None, f"the value is {short(v)}", o.where(), o.path_text)
        return
    start = c.args[1]
    text = attr(c, "value")
    if is_named:
        ctx.check("value", what, True if v == S("strip", (text,)) else False if not changed(v) or v.op in ("lower", "upper", "lstrip", "rstrip", "slice", "replace") else None, f"the value is {short(v)}", o.where(), o.path_text)
        key = o.snap(part[1])
        ctx.check("value", "name", key == attr(S("tok", (i0,)), "value") or (None if changed(key) and depends(key, attr(S("tok", (i0,)), "value")) and key.op == "strip" else False), f"the name is {short(key)}", o.where(), o.path_text)
        first = S("next", (S("next", (i0,)),))
        eq = tested(o, S("next", (i0,)), "=")
        ctx.check("value", "equal", True if eq else False, "an argument is named although its name is not followed by =", o.where(), o.path_text)
    else:
        ctx.check("value", what, True if v == text else False if changed(v) and v.op in ("lower", "upper", "slice", "replace", "strip", "lstrip", "rstrip") else None, f"the value is {short(v)}", o.where(), o.path_text)
        first = i0
    quoted = tested(o, first, '"')
    want = S("next", (first,)) if quoted else first
    ctx.check("value", what + ":start", start == want if quoted is not None else None, f"the value of {'a quoted' if quoted else 'an'} argument starts at {short(start)}", o.where(), o.path_text)
    if quoted is None:
        ctx.check("value", what + ":quotes", False, "quotes are not recognised", o.where(), o.path_text)
    j = dict(c.args[2]).get("join_with")
    ctx.check("value", what + ":join", j in (None, K("")), f"tokens are joined with {short(j)}", o.where(), o.path_text)
    sv = stop_values(o, c.args[2])
    ctx.check("value", what + ":stop", None if sv is None else sv == ['"' if quoted else ","], f"the value of {'a quoted' if quoted else 'an'} argument ends at {sv}", o.where(), o.path_text)
    end = o.snap(o.get(o.parser, "tm", "index"))
    last = next((x for x in subterms(end) if isinstance(x, S) and x.op == "aftercollect" and x.args[0] == start), None)
    if last is None:
        ctx.check("value", what + ":end", None, "")
        return
    if quoted:
        ctx.check("value", what + ":closing", tested(o, last, '"') is True, "closing quotes are not required", o.where(), o.path_text)
        last = S("next", (last,))
    comma = tested(o, last, ",")
    if comma is None:
        ctx.check("comma", what, False if tested(o, S("next", (last,)), ",") is None else None, "the comma after an argument is not skipped", o.where(), o.path_text)
    elif comma:
        nx = S("next", (last,))
        ctx.check("comma", what, end == nx or depends(end, nx), "the comma after an argument is not skipped", o.where(), o.path_text)
        # at most white space is skipped
        if end != nx:
            ctx.check("comma", what + ":rest", True if end == S("next", (nx,)) and tested(o, nx, ty="WHITESPACE") else False if end == S("next", (nx,)) and tested(o, nx, ty="WHITESPACE") is None else None, "something more than the white space after the comma is skipped", o.where(), o.path_text)
    else:
        ok = end == last or (end == S("next", (last,)) and tested(o, last, ty="WHITESPACE"))
        ctx.check("comma", what + ":none", ok or None, "", o.where(), o.path_text)
    ci = o.get(node, "info", "context")
    ctx.check("value", what + ":context", None if ci is None else o.snap(ci) == attr(c, "context") or (False if o.snap(ci) == NONE else None), "the argument does not know its position", o.where(), o.path_text)


def distinct(outs):
    """The arguments given are different objects (nodes are compared by
    identity)."""
    def same(o):
        return any(v and isinstance(k, S) and k.op in ("eq", "is", "in") and all(isinstance(a, S) and (a.op == "var" or a.op == "oneof" and all(isinstance(x, S) and x.op == "var" for x in a.args)) for a in k.args) for k, v in o.st.facts.items())
    return [o for o in outs if not same(o)]


# ------------------------------------------------------------------- roles
def start(prog, ctx, nunnamed, named=(), aliases=None):
    """ArgumentsParser.parse after the arguments have been read."""
    fi = prog.method("ArgumentsParser", "parse")
    vn = ("cls", prog.cls("ValueNode"))

    def base(ip, st, f, args, kw, node):
        me = args[0]
        o = st.heap[me.oid]
        ps = tuple(("item", ip.mk(st, var(f"n{i}"), vn)) for i in range(nunnamed))
        o = o.with_attr(UN, ip.new_list(st, ps))
        o = o.with_attr(NA, ip.new_list(st, tuple(("kv", K(k), ip.mk(st, var("given_" + k), vn)) for k in named), kind="dict"))
        st.heap[me.oid] = o
        return [(st, NONE)]

    extra = {BASE: base}
    if aliases is not None:
        def get(ip, st, f, args, kw, node):
            env = ip.bind(st, f.node.args, args, kw, f.qual, None, f.module)
            n = [a.arg for a in f.node.args.args]
            if env[n[1]] != K("mau.parser.aliases"):
                return NotImplemented
            return [(st, ip.mk(st, var("aliases"), ("cls", prog.cls("Environment"))))]

        def asdict(ip, st, f, args, kw, node):
            if ip.snap(st, args[0]) != var("aliases"):
                return NotImplemented
            return [(st, ip.new_list(st, (("kv", K("a1"), aliases(ip, st)),), kind="dict"))]

        extra["Environment.get"] = get
        extra["Environment.asdict"] = asdict
    ip = interp(prog, extra, max_steps=3000000)
    box = {}

    def setup(st, s, v):
        box["s"] = s

    outs = run(ip, fi, self_cls="ArgumentsParser", self_path="parser", setup=setup)
    ctx.saw(ip)
    ctx.paths += len(outs)
    for o in outs:
        o.parser = box["s"]
    return distinct(outs)


def first_char(o, i):
    """Prefix of argument i according to the facts ('' when none of the
    prefixes; None when unknown)."""
    v = attr(var(f"n{i}"), "value")
    no = set()
    for k, val in o.st.facts.items():
        if not isinstance(k, S):
            continue
        c = None
        if k.op == "startswith" and k.args[0] == v:
            a = k.args[1]
            if isinstance(a, K) and isinstance(a.v, str):
                c = {a.v}
            elif isinstance(a, K) and isinstance(a.v, tuple):
                c = set(a.v)
            elif isinstance(a, Tup) and all(isinstance(x, K) for x in a.items):
                c = {x.v for x in a.items}
        elif k.op in ("eq", "in"):
            a, b = k.args
            for x, y in ((a, b), (b, a)):
                if isinstance(x, S) and x.op in ("at", "getitem", "slice") and x.args[0] == v and isinstance(y, K) and isinstance(y.v, str):
                    if x.op != "slice" and x.args[1] == K(0) or x.op == "slice" and x.args[1] in (K(0), NONE, None) and x.args[2] == K(1):
                        c = {y.v} if k.op == "eq" else set(y.v)
        if c is None:
            continue
        if val and len(c) == 1:
            return next(iter(c))
        if not val:
            no |= c
    return "" if {"#", "*", "@"} <= no else None


def places(o, i):
    """[(role, position, node)] of argument i in the final state"""
    t = var(f"n{i}")
    res = []

    def same(r):
        if o.snap(r) == t:
            return True
        return o.is_a(r, "ValueNode") and depends(node_value(o, r), attr(t, "value"))

    for role, f in (("unnamed", UN), ("tag", "tag_nodes")):
        its = o.items(o.get(o.parser, f))
        if its is None:
            return None
        ps = o.parts(o.get(o.parser, f))
        if any(q[0] != "item" for q in ps):
            return None
        res += [(role, j, r) for j, r in enumerate(its) if same(r)]
    for role in ("subtype", "alias"):
        r = o.get(o.parser, role)
        if r is not None and r != NONE and same(r):
            res.append((role, 0, r))
    ps = o.parts(o.get(o.parser, NA))
    if ps is None:
        return None
    for q in ps:
        if q[0] == "kv" and same(q[2]):
            res.append(("named", q[1], q[2]))
    return res


def plain(v, t, prefix):
    """Is v the value t without its prefix?"""
    if prefix == "":
        return v == t
    if isinstance(v, S) and v.args and v.args[0] == t:
        if v.op == "removeprefix":
            return v.args[1] == K(prefix)
        if v.op == "slice":
            return v.args[1] == K(1) and v.args[2] in (NONE, None) and (len(v.args) < 4 or v.args[3] in (NONE, None, K(1)))
        return None if v.op not in ("lstrip", "replace", "removesuffix", "lower", "upper", "strip") else False
    return False


ROLE = {"#": "tag", "*": "subtype", "@": "alias", "": "unnamed"}


def roles(ctx):
    seen = set()
    for n in (1, 2, 3):
        for o in start(ctx.prog, ctx, n, aliases=lambda ip, st: ip.new_list(st, (), kind="dict")):
            cs = [first_char(o, i) for i in range(n)]
            stars, ats = cs.count("*"), cs.count("@")
            if o.exc:
                if o.exc_name != "MauException":
                    ctx.check("role", "error", False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
                    continue
                located(ctx, o, "roles")
                if None not in cs and not ats:
                    ctx.check("role", "refused", stars > 1, "correct arguments are refused", o.exc_where, o.path_text)
                continue
            ctx.check("role", "two subtypes", stars < 2, "two subtypes are accepted", o.where(), o.path_text)
            ctx.check("role", "two aliases", ats < 2, "two aliases are accepted", o.where(), o.path_text)
            if stars > 1 or ats > 1:
                continue
            pos = {}
            for i, c in enumerate(cs):
                if c is None or c not in ROLE:
                    ctx.check("role", "prefix", None, "")
                    continue
                seen.add(c)
                ps = places(o, i)
                if ps is None:
                    ctx.check("role", ROLE[c], None, "")
                    continue
                ctx.check("role", ROLE[c], [p[0] for p in ps] == [ROLE[c]] or (c == "@" and not ps), f"an argument with prefix {c!r} becomes {' and '.join(p[0] for p in ps) or 'nothing: it is lost'}", o.where(), o.path_text)
                for role, j, r in ps:
                    pos.setdefault(role, []).append(j)
                    if role == ROLE[c]:
                        ctx.check("role", role + ":value", plain(node_value(o, r), attr(var(f"n{i}"), "value"), c), f"the value of an argument with prefix {c!r} is {short(node_value(o, r))}", o.where(), o.path_text)
            for role in ("tag", "unnamed"):
                p = pos.get(role, [])
                ctx.check("role", role + ":order", p == sorted(p), "the order of the arguments changes", o.where(), o.path_text)
    for c, role in ROLE.items():
        ctx.check("role", "recognised:" + role, True if c in seen else None, f"{role} is never recognised", None)


# ------------------------------------------------------------------- alias
def alias(ctx):
    prog = ctx.prog

    def replacement(full):
        def mk(ip, st):
            args = ip.new_list(st, (("kv", K("k1"), var("v1")), ("kv", K("k2"), var("v2"))), kind="dict")
            names = ip.new_list(st, (("item", K("k1")), ("item", K("p1")), ("item", K("p2"))))
            ps = (("kv", K("args"), args), ("kv", K("names"), names), ("kv", K("subtype"), var("sub"))) if full else ()
            return ip.new_list(st, ps, kind="dict")
        return mk

    known = unknown = 0
    for full in (True, False):
        for n in (1, 2, 3):
            for o in start(prog, ctx, n, named=("k1",), aliases=replacement(full)):
                cs = [first_char(o, i) for i in range(n)]
                if None in cs or cs.count("@") != 1 or cs.count("*") > 1:
                    continue
                ia = cs.index("@")
                t = attr(var(f"n{ia}"), "value")
                named_ok = [v for k, v in o.st.facts.items() if isinstance(k, S) and k.op == "eq" and K("a1") in k.args and any(plain(x, t, "@") for x in k.args)]
                if not named_ok:
                    ctx.check("alias", "looked up", None, "", o.where(), o.path_text)
                    continue
                if not named_ok[0]:
                    unknown += 1
                    ctx.check("alias", "unknown", o.exc_name == "MauException", f"an unknown alias is not an error ({o.exc_name})", o.where(), o.path_text)
                    if o.exc_name == "MauException":
                        located(ctx, o, "unknown alias")
                    continue
                known += 1
                if o.exc:
                    ctx.check("alias", "error", False, f"an alias that exists gives {o.exc_name}", o.exc_where, o.path_text)
                    continue
                one_alias(ctx, o, cs, full)
    ctx.check("alias", "applied", True if known else None, "", None)
    ctx.check("alias", "checked", True if unknown else None, "", None)


def one_alias(ctx, o, cs, full):
    ps = o.parts(o.get(o.parser, NA))
    un = o.parts(o.get(o.parser, UN))
    if ps is None or un is None or any(q[0] != "kv" or not isinstance(q[1], K) for q in ps) or any(q[0] != "item" for q in un):
        ctx.check("alias", "named", None, "", o.where(), o.path_text)
        return
    d = {q[1].v: q[2] for q in ps}
    plainargs = [i for i, c in enumerate(cs) if c == ""]
    given = d.get("k1")
    ctx.check("alias", "not replaced", given is not None and o.snap(given) == var("given_k1") and o.snap(o.get(given, "value")) == attr(var("given_k1"), "value"), "an alias replaces a named argument that is given", o.where(), o.path_text)
    names = {}
    if full:
        k2 = d.get("k2")
        ctx.check("alias", "added", k2 is not None and o.is_a(k2, "ValueNode") and node_value(o, k2) == var("v2"), f"the alias gives {short(o.deep(k2, 2)) if k2 is not None else 'no'} argument instead of its own", o.where(), o.path_text)
        if k2 is not None:
            c = o.get(k2, "info", "context")
            ctx.check("alias", "context", None if c is None else o.snap(c) != NONE or False, "an argument added by an alias has no position", o.where(), o.path_text)
        names = dict(zip(("p1", "p2"), plainargs))
    for nme in ("p1", "p2"):
        if nme in names:
            got = d.get(nme)
            ctx.check("alias", "names", got is not None and o.snap(got) == var(f"n{names[nme]}"), f"the name {nme} of an alias is given to {short(o.snap(got)) if got is not None else 'nothing'}", o.where(), o.path_text)
        else:
            ctx.check("alias", "names", nme not in d, f"{nme} gets a value out of nothing", o.where(), o.path_text)
    rest = [o.snap(q[1]) for q in un]
    ctx.check("alias", "unnamed", rest == [var(f"n{i}") for i in plainargs[len(names):]], f"the arguments left unnamed are {short(rest)}", o.where(), o.path_text)
    ctx.check("alias", "only", set(d) <= {"k1", "k2", "p1", "p2"}, f"the alias adds {sorted(set(d))}", o.where(), o.path_text)
    sub = o.get(o.parser, "subtype")
    if "*" in cs:
        ctx.check("alias", "subtype kept", sub is not None and sub != NONE and o.snap(sub) == var(f"n{cs.index('*')}"), "an alias replaces the subtype", o.where(), o.path_text)
    elif not full:
        ctx.check("alias", "subtype", sub == NONE, "an alias without subtype sets one", o.where(), o.path_text)
    else:
        has = o.st.facts.get(S("truth", (var("sub"),)))
        if has is None:
            has = {True: False, False: True}.get(o.st.facts.get(S("isnone", (var("sub"),))))
        if has is True:
            ctx.check("alias", "subtype", sub is not None and sub != NONE and o.is_a(sub, "ValueNode") and node_value(o, sub) == var("sub"), "the subtype of the alias is not used", o.where(), o.path_text)
        elif has is False:
            ctx.check("alias", "subtype", sub == NONE, "an alias without subtype sets one", o.where(), o.path_text)
        else:
            ctx.check("alias", "subtype", None if depends(o.snap(sub), var("sub")) or (o.is_a(sub, "ValueNode") and node_value(o, sub) == var("sub")) else False, "the subtype of the alias is not used", o.where(), o.path_text)


# -------------------------------------------------------------- positional
def positional(ctx):
    """Positional names on lists of symbolic arguments."""
    prog = ctx.prog
    targets = []
    if prog.maybe_cls("NodeArguments") is not None:
        targets.append(("NodeArguments", "unnamed_args", "named_args"))
    targets.append(("ArgumentsParser", UN, NA))
    cases = [((), 0), (("p1",), 1), (("p1", "p2"), 1), (("p1",), 2), (("k1", "p1"), 1), (("p1", "k1", "p2"), 3), (("k1",), 1), (("k1", "p1", "p2"), 2)]
    for cls, fu, fn in targets:
        fi = prog.method(cls, "set_names")
        for names, n in cases:
            ip = interp(prog)
            box = {}

            def setup(st, s, v):
                box["s"] = s
                o = st.heap[s.oid]
                if cls == "ArgumentsParser":
                    vn = ("cls", prog.cls("ValueNode"))
                    mk = lambda t: ip.mk(st, t, vn)
                else:
                    mk = lambda t: S(t.op, t.args, ("str",))
                box["u"] = [var(f"u{i}") for i in range(n)]
                o = o.with_attr(fu, ip.new_list(st, tuple(("item", mk(x)) for x in box["u"])))
                o = o.with_attr(fn, ip.new_list(st, (("kv", K("k1"), mk(var("given"))),), kind="dict"))
                st.heap[s.oid] = o
                v[0:1] = [ip.new_list(st, tuple(("item", K(x)) for x in names))]

            outs = run(ip, fi, self_cls=cls, self_path="me", setup=setup)
            ctx.saw(ip)
            ctx.paths += len(outs)
            cons = f"{cls}:{'+'.join(names) or 'none'}:{n}"
            free = [x for x in names if x != "k1"]
            want = dict(zip(free, box["u"]))
            for o in outs:
                if o.exc:
                    ctx.check("positional", cons, False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
                    continue
                ps, un = o.parts(o.get(box["s"], fn)), o.parts(o.get(box["s"], fu))
                if ps is None or un is None or any(q[0] != "kv" or not isinstance(q[1], K) for q in ps) or any(q[0] != "item" for q in un):
                    ctx.check("positional", cons, None, "")
                    continue
                d = {q[1].v: o.snap(q[2]) for q in ps}
                ok = d == {"k1": var("given"), **want}
                ctx.check("positional", cons, ok, f"names {names} with {n} unnamed arguments give {short(d)}", o.where(), o.path_text)
                rest = [o.snap(q[1]) for q in un]
                ctx.check("positional", cons + ":rest", rest == box["u"][len(want):], f"names {names} with {n} unnamed arguments leave {short(rest)}", o.where(), o.path_text)


# ------------------------------------------------------------------ result
def result(ctx):
    for n in (2, 0):
        result_with(ctx, n)


def result_with(ctx, n):
    prog = ctx.prog
    fi = prog.method("ArgumentsParser", "arguments")
    vn = ("cls", prog.cls("ValueNode"))
    ip = interp(prog, {"ArgumentsParser.arguments": lambda *a: NotImplemented})
    box = {}

    def setup(st, s, v):
        o = st.heap[s.oid]
        mk = lambda t: ip.mk(st, t, vn)
        o = o.with_attr(UN, ip.new_list(st, (("item", mk(var("u0"))), ("item", mk(var("u1"))))))
        o = o.with_attr(NA, ip.new_list(st, (("kv", K("a"), mk(var("a"))), ("kv", K("b"), mk(var("b")))), kind="dict"))
        o = o.with_attr("tag_nodes", ip.new_list(st, tuple(("item", mk(var(f"n{i}"))) for i in range(n))))
        st.heap[s.oid] = o

    outs = run(ip, fi, self_cls="ArgumentsParser", self_path="parser", setup=setup)
    ctx.saw(ip)
    ctx.paths += len(outs)
    for o in distinct(outs):
        if o.exc:
            ctx.check("result", "error", False, f"{o.exc_name} escapes", o.exc_where, o.path_text)
            continue
        val = lambda n: attr(var(n), "value")

        def lst(f):
            ps = o.parts(o.get(o.value, f))
            return None if ps is None or any(q[0] not in ("item", "kv") for q in ps) else [o.snap(q[1]) if q[0] == "item" else (q[1], o.snap(q[2])) for q in ps]

        u = lst("unnamed_args")
        ctx.check("result", "unnamed", None if u is None else u == [val("u0"), val("u1")], f"the unnamed arguments are {short(u)}", o.where(), o.path_text)
        nn = lst("named_args")
        ctx.check("result", "named", None if nn is None else nn == [(K("a"), val("a")), (K("b"), val("b"))], f"the named arguments are {short(nn)}", o.where(), o.path_text)
        tags, internal = lst("tags"), lst("internal_tags")
        wt, wi, sure = [], [], True
        for x in [f"n{i}" for i in range(n)]:
            f = o.st.facts.get(S("startswith", (val(x), K(INTERNAL))))
            if f is None:
                sure = False
            elif f:
                wi.append(val(x))
            else:
                wt.append(val(x))
        if tags is None or internal is None or not sure:
            ctx.check("result", "tags", None, "")
        else:
            ctx.check("result", "tags", tags == wt, f"the tags are {short(tags)}", o.where(), o.path_text)
            ok = len(internal) == len(wi)
            for a, b in zip(internal, wi):
                if not (isinstance(a, S) and a.args and a.args[0] == b and (a.op == "removeprefix" and a.args[1] == K(INTERNAL) or a.op == "slice" and a.args[1] == K(len(INTERNAL)))):
                    ok = False if a == b or ok is False else None
            ctx.check("result", "internal tags", ok, f"the internal tags are {short(internal)}", o.where(), o.path_text)
        s = o.snap(o.get(o.value, "subtype"))
        sub = attr(PARSER, "subtype")
        if o.st.facts.get(S("isnone", (sub,))) is True or o.st.facts.get(S("truth", (sub,))) is False:
            ctx.check("result", "subtype", s == NONE, f"the subtype is {short(s)}", o.where(), o.path_text)
        else:
            ctx.check("result", "subtype", s == attr(sub, "value") or (None if depends(s, sub) else False), f"the subtype is {short(s)}", o.where(), o.path_text)
