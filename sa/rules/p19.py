"""P19: variables are defined and replaced as written."""

from __future__ import annotations

from ..absint import Budget, Cl, Enm, K, NONE, R, S, State, Tup
from ..model import client, interp, run, short, subterms, var
from . import documents
from .documents import EOL, Doc, Unclear, arguments, class_name, const, elements, include, programs

PROPERTY = {
    "id": "P19",
    "title": "Variables take the value written, and are replaced by the latest one",
    "statement": "`:NAME:VALUE` gives the variable NAME (dots make namespaces) the rest of that line, in which the variables mentioned are replaced by the values they have at that point, `:+NAME:` gives it `true` and `:-NAME:` gives it `false`, and a definition without value is an error; the value holds from there on, until it is defined again, and no other variable changes. Before any other processing every `{NAME}` in headers, paragraphs, labels, list items, boxed and inline arguments and values is replaced by the value, as a string, that the variable has at that point, and everything else keeps its text and order; an undefined variable is an error located at the mention. Text between backticks is left untouched, `\\{` and `\\}` give plain braces (any other backslash stays), `{{NAME}}` gives `{NAME}` and braces or backticks without their closing one stay as they are.",
    "quantifier": {"over": ["inputs", "histories"], "text": "every text, every value of the variables, every sequence of definitions and uses"},
    "why_tests_cant": "Tests show some replacements; that each place replaces variables, with the latest value, and that the rest of the text survives depends on every text and on every sequence of definitions.",
    "anchors": {
        "files": ["mau/parsers/preprocess_variables_parser.py", "mau/parsers/document_processors/variable_definition.py", "mau/parsers/document_parser.py", "mau/parsers/arguments_parser.py"],
        "state": ["parser environment"],
        "mechanism": [{"name": "PreprocessVariablesParser", "where": "mau/parsers/preprocess_variables_parser.py"}, {"name": "variable_definition_processor", "where": "mau/parsers/document_processors/variable_definition.py"}],
        "observe_at": ["nodes of headers, paragraphs, labels, lists; arguments; environment of the document"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the variables parser and of the document parser on tokens with unknown texts and unknown values of the variables"
LEVEL_NOTE = "Which tokens a text gives is the business of the lexer (P15); here sequences of tokens of all the kinds are followed, with unknown texts and values, up to the text that comes out and up to the parser that receives it."
EXPLANATION = "The text given by the variables parser must be the concatenation called for by the tokens, and each text of a document must be given to the text or arguments parser only after the variables parser processed exactly that text with the environment of the document as it is at that point."
ASSUMPTIONS = ["the lexer of variables isolates braces, backticks and backslashes (P15)"]

HEAD = """
from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
from mau.message import BaseMessageHandler
from mau.environment.environment import Environment
from mau.text_buffer import Context
from mau.token import Token, TokenType
"""

SPECIAL = "\\`{}"


def piece(t):
    """(type, value) of a token written as text."""
    return ("LITERAL", t) if t in SPECIAL else ("TEXT", t)


class X:
    """The value of a variable, as a string."""

    def __init__(self, name, ty="str"):
        self.name = name


VALUES = [("x", "str"), ("n", "int"), ("l", "list")]
ENV = '{"v": x, "n": n, "l": l, "ns": {"k": x, "deep": {"er": n}}, "empty": "", "zero": 0, "no": False, "none": None, "a b": x}'

# tokens -> expected text: strings starting with $ are unknown texts,
# X(name) the value of that parameter as a string
CASES = [
    ("text", ["$a"], ["$a"]),
    ("variable", "{ v }", [X("x")]),
    ("variable in a text", ["$a", "{", "v", "}", "$b"], ["$a", X("x"), "$b"]),
    ("two variables", ["{", "v", "}", "{", "n", "}"], [X("x"), X("n")]),
    ("variables and texts", ["$a", "{", "n", "}", "$b", "{", "v", "}", "$c"], ["$a", X("n"), "$b", X("x"), "$c"]),
    ("same variable twice", ["{", "v", "}", "$a", "{", "v", "}"], [X("x"), "$a", X("x")]),
    ("namespace", "{ ns.k }", [X("x")]),
    ("deep namespace", ["$a", "{", "ns.deep.er", "}"], ["$a", X("n")]),
    ("list value", ["{", "l", "}", "$a"], [X("l"), "$a"]),
    ("empty value", ["$a", "{", "empty", "}", "$b"], ["$a", "$b"]),
    ("zero", ["{", "zero", "}"], ["0"]),
    ("false", ["{", "no", "}"], ["False"]),
    ("none", ["{", "none", "}"], ["None"]),
    ("name with spaces", ["{", "a b", "}"], [X("x")]),
    ("escaped braces", ["\\", "{", "v", "\\", "}"], ["{v}"]),
    ("escaped opening brace", ["$a", "\\", "{", "$b"], ["$a", "{", "$b"]),
    ("escaped closing brace", ["$a", "\\", "}", "$b"], ["$a", "}", "$b"]),
    ("backslash", ["$a", "\\", "text"], ["$a", "\\text"]),
    ("two backslashes", ["\\", "\\", "$a"], ["\\\\", "$a"]),
    ("escaped backslash before a variable", ["\\", "\\", "{", "v", "}"], ["\\\\", X("x")]),
    ("escaped backtick", ["\\", "`", "{", "v", "}"], ["\\`", X("x")]),
    ("escape and variable", ["\\", "{", "$a", "{", "v", "}"], ["{", "$a", X("x")]),
    ("verbatim", ["`", "$a", "`"], ["`", "$a", "`"]),
    ("verbatim with a variable", ["`", "{", "v", "}", "`"], ["`{v}`"]),
    ("verbatim with a variable in a text", ["$a", "`", "$b", "{", "v", "}", "`", "{", "v", "}"], ["$a", "`", "$b", "{v}`", X("x")]),
    ("verbatim with escapes", ["`", "\\", "{", "$a", "`"], ["`\\{", "$a", "`"]),
    ("verbatim with an escaped backtick", ["`", "$a", "\\", "`", "$b", "`"], ["`", "$a", "\\`", "$b", "`"]),
    ("two verbatim", ["`", "$a", "`", "{", "v", "}", "`", "$b", "`"], ["`", "$a", "`", X("x"), "`", "$b", "`"]),
    ("double braces", ["{", "{", "v", "}", "}"], ["{v}"]),
    ("double braces in a text", ["$a", "{", "{", "$b", "}", "}", "$c"], ["$a", "{", "$b", "}", "$c"]),
    ("double braces and a variable", ["{", "{", "v", "}", "}", "{", "v", "}"], ["{v}", X("x")]),
    ("brace left open", ["$a", "{", "$b"], ["$a", "{", "$b"]),
    ("brace never opened", ["$a", "}", "$b"], ["$a", "}", "$b"]),
    ("backtick left open", ["$a", "`", "$b", "{", "v", "}"], ["$a", "`", "$b", X("x")]),
    ("only a brace", ["{"], ["{"]),
    ("only a backtick", ["`"], ["`"]),
    ("variable, then a brace left open", ["{", "v", "}", "{", "$a"], [X("x"), "{", "$a"]),
]
ERRORS = [
    ("undefined", ["$a", "{", "w", "}"], 1, 3),
    ("undefined, first", ["{", "w", "}", "$a"], 0, 2),
    ("empty name", ["{", "}"], 0, 1),
    ("name of a namespace in another", ["{", "k", "}"], 0, 2),
    ("braces", ["{", "{", "$a", "}", "$b"], None, None),
]


def tokens_of(case):
    return [piece(t) for t in (case.split() if isinstance(case, str) else case)]


WIDTH = 5


def source(fname, toks):
    names = []
    for t, v in toks:
        if v.startswith("$") and v[1:] not in names:
            names.append(v[1:])
    params = [n + ": str" for n in names] + [f"{n}: {t}" for n, t in VALUES] + ["handler: BaseMessageHandler"]
    out = [f"def {fname}({', '.join(params)}):", "    environment = Environment()", f"    environment.dupdate({ENV})", "    tokens = []"]
    for i, (t, v) in enumerate(toks):
        val = v[1:] if v.startswith("$") else repr(v)
        out.append(f"    tokens.append(Token(TokenType.{t}, {val}, Context(3, {i * 10}, 3, {i * 10 + WIDTH}, 'main.mau')))")
    n = len(toks)
    out.append(f"    tokens.append(Token(TokenType.EOF, '', Context(3, {n * 10}, 3, {n * 10}, 'main.mau')))")
    out += ["    parser = PreprocessVariablesParser(tokens, handler, environment)", "    parser.parse()", "    return parser.get_processed_text()"]
    return "\n".join(out) + "\n"


def flat(v):
    """A text as a list of constant and named pieces, merged."""
    if isinstance(v, S) and v.op in ("fstr", "add", "concat"):
        items = [x for a in v.args for x in flat(a)]
    elif isinstance(v, K):
        if not isinstance(v.v, str):
            raise Unclear(short(v))
        items = [v.v] if v.v else []
    elif isinstance(v, S) and v.op == "var":
        items = [("var", v.args[0])]
    elif isinstance(v, S) and v.op == "str" and isinstance(v.args[0], S) and v.args[0].op == "var":
        items = [("str", v.args[0].args[0])]
    elif isinstance(v, S) and v.op in ("strip", "lstrip", "rstrip", "repr", "lower", "upper", "replace", "slice", "title", "escape") and isinstance(v.args[0], S):
        # not the value itself
        items = [(v.op,) + tuple(flat(v.args[0]))]
    elif isinstance(v, S) and v.op == "pure" and isinstance(v.args[0], str):
        items = [("var?", v.args[0]) if v.args[0] == "str" else (v.args[0],) + tuple(flat(v.args[1]))]
    elif isinstance(v, S) and v.op == "join" and isinstance(v.args[0], K) and isinstance(v.args[1], S) and v.args[1].op in ("list", "tuple") and all(isinstance(q, tuple) and q[0] == "item" for q in v.args[1].args):
        items = []
        for i, q in enumerate(v.args[1].args):
            if i and v.args[0].v:
                items.append(v.args[0].v)
            items += flat(q[1])
    else:
        raise Unclear(short(v))
    return merge(items)


def merge(items):
    out = []
    for x in items:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def wanted(exp):
    out = []
    for x in exp:
        if isinstance(x, X):
            # the string of a string is the string itself
            out.append(("var" if dict(VALUES)[x.name] == "str" else "str", x.name))
        elif x.startswith("$"):
            out.append(("var", x[1:]))
        else:
            out.append(x)
    return merge(out)


def show(items):
    return " + ".join(repr(x) if isinstance(x, str) else " ".join(map(str, x)) for x in items) or "''"


def replacement(ctx):
    prog = ctx.prog
    src = HEAD
    for i, (n, toks, exp) in enumerate(CASES):
        src += "\n" + source(f"case_{i}", tokens_of(toks))
    for i, (n, toks, a, b) in enumerate(ERRORS):
        src += "\n" + source(f"error_{i}", tokens_of(toks))
    fs = client(prog, src, "variables")
    for i, (n, toks, exp) in enumerate(CASES):
        for o in outcomes(ctx, "replaced", n, fs[f"case_{i}"]):
            if o.exc is not None:
                ctx.check("replaced", n, False, f"{o.exc_name} is raised", o.where(), o.path_text)
                continue
            try:
                got = flat(o.snap(o.get(o.value, "value")))
            except Unclear as exc:
                ctx.check("replaced", n, None, str(exc), o.where())
                continue
            w = wanted(exp)
            ctx.check("replaced", n, got == w, f"the text is {show(got)} instead of {show(w)}", o.where(), o.path_text)
    for i, (n, toks, a, b) in enumerate(ERRORS):
        for o in outcomes(ctx, "undefined", n, fs[f"error_{i}"]):
            if o.exc is None:
                ctx.check("undefined", n, False, "no error is raised", o.where(), o.path_text)
                continue
            if o.exc_name != "MauException":
                ctx.check("undefined", n, False, f"{o.exc_name} is raised", o.where(), o.path_text)
                continue
            if a is None:
                ctx.check("undefined", n, True)
                continue
            located(ctx, n, o, a, b)


def located(ctx, n, o, a, b):
    want = (3, a * 10, 3, b * 10 + WIDTH, "main.mau")
    c = o.get(o.st.exc.value, "message", "context") if o.st.exc.value is not None else None
    try:
        got = tuple(const(o, o.get(c, k)) for k in ("start_line", "start_column", "end_line", "end_column", "source"))
    except Unclear as exc:
        if c is not None and o.snap(c) == NONE:
            ctx.check("located", n, False, "the error has no position", o.where(), o.path_text)
        else:
            ctx.check("located", n, None, str(exc), o.where())
        return
    ctx.check("located", n, got == want, f"the error is located at {got} instead of {want}", o.where(), o.path_text)


def outcomes(ctx, rule, cons, fi):
    ip = interp(ctx.prog, {}, base={}, raise_mode=True, unroll=10)
    st = State()
    for a in fi.node.args.args:
        if a.arg not in ("handler",) and a.annotation is not None and getattr(a.annotation, "id", "") == "str" and a.arg not in dict(VALUES):
            st.facts[S("truth", (S("var", (a.arg,)),))] = True
    try:
        outs = run(ip, fi, state=st)
    except Budget as exc:
        ctx.saw(ip)
        ctx.check(rule, cons, None, str(exc))
        return []
    ctx.saw(ip)
    ctx.paths += len(outs)
    ctx.need("coverage", f"{rule} {cons}", bool(outs), "no outcome")
    for exc, desc, f, nd, where, stack, facts in ip.partials:
        ctx.check(rule, cons, None, f"{exc}: {desc}", where)
    return outs


def whole(ctx):
    """The text given back contains all the nodes."""
    prog = ctx.prog
    ip = interp(prog, {}, base={})
    fi = prog.method("PreprocessVariablesParser", "get_processed_text")
    outs = run(ip, fi, self_cls=prog.cls("PreprocessVariablesParser"))
    ctx.saw(ip)
    nodes = S("attr", (var("self"), "nodes"))
    seen = False
    for o in outs:
        if o.exc is not None:
            continue
        v = o.snap(o.get(o.value, "value"))
        if isinstance(v, S) and v.op == "join" and v.args[0] != K(""):
            ctx.check("whole text", "get_processed_text", False, f"the nodes are joined by {short(v.args[0])}", o.where(), o.path_text)
            continue
        if any(isinstance(t, S) and t.op == "slice" and any(x == nodes for x in subterms(t)) for t in subterms(v)):
            ctx.check("whole text", "get_processed_text", False, f"the text comes from {short(v)}", o.where(), o.path_text)
            continue
        for t in subterms(v):
            if isinstance(t, S) and t.op == "list" and len(t.args) == 1 and t.args[0][0] == "each" and t.args[0][1] == nodes:
                seen = True
                for facts, parts in t.args[0][2]:
                    empty = any(pol is False and isinstance(f, S) and f.op == "truth" and "value" in short(f) for f, pol in facts)
                    ctx.check("whole text", "get_processed_text", bool(parts) or empty, f"a node is left out when {short(facts)}", o.where(), o.path_text)
    ctx.check("whole text", "get_processed_text", seen or None, "")


# ------------------------------------------------------------ in documents
def replaced(ip, st, fi, args, kwargs, node):
    """get_processed_text: the replaced text, under the environment's view of
    the variable `v` when it is replaced."""
    o = st.heap.get(args[0].oid) if isinstance(args[0], R) else None
    val = o.get(documents.TEXT) if o is not None else None
    if val is None:
        return NotImplemented
    tt = ip.p.cls("TokenType")
    ctx = ip.lazy_obj(st, "Context", S("context", (val,)))
    env = o.get("environment")
    out = []
    if env is None or isinstance(env, K):
        pairs = [(st, None)]
    else:
        pairs = ip.call(st, prog_method(ip, "Environment", "get"), [env, K("v"), K("-")], {}, node)
    for s2, v in pairs:
        val2 = S("replaced", (ip.snap(s2, val), ip.snap(s2, v) if v is not None else K("?")), ("str",))
        # a text that is not empty, whose value is not empty
        s2.facts[S("truth", (val2,))] = True
        out.extend(ip.call(s2, Cl(ip.p.cls("Token")), [Enm(tt, "TEXT"), val2, ctx], {}, node))
    return out


def prog_method(ip, c, m):
    from ..absint import Fn

    return Fn(ip.p.method(c, m))


def arguments_parsed(ip, st, fi, args, kwargs, node):
    """ArgumentsParser.arguments: one unnamed argument, the whole text."""
    o = st.heap.get(args[0].oid) if isinstance(args[0], R) else None
    val = o.get(documents.TEXT) if o is not None else None
    if val is None:
        return NotImplemented
    kw = {"unnamed_args": ip.new_list(st, (("item", val),)), "named_args": ip.new_list(st, (), "dict")}
    return ip.call(st, Cl(ip.p.cls("NodeArguments")), [], kw, node)


def rtext(t):
    """A text as seen by a parser: (text, value of v when it was replaced)."""
    if isinstance(t, S) and t.op == "replaced":
        return ("replaced", plain(t.args[0]), plain(t.args[1]))
    return ("plain", plain(t))


def plain(t):
    if isinstance(t, K):
        return t.v
    if isinstance(t, S) and t.op == "var":
        return "$" + t.args[0]
    if isinstance(t, S) and t.op == "replaced":
        return rtext(t)
    if isinstance(t, S) and t.op == "fstr":
        return tuple(plain(x) for x in t.args)
    raise Unclear(short(t))


PARSERS = ("TextParser", "ArgumentsParser")


def definition(name, value=None):
    return [("VARIABLE", ":"), ("TEXT", name), ("LITERAL", ":")] + ([("TEXT", value)] if value else [])


def para(t):
    return [("TEXT", t)]


# name, lines, the texts the text and arguments parsers receive
DEF = definition("v", "$x")
XV = ("replaced", "$x", "-")


def uses():
    def at(t, v=XV):
        return ("replaced", t, v)

    yield "paragraph", [DEF, para("$a"), [EOL]], [("TextParser", at("$a"))]
    yield "paragraph of two lines", [DEF, para("$a"), para("$b"), [EOL]], [("TextParser", at("$a")), ("TextParser", at("$b"))]
    yield "header", [DEF, [("HEADER", "=="), ("TEXT", "$a")]], [("TextParser", at("$a"))]
    yield "label", [DEF, [("LABEL", ".role"), ("TEXT", "$a")], para("$b"), [EOL]], [("TextParser", at("$a")), ("TextParser", at("$b"))]
    yield "list", [DEF, [("LIST", "*"), ("TEXT", "$a")], [("LIST", "**"), ("TEXT", "$b")], [("LIST", "*"), ("TEXT", "$c")], [EOL]], [("TextParser", at("$a")), ("TextParser", at("$b")), ("TextParser", at("$c"))]
    yield "boxed arguments", [DEF, arguments("$a"), para("$b"), [EOL]], [("ArgumentsParser", at("$a")), ("TextParser", at("$b"))]
    yield "inline arguments", [DEF, include("custom", "$a")], [("ArgumentsParser", at("$a"))]
    yield "before the definition", [para("$a"), [EOL], DEF, para("$b"), [EOL]], [("TextParser", at("$a", "-")), ("TextParser", at("$b"))]
    yield "defined again", [DEF, para("$a"), [EOL], definition("v", "$y"), para("$b"), [EOL], para("$c"), [EOL]], [("TextParser", at("$a")), ("TextParser", at("$b", ("replaced", "$y", XV))), ("TextParser", at("$c", ("replaced", "$y", XV)))]
    yield "defined between arguments and element", [arguments("$a"), DEF, para("$b"), [EOL]], [("ArgumentsParser", at("$a", "-")), ("TextParser", at("$b"))]
    yield "defined between label and element", [[("LABEL", "."), ("TEXT", "$a")], DEF, para("$b"), [EOL]], [("TextParser", at("$a", "-")), ("TextParser", at("$b"))]
    yield "flag", [definition("+v"), para("$a"), [EOL]], [("TextParser", at("$a", "true"))]
    yield "negative flag", [definition("-v"), para("$a"), [EOL]], [("TextParser", at("$a", "false"))]


def document(ctx):
    cases = list(uses())
    fs = programs(ctx.prog, {n: Doc(*ls, returns="parser.nodes") for n, ls, _ in cases})
    extra = {
        ctx.prog.method("PreprocessVariablesParser", "get_processed_text").full: replaced,
        ctx.prog.method("ArgumentsParser", "arguments").full: arguments_parsed,
    }
    for n, ls, want in cases:
        ip, outs = documents.explore(ctx, fs[n], extra)
        if outs is None:
            ctx.check("used", n, None, "out of budget")
            continue
        ctx.need("coverage", n, bool(outs), "no outcome")
        for o in outs:
            if o.exc is not None:
                ctx.check("used", n, False, f"{o.exc_name} is raised", o.where(), o.path_text)
                continue
            try:
                got = [(e.data[0], rtext(e.data[1])) for e in o.events("nested") if e.data[0] in PARSERS]
            except Unclear as exc:
                ctx.check("used", n, None, str(exc), o.where())
                continue
            ctx.check("used", n, got == want, f"the parsers receive {got} instead of {want}", o.where(), o.path_text)


# ------------------------------------------------------------- definitions
DEFS = [
    # name, lines, {variable: value}, error
    ("value", [definition("v", "$x")], {"v": "$x"}),
    ("two variables", [definition("v", "$x"), definition("w", "$y")], {"v": "$x", "w": "$y"}),
    ("redefined", [definition("v", "$x"), definition("w", "$z"), definition("v", "$y")], {"v": "$y", "w": "$z"}),
    ("namespace", [definition("a.b", "$x"), definition("a.c", "$y"), definition("b", "$z")], {"a.b": "$x", "a.c": "$y", "b": "$z"}),
    ("flag", [definition("+v"), definition("-w")], {"v": "true", "w": "false"}),
    ("flag with a value", [definition("+v", "$x"), definition("-w", "$y")], {"v": "true", "w": "false"}),
    ("flag in a namespace", [definition("+a.v"), definition("-a.w")], {"a.v": "true", "a.w": "false"}),
    ("flag redefined", [definition("+v"), definition("-v")], {"v": "false"}),
    ("flag redefined with a value", [definition("-v"), definition("v", "$x")], {"v": "$x"}),
    ("flag before a paragraph", [definition("+v"), para("$a"), [EOL]], {"v": "true"}),
    ("negative flag before a paragraph", [definition("-v"), para("$a"), [EOL]], {"v": "false"}),
    ("value before a paragraph", [definition("v", "$x"), para("$a"), [EOL]], {"v": "$x"}),
    ("name with signs", [definition("a+b", "$x"), definition("a-b", "$y")], {"a+b": "$x", "a-b": "$y"}),
    ("flag with signs", [definition("-v-"), definition("+w+")], {"v-": "false", "w+": "true"}),
    ("one letter", [definition("+", "$x")], None),
]
FAIL = [
    ("no value", [definition("v")]),
    ("no value before an empty line", [definition("v"), [EOL]]),
    ("no value before a paragraph", [definition("v"), para("$a"), [EOL]]),
    ("no value before a header", [definition("v"), [("HEADER", "="), ("TEXT", "$a")]]),
    ("redefined without value", [definition("v", "$x"), definition("v"), para("$a"), [EOL]]),
]


def definitions(ctx):
    prog = ctx.prog
    names = {}
    for n, ls, want in DEFS:
        if want is not None:
            got = ", ".join(f"{k!r}: environment.get({k!r}, '-')" for k in ["v", "w", "a.b", "a.c", "a.v", "a.w", "b", "a+b", "a-b", "+v", "-v", "+a.v", "v-", "w+"])
            names[n] = Doc(*ls, env='{"other": "same"}', returns="({" + got + ", 'other': environment.get('other', '-')}, parser.nodes)")
    fs = programs(prog, names)
    for n, ls, want in DEFS:
        if want is None:
            continue
        ip, outs = documents.explore(ctx, fs[n])
        for o in outs or ():
            if o.exc is not None:
                ctx.check("defined", n, False, f"{o.exc_name} is raised", o.where(), o.path_text)
                continue
            try:
                got = const(o, o.value.items[0])
            except (Unclear, AttributeError) as exc:
                ctx.check("defined", n, None, str(exc), o.where())
                continue
            full = {k: want.get(k, "-") for k in got}
            full["other"] = "same"
            diff = {k: (got[k], full[k]) for k in got if got[k] != full[k]}
            ctx.check("defined", n, not diff, "; ".join(f"{k} is {a!r} instead of {b!r}" for k, (a, b) in diff.items()), o.where(), o.path_text)
            # the following text is still there
            texts = [v for ln in ls for t, v in ln if v.startswith("$") and t == "TEXT" and len(ln) == 1]
            try:
                ps = [class_name(o, x) for x in elements(o, o.value.items[1])]
                ctx.check("following text", n, len(ps) == len(texts), f"{len(ps)} element(s) instead of {len(texts)}", o.where(), o.path_text)
            except Unclear as exc:
                ctx.check("following text", n, None, str(exc), o.where())
        if outs is None:
            ctx.check("defined", n, None, "out of budget")
    fs = programs(prog, {n: Doc(*ls, returns="parser.nodes") for n, ls in FAIL})
    for n, ls in FAIL:
        ip, outs = documents.explore(ctx, fs[n])
        for o in outs or ():
            if o.exc is None:
                ctx.check("no value", n, False, "no error is raised", o.where(), o.path_text)
            else:
                ctx.check("no value", n, o.exc_name == "MauException", f"{o.exc_name} is raised", o.where(), o.path_text)
        if outs is None:
            ctx.check("no value", n, None, "out of budget")


def check(ctx):
    replacement(ctx)
    whole(ctx)
    document(ctx)
    definitions(ctx)
