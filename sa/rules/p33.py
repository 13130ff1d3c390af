from ..absint import K, NONE, R, S, State, Tup
from ..model import attr, depends, short, subterms
from .texts import PARSER, SETNAMES, Texts, arg_value, arguments_term, changed, isolated_arg, mentions, missing, named_arg

PROPERTY = {
    "id": "P33",
    "title": "The arguments of an inline macro become the fields of its node",
    "statement": "`[link](target, text)`, `[mailto](email, text)`, `[header](header_id, text)`, `[class](text, classes...)`, `[image](uri, alt_text, width, height)`, `[footnote](name)`, `[unicode](value)` and `[raw](value)` give one node of their type: each argument, given by position in this order or by name, becomes unchanged the corresponding field (the target of a mailto is prefixed with `mailto:`), an optional argument that is missing is None, and the lack of the first argument is an error. A text argument is parsed as inline text at its own position, with the same variables, and all its nodes become the content; without text, a link contains its own target. Any other name (not starting with `if`) gives a generic macro node with that name and all the arguments.",
    "quantifier": {"over": ["inputs"], "text": "every macro, every combination of positional and named arguments, every text"},
    "why_tests_cant": "Tests use a couple of combinations of arguments per macro; the claim is about every field on every path, including optional arguments in isolation.",
    "anchors": {
        "files": ["mau/parsers/text_parser.py", "mau/nodes/macro.py"],
        "state": [{"name": "ArgumentsParser", "meaning": "arguments of a macro", "where": "mau/parsers/arguments_parser.py"}],
        "mechanism": [{"name": "dispatch on the name of the macro", "where": "mau/parsers/text_parser.py"}],
        "observe_at": ["nodes of the document"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the inline parser from an arbitrary position: provenance of every field of the node built for each macro name"
LEVEL_NOTE = "How positional arguments receive names is decided by P29."
EXPLANATION = "Every outcome of parsing one inline element is classified by the macro name its path selected; fields are compared with the argument of the declared name, content with the nested parse of the text argument, and paths where the first argument is missing must raise a located error."
ASSUMPTIONS = []

SPEC = {
    "link": ("MacroLinkNode", ("target", "text"), {"target": ("target", "")}),
    "mailto": ("MacroLinkNode", ("email", "text"), {"target": ("email", "mailto:")}),
    "header": ("MacroHeaderNode", ("header_id", "text"), {"target_name": ("header_id", "")}),
    "class": ("MacroClassNode", ("text",), {}),
    "image": ("MacroImageNode", ("uri", "alt_text", "width", "height"), {k: (k, "") for k in ("uri", "alt_text", "width", "height")}),
    "footnote": ("MacroFootnoteNode", ("name",), {"name": ("name", "")}),
    "unicode": ("MacroUnicodeNode", ("value",), {"value": ("value", "")}),
    "raw": ("MacroRawNode", ("value",), {"value": ("value", "")}),
}
DEFAULT_TEXT = {"link": "target", "mailto": "email"}


def name_facts(o):
    """({name: polarity}, term of the name)."""
    res, term = {}, None
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "eq" and len(k.args) == 2:
            c = [a for a in k.args if isinstance(a, K) and isinstance(a.v, str)]
            t = [a for a in k.args if isinstance(a, S) and a.op == "attr" and a.args[1] == "value" and isinstance(a.args[0], S) and a.args[0].op == "tok"]
            if len(c) == 1 and len(t) == 1:
                res[c[0].v] = v
                term = t[0]
    return res, term


def check(ctx):
    t = Texts(ctx, extra=SETNAMES)
    seen = set()
    for o in t.outs:
        facts, term = name_facts(o)
        pos = [n for n, v in facts.items() if v]
        control = any(isinstance(k, S) and k.op in ("startswith",) and k.args[1:] == (K("if"),) and v for k, v in o.st.facts.items())
        name = pos[0] if len(pos) == 1 else None
        nodes = t.nodes(o) if not o.exc else None
        cls = [c.name for c in (o.cls(n) for n in nodes or ()) if c is not None]
        if name in SPEC:
            known(ctx, o, name, nodes, cls, seen, term)
        elif not o.exc and "MacroNode" in cls:
            generic(ctx, o, facts, nodes, seen)
        elif not o.exc and not control and any(c in [s[0] for s in SPEC.values()] for c in cls):
            ctx.check("name", cls[0], None, "unknown macro name")
    for name in SPEC:
        ctx.check("supported", f"[{name}]", name in seen or (None if not seen else False), f"the macro [{name}] is not supported: no path compares the name with {name!r}")
    ctx.check("supported", "generic", "generic" in seen or None, "")
    ctx.need("coverage", "macros", len(seen) >= 3, "macros not found")


def known(ctx, o, name, nodes, cls, seen, term):
    want, names, flds = SPEC[name]
    cons = f"[{name}]"
    first = missing(o, names[0])
    if o.exc:
        if o.exc_name == "TokenError":
            return
        ctx.check("error", cons, o.exc_name == "MauException", f"{o.exc_name} escapes from the macro", o.exc_where, o.path_text)
        if first is not True and o.exc_name == "MauException" and not any(e.kind == "parse" and e.data[0] == "TextParser" for e in o.events("parse")):
            if first is False:
                ctx.check("accepted", cons, False, "a macro with its mandatory argument is refused", o.exc_where, o.path_text)
        if first is True:
            ctx.check("mandatory", cons, True)
        return
    seen.add(name)
    if first is True:
        ctx.check("mandatory", cons, False, f"the macro is accepted without the argument {names[0]}", o.where(), o.path_text)
        return
    ctx.check("one-node", cons, len(nodes or ()) == 1 and cls == [want], f"the macro gives {cls or short(o.snap(o.value))}", o.where(), o.path_text)
    if cls != [want]:
        return
    n = nodes[0]
    ev = [e for e in o.events("setnames")]
    given = tuple(x for e in ev for x in (e.data[1] or ("?",)))
    ctx.check("order", cons, None if not ev or "?" in given else given == names, f"positional arguments are named {given} and not {names}", ev[0].where if ev else o.where(), o.path_text)
    for f, (a, prefix) in flds.items():
        field(ctx, o, cons, n, f, a, prefix, a == names[0])
    if name == "class":
        v = o.get(n, "classes")
        d = o.deep(v, 3)
        ok = None if depends(d, lambda x: isinstance(x, S) and x.op == "attr" and x.args[1] == "unnamed_argument_nodes") else False
        ps = o.parts(v)
        if ok is None and ps is not None and len(ps) == 1 and ps[0][0] == "each":
            src = ps[0][1]
            if isinstance(src, S) and src.op == "attr" and src.args[1] == "unnamed_argument_nodes":
                ok = all(len(sub) == 1 and sub[0][0] == "item" and o.snap(sub[0][1]) == attr(S("elem", (src,)), "value") for _, sub in ps[0][2])
            elif isinstance(src, S) and src.op == "slice":
                ok = False
        ctx.check("classes", cons, ok, f"the classes are {short(d)} and not all the remaining arguments", o.where(), o.path_text)
    if "text" in names:
        text(ctx, o, cons, name, n)


def field(ctx, o, cons, n, f, a, prefix, mandatory):
    v = o.get(n, f)
    t = o.snap(v)
    c = f"{cons}.{f}"
    if prefix:
        ok = None
        if isinstance(t, S) and t.op in ("fstr", "add", "concat"):
            flat = [x for x in t.args]
            ok = len(flat) == 2 and flat[0] == K(prefix) and arg_value(flat[1]) == a
        elif arg_value(t) is not None or isinstance(t, K) or not depends(t, lambda x: named_arg(x) == a or isolated_arg(x) == a):
            ok = False
        ctx.check("field", c, ok, f"{f} is {short(t)} and not the argument {a} after {prefix!r}", o.where(), o.path_text)
        return
    k = arg_value(t)
    if k is not None:
        ctx.check("field", c, k == a, f"{f} receives the argument {k} instead of {a}", o.where(), o.path_text)
        return
    if t == NONE:
        m = missing(o, a)
        if m is None and not any(mentions(k, a) for k in o.st.facts):
            m = False
        ctx.check("field", c, (m is True or (None if m is None else False)) if not mandatory else False, f"{f} is None although the argument {a} is given", o.where(), o.path_text)
        return
    if isinstance(t, K) or not depends(t, lambda x: named_arg(x) == a or isolated_arg(x) == a):
        ctx.check("field", c, False, f"{f} is {short(t)} and does not depend on the argument {a}", o.where(), o.path_text)
        return
    if isinstance(t, S) and t.op == "phi":
        vals = t.args[2:]
        ctx.check("field", c, all(x == NONE or arg_value(x) == a for x in vals) or None, f"{f} is {short(t)}", o.where(), o.path_text)
        return
    ctx.check("field", c, False if changed(t) else None, f"{f} is {short(t)} and not the unchanged argument {a}", o.where(), o.path_text)


def text(ctx, o, cons, name, n):
    m = missing(o, "text")
    content = o.get(n, "content")
    d = o.deep(content, 4)
    parsed = [x for x in subterms(d) if isinstance(x, S) and x.op == "parsed" and x.args[0] == "TextParser"]
    if m is True:
        if name in DEFAULT_TEXT:
            its = o.items(content)
            ok = None
            if its is not None:
                ok = len(its) == 1 and o.is_a(its[0], "TextNode") and arg_value(o.snap(o.get(its[0], "value"))) == DEFAULT_TEXT[name]
            ctx.check("default-text", cons, ok, f"without text, the content is {short(d)}", o.where(), o.path_text)
        else:
            ctx.check("default-text", cons, not parsed and not (o.items(content) or ()), f"without text, the content is {short(d)}", o.where(), o.path_text)
        return
    # the text is there
    if not parsed:
        ctx.check("text", cons, False, f"the content is {short(d)} and not the text of the macro", o.where(), o.path_text)
        return
    p = parsed[0]
    want = attr(p, "nodes")
    ok = o.snap(content) == want or d == want or d == S("list", (("rest", want),))
    if not ok:
        ok = None if depends(d, want) and not depends(d, lambda x: isinstance(x, S) and x.op in ("slice", "at", "getitem", "reversed") and depends(x.args[0], want)) else False
    ctx.check("text", cons, ok, f"the content is {short(d)} and not all the nodes of the text", o.where(), o.path_text)
    nested(ctx, o, cons, dict(p.args[1]), "text")


def nested(ctx, o, cons, b, arg):
    tx = b.get("text")
    ctx.check("text", cons + ":parsed", arg_value(tx) == arg if arg_value(tx) is not None or not depends(tx, lambda x: named_arg(x) == arg) else None, f"the text parsed is {short(tx)}", o.where(), o.path_text)
    for k, path in (("start_line", "start_line"), ("start_column", "start_column"), ("source_filename", "source")):
        t = b.get(k)
        ok = isinstance(t, S) and t.op == "attr" and t.args[1] == path and isinstance(t.args[0], S) and t.args[0].op == "attr" and t.args[0].args[1] == "context" and isinstance(t.args[0].args[0], S) and t.args[0].args[0].op == "attr" and named_arg(t.args[0].args[0].args[0]) == arg
        ctx.check("text-position", f"{cons}:{k}", ok or (None if t is not None and depends(t, lambda x: named_arg(x) == arg) and depends(t, lambda x: isinstance(x, S) and x.op == "attr" and x.args[1] == path) else False), f"the text is parsed with {k} {short(t)}", o.where(), o.path_text)
    ctx.check("text-variables", cons, b.get("environment") == attr(PARSER, "environment") or (None if depends(b.get("environment"), attr(PARSER, "environment")) else False), f"the text is parsed with the variables {short(b.get('environment'))}", o.where(), o.path_text)


def generic(ctx, o, facts, nodes, seen):
    seen.add("generic")
    pos = [n for n, v in facts.items() if v]
    ctx.check("generic", "MacroNode:known", not [p for p in pos if p in SPEC], f"[{pos}] gives a generic macro", o.where(), o.path_text)
    for n in nodes:
        if not (o.cls(n) and o.cls(n).name == "MacroNode"):
            continue
        t = o.snap(o.get(n, "name"))
        ctx.check("generic", "MacroNode.name", isinstance(t, S) and t.op == "attr" and t.args[1] == "value" and isinstance(t.args[0], S) and t.args[0].op == "tok", f"the name of a generic macro is {short(t)}", o.where(), o.path_text)
        a = o.snap(o.get(n, "arguments"))
        pt = arguments_term(a)
        ctx.check("generic", "MacroNode.arguments", isinstance(a, S) and a.op == "attr" and a.args[0] == pt and a.args[1] == "arguments", f"the arguments of a generic macro are {short(a)}", o.where(), o.path_text)
