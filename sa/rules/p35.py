from ..absint import Enm, K, NONE, S
from ..model import attr, depends, short, subterms
from .texts import PARSER, SETNAMES, Texts, arg_value, changed, mentions, missing, named_arg

PROPERTY = {
    "id": "P35",
    "title": "A conditional macro is replaced by the text of the selected case, all of it",
    "statement": "`[if:VARIABLE==VALUE](true_case, false_case)` is replaced by all the nodes of true_case when the current value of the variable equals VALUE (with `!=`: when it differs) and by those of false_case otherwise, or by nothing when there is no false_case; `ifeval` does the same with the value, as a string, of the variable named by the selected case. The text is parsed as inline text with the same variables, at the position of the selected case, and the other case has no influence. Located errors are raised for any other operator, an undefined variable, a lack of true_case and an ifeval whose selected case is missing.",
    "quantifier": {"over": ["inputs", "configurations"], "text": "every condition, every environment, every pair of cases"},
    "why_tests_cant": "Tests evaluate a handful of conditions; the claim covers every combination of operator, comparison, verdict and presence of the cases.",
    "anchors": {
        "files": ["mau/parsers/text_parser.py", "mau/parsers/buffers/control_buffer.py"],
        "state": [{"name": "environment", "meaning": "variables", "where": "mau/environment/environment.py"}],
        "mechanism": [{"name": "Control.process", "where": "mau/parsers/buffers/control_buffer.py"}],
        "observe_at": ["nodes of the document", "MauException"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the inline parser: case analysis on the path facts (operator, comparison, equality, presence of the cases) and provenance of the parsed text"
LEVEL_NOTE = "How arguments receive their names is decided by P29; the syntax of conditions is not part of this rule."
EXPLANATION = "Every abstract outcome of a control macro is classified by operator and verdict from its path facts; its result must be exactly the nodes parsed from the selected argument (or from the value of the variable it names), and its errors are compared with the ones the property allows."
ASSUMPTIONS = []


def is_env(t):
    return t == attr(PARSER, "environment") or depends(t, attr(PARSER, "environment"))


def envvar(t):
    """Key of a lookup in the environment of the parser."""
    if isinstance(t, S) and t.op == "envvar" and is_env(t.args[0]):
        return t.args[1]
    return None


def cond(t):
    """Field of the condition mentioned by the term."""
    if isinstance(t, S) and t.op == "attr" and t.args[1] in ("variable", "comparison", "value") and isinstance(t.args[0], S) and t.args[0].op == "attr" and t.args[0].args[1] == "condition_node":
        return t.args[1]
    return None


def from_name(t):
    """Part of the name of the macro before (0) or after (1) the colon."""
    if isinstance(t, S) and t.op in ("at", "getitem") and isinstance(t.args[1], K) and isinstance(t.args[0], S) and t.args[0].op in ("split", "partition", "rsplit", "rpartition"):
        sep = t.args[0].args[1:2]
        if sep == (K(":"),):
            i = t.args[1].v
            if t.args[0].op.endswith("partition"):
                i = {0: 0, 2: 1}.get(i)
            return i
    return None


def classify(o):
    """(operators, comparison, equal, facts are complete)"""
    ops, eqop, comp, equal = None, {}, None, None
    neg = set()
    for k, v in o.st.facts.items():
        if not isinstance(k, S):
            continue
        if k.op == "in" and from_name(k.args[0]) == 0 and isinstance(k.args[1], S) and k.args[1].op == "oneof" and v:
            ops = {a.v for a in k.args[1].args if isinstance(a, K)}
        if k.op == "eq" and len(k.args) == 2:
            a, b = k.args
            for x, y in ((a, b), (b, a)):
                if isinstance(x, K) and from_name(y) == 0:
                    eqop[x.v] = v
                if cond(y) == "comparison" and isinstance(x, (K, Enm)):
                    n = x.v if isinstance(x, K) else {"EQUAL_EQUAL": "==", "BANG_EQUAL": "!="}.get(x.name)
                    if v:
                        comp = n
                    else:
                        neg.add(n)
                if envvar(x) is not None and (cond(y) or cond(envvar(x))):
                    if cond(envvar(x)) == "variable" and cond(y) == "value":
                        equal = v
                    elif cond(y) and cond(envvar(x)):
                        equal = "wrong variable"
    pos = {n for n, v in eqop.items() if v}
    if pos:
        ops = pos
    elif ops is not None:
        ops = ops - {n for n, v in eqop.items() if not v}
    if comp is None and len(neg) == 1:
        comp = {"==": "!=", "!=": "=="}.get(next(iter(neg)))
    return ops, comp, equal


def check(ctx):
    t = Texts(ctx, extra=SETNAMES)
    kinds = set()
    for o in t.outs:
        control = any(e.kind == "parse" and e.data[0] == "ConditionParser" for e in o.events("parse"))
        if not control:
            continue
        ops, comp, equal = classify(o)
        cn = [e for e in o.events("parse") if e.data[0] == "ConditionParser"][-1]
        b = dict(cn.data[1])
        ctx.check("condition", "text", True if from_name(b.get("text")) == 1 else None if depends(b.get("text"), lambda x: isinstance(x, S) and x.op == "tok") else False, f"the condition parsed is {short(b.get('text'))} and not what follows the operator", cn.where, o.path_text)
        if o.exc:
            if o.exc_name == "TokenError":
                continue
            errors(ctx, o, ops, comp, equal)
            continue
        ev = o.events("setnames")
        given = tuple(x for e in ev for x in (e.data[1] or ("?",)))
        ctx.check("order", "cases", None if not ev or "?" in given else given == ("true_case", "false_case"), f"positional arguments are named {given}", ev[0].where if ev else o.where(), o.path_text)
        if not ops or not ops <= {"if", "ifeval"}:
            ctx.check("operator", "known", None if not ops else False, f"the operators {sorted(ops or ())} are accepted", o.where(), o.path_text)
            if not ops or len(ops) > 1:
                continue
        if equal == "wrong variable":
            kinds.add(("?",))
            ctx.check("verdict", "variable", False, "the condition compares the value of another variable", o.where(), o.path_text)
            continue
        if comp not in ("==", "!=") or equal is None:
            tested = any(depends(k, lambda x: cond(x) == "value") for k in o.st.facts)
            ctx.check("verdict", "tested", None if tested else False, "the result does not depend on the condition", o.where(), o.path_text)
            continue
        case = "true_case" if equal == (comp == "==") else "false_case"
        kinds.add((tuple(sorted(ops)), comp, equal))
        if len(ops) == 1:
            result(ctx, o, next(iter(ops)), case)
        else:
            # the operator does not matter: nothing to evaluate
            ctx.check("result", f"any:{case}", missing(o, case) is True and o.items(o.value) == [], f"the operators {sorted(ops)} give the same result", o.where(), o.path_text)
    ctx.need("coverage", "controls", bool(kinds), "control macros not found")
    ctx.check("coverage", "verdicts", len({k[1:] for k in kinds}) == 4 or None, "", None)
    unlooked(ctx, t)


def unlooked(ctx, t):
    for o in t.outs:
        for e in o.events("envget"):
            if cond(e.data[1]) == "variable":
                ctx.check("undefined", "condition", False, "the variable of the condition is read with a default, so an undefined one is not an error", e.where, o.path_text)
            if arg_value(e.data[1]):
                ctx.check("undefined", "ifeval", False, "the variable to evaluate is read with a default, so an undefined one is not an error", e.where, o.path_text)
    ctx.check("undefined", "reads", True)


def errors(ctx, o, ops, comp, equal):
    ctx.check("errors", "MauException", o.exc_name == "MauException", f"{o.exc_name} escapes from a control macro", o.exc_where, o.path_text)
    if o.exc_name != "MauException" or comp is None or equal not in (True, False) or not ops or len(ops) > 1:
        return
    if missing(o, "true_case") is True:
        return
    op = next(iter(ops))
    case = "true_case" if equal == (comp == "==") else "false_case"
    other = "false_case" if case == "true_case" else "true_case"
    if op == "if":
        ctx.check("spurious", "if", False, "a macro whose condition can be evaluated is refused", o.exc_where, o.path_text)
        return
    infl = [k for k in o.st.facts if mentions(k, other) and k.op != "unpacks" and not (other == "true_case")]
    ctx.check("spurious", "ifeval", not infl, f"the case {other}, which is not selected, causes an error", o.exc_where, o.path_text)


def result(ctx, o, op, case):
    cons = f"{op}:{case}"
    v = o.snap(o.value)
    m = missing(o, case)
    d = o.deep(o.value, 3)
    parsed = [x for x in subterms(d) if isinstance(x, S) and x.op == "parsed" and x.args[0] == "TextParser"]
    if m is True:
        if case == "true_case":
            ctx.check("result", cons, False, "the macro is accepted without true_case", o.where(), o.path_text)
        elif op == "ifeval":
            ctx.check("result", cons, False, "ifeval is accepted without the selected case", o.where(), o.path_text)
        else:
            its = o.items(o.value)
            ctx.check("result", cons + ":nothing", its == [] if its is not None else (False if parsed else None), f"without false_case the result is {short(d)}", o.where(), o.path_text)
        return
    if not parsed:
        if any(mentions(k, case) for k in o.st.facts):
            ok = None if m is None else False
        else:
            ok = False
        ctx.check("result", cons, ok, f"the result is {short(d)} and not the text of {case}", o.where(), o.path_text)
        return
    p = parsed[0]
    want = attr(p, "nodes")
    ok = v == want or d == want or d == S("list", (("rest", want),))
    if not ok:
        ok = None if depends(d, want) and not depends(d, lambda x: isinstance(x, S) and x.op in ("slice", "at", "getitem", "reversed") and depends(x.args[0], want)) else False
    ctx.check("result", cons, ok, f"the result is {short(d)} and not all the nodes of {case}", o.where(), o.path_text)
    b = dict(p.args[1])
    tx = b.get("text")
    if op == "if":
        a = arg_value(tx)
        ok = a == case if a is not None else (None if mentions(tx, case) and not changed(tx) and not depends(tx, lambda x: envvar(x) is not None and mentions(x, case)) else False)
    else:
        key = envvar(tx.args[0]) if isinstance(tx, S) and tx.op == "str" else (envvar(tx.args[0]) if isinstance(tx, S) and tx.op == "fstr" and len(tx.args) == 1 else envvar(tx))
        if key is not None:
            ok = arg_value(key) == case if arg_value(key) is not None else None
            ctx.check("string", cons, isinstance(tx, S) and tx.op in ("str", "fstr"), "the value of the variable is not turned into a string", o.where(), o.path_text)
        else:
            ok = None if depends(tx, lambda x: envvar(x) is not None) and mentions(tx, case) and not changed(tx) else False
    ctx.check("text", cons, ok, f"the text parsed is {short(tx)}", o.where(), o.path_text)
    for k, path in (("start_line", "start_line"), ("start_column", "start_column"), ("source_filename", "source")):
        t = b.get(k)
        ok = isinstance(t, S) and t.op == "attr" and t.args[1] == path and isinstance(t.args[0], S) and t.args[0].op == "attr" and t.args[0].args[1] == "context" and isinstance(t.args[0].args[0], S) and t.args[0].args[0].op == "attr" and named_arg(t.args[0].args[0].args[0]) == case
        ctx.check("position", f"{cons}:{k}", ok or (None if t is not None and mentions(t, case) and depends(t, lambda x: isinstance(x, S) and x.op == "attr" and x.args[1] == path) else False), f"the text is parsed with {k} {short(t)}", o.where(), o.path_text)
    e = b.get("environment")
    ctx.check("variables", cons, e == attr(PARSER, "environment") or (None if depends(e, attr(PARSER, "environment")) else False), f"the text is parsed with the variables {short(e)}", o.where(), o.path_text)
