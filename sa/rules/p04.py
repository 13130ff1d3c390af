from ..absint import K, NONE, R, S
from ..model import attr, depends, short
from .elements import Elements, PARSER

PROPERTY = {
    "id": "P04",
    "title": "A condition includes or excludes the whole next element, leaving no trace",
    "statement": "A control written before an element includes that element exactly when its comparison holds for the variable's current value (`==` when equal, `!=` when different), and an undefined variable is an error. An excluded element (header, paragraph, list, block, rule or include) is skipped as a whole: its tokens are consumed, its content is not parsed, no file is read, nothing is registered for footnotes, ToC, links or groups, and its pending annotations are discarded. Without a control, or with a true one, the element is always produced.",
    "quantifier": {"over": ["inputs", "configurations"], "text": "every element kind, every control and variable value, every path"},
    "why_tests_cant": "Tests sample one false condition per element and compare the output nodes; registrations in managers, side effects of parsing skipped content and the fate of annotations on each path are not observed.",
    "anchors": {
        "files": ["mau/parsers/document_processors/*.py", "mau/parsers/document_parser.py", "mau/parsers/buffers/control_buffer.py"],
        "state": [{"name": "control buffer", "meaning": "the pending control", "where": "DocumentParser.__init__"}],
        "mechanism": [{"name": "control check before the element is processed", "where": "mau/parsers/document_parser.py skip_element"}, {"name": "Control.process", "where": "mau/parsers/buffers/control_buffer.py"}],
        "observe_at": ["parser.nodes", "managers"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: path-sensitive effect analysis of every element processor on excluded and included paths"
LEVEL_NOTE = "All abstract paths of every document level processing function with the control evaluation inlined; the verdict of the condition is read from the facts on the comparison, so both the evaluation and its use are covered. Labels are parsed before the control is evaluated and are outside this rule."
EXPLANATION = "Every abstract outcome on which the pending control is evaluated is classified as excluded or included from the facts on the comparison operator and on the equality between the variable and the expected value; excluded outcomes must have no effect on the parser other than token consumption and clearing annotations, included ones must produce exactly one element."
ASSUMPTIONS = ["nested parsers are independent objects (summarised by the result of lex_and_parse)"]


def check(ctx):
    el = Elements(ctx)
    producers = set()
    for i, name, outs in el:
        if any(el.sinks(o) for o in outs if not o.exc):
            producers.add(i)
    ctx.need("coverage", "producers", len(producers) >= 6, "fewer than six element producing functions")
    for i, name, outs in el:
        if i not in producers:
            for o in outs:
                ctx.check("not-evaluated", name, el.excluded(o) is None, f"{name} produces no element but evaluates the pending control", o.where(), o.path_text)
            continue
        allow = [attr(PARSER, a, b) for a, b in ((el.a_args, "arguments"), (el.a_labels, "labels"), (el.a_control, "control"))]
        ends = {}
        skipped = included = 0
        for o in outs:
            ex = el.excluded(o)
            if ex:
                if o.exc_name == "TokenError":
                    continue
                skipped += 1
                ctx.check("skip-ok", name, o.exc is None, f"excluding the element raises {o.exc_name}", o.where(), o.path_text)
                if o.exc:
                    continue
                ctx.check("skip-result", name, o.value == K(True), f"after excluding the element {name} returns {short(o.value)} instead of True: other functions will process the rest of the element", o.where(), o.path_text)
                eff = el.effects(o, allow)
                ctx.check("skip-effect", name, not eff, f"the excluded element leaves a trace: {', '.join(short(e) for e in eff[:2])}", eff[0].where if eff else None, o.path_text)
                work = o.events("parse", "open", "call")
                work = [e for e in work if e.kind != "call" or "pars" in str(e.data[0])]
                ctx.check("skip-parse", name, not work, f"the content of the excluded element is processed: {', '.join(short(e) for e in work[:2])}", work[0].where if work else None, o.path_text)
                for k in ("arguments", "labels", "control"):
                    ctx.check("skip-annotations", f"{name}:{k}", el.emptied(o, k), f"pending {k} of the excluded element are not discarded", o.where(), o.path_text)
                ends.setdefault("skip", []).append(o)
            elif ex is False:
                if o.exc:
                    continue
                included += 1
                s = el.sinks(o)
                ctx.check("include", name, len(s) == 1, f"the condition holds but {len(s)} elements are produced", o.where(), o.path_text)
                ends.setdefault("keep", []).append(o)
            else:
                if o.exc:
                    continue
                hc = el.has_control(o)
                ctx.check("evaluated", name, True if hc is False else None if el.consults_control(o) else False, f"{name} produces an element without evaluating the pending control", o.where(), o.path_text)
                s = el.sinks(o)
                ctx.check("default", name, len(s) == 1, f"no control is pending but {len(s)} elements are produced", o.where(), o.path_text)
        ctx.check("skips", name, skipped > 0, f"{name} never excludes its element", None)
        ctx.check("includes", name, included > 0, f"{name} never includes its element when a control is pending", None)
        tokens(ctx, el, name, ends)
        undefined(ctx, el, name, outs)


def index(el, o):
    return o.snap(o.get(o.parser, el.a_tm, "index"))


def finite(t):
    return all(not (isinstance(x, S) and x.op in ("phi", "havoc", "unknown", "looped", "aftercollect")) for x in walk(t))


def walk(t):
    while True:
        yield t
        if isinstance(t, S) and t.args and isinstance(t.args[0], S):
            if t.op != "next" and t.op != "cur":
                return
            t = t.args[0]
        else:
            return


def tokens(ctx, el, name, ends):
    """An excluded element consumes the tokens an included one consumes."""
    keep = {index(el, o): o for o in ends.get("keep", [])}
    skip = {index(el, o): o for o in ends.get("skip", [])}
    if not keep or not skip:
        return
    if all(finite(t) and depth(t) is not None for t in list(keep) + list(skip)):
        # paths are compared under the same token facts
        ks = {tokfacts(o): depth(t) for t, o in ((index(el, o), o) for o in ends["keep"])}
        for o in ends["skip"]:
            t = depth(index(el, o))
            want = ks.get(tokfacts(o))
            if want is None:
                ok = t in set(ks.values()) or None
            else:
                ok = t == want
            ctx.check("skip-tokens", name, ok, f"excluding the element consumes {t} tokens, including it {want}", o.where(), o.path_text)
        return
    # repeated elements: both must stop on a token of a different type
    kt = {start_type(o) for o in ends["skip"]}
    for o in ends["skip"]:
        idx = index(el, o)
        first = start_type(o)
        ok = depth(idx) is None
        if ok and first is not None:
            ok = any(
                isinstance(k, S) and k.op == "tokis" and k.args[0] == idx and k.args[1] == first and v is False
                for k, v in o.st.facts.items()
            ) or len([1 for k, v in o.st.facts.items() if depends(k, lambda x: x == idx)]) > 0
        ctx.check("skip-tokens", name, ok, "excluding the element leaves some of its tokens behind", o.where(), o.path_text)


def depth(t):
    n = 0
    while isinstance(t, S) and t.op == "next":
        n += 1
        t = t.args[0]
    return n if isinstance(t, S) and t.op == "cur" else None


def tokfacts(o):
    return frozenset((k, v) for k, v in o.st.facts.items() if isinstance(k, S) and (k.op == "tokis" or depends(k, lambda x: isinstance(x, S) and x.op == "tok") and k.op == "eq" and not depends(k, lambda x: isinstance(x, S) and x.op == "parsed")))


def start_type(o):
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "tokis" and isinstance(k.args[0], S) and k.args[0].op == "cur" and v:
            return k.args[1]
    return None


def undefined(ctx, el, name, outs):
    """Comparing an undefined variable is an error, never a verdict."""
    var_ = attr(el.control0, "variable")
    looked = False
    for o in outs:
        for e in o.events("envget"):
            if e.data[1] == var_:
                looked = True
                ctx.check("undefined", name, False, "the variable of the control is read with a default, so an undefined variable is not reported", e.where, o.path_text)
    raised = [o for o in outs if o.exc_name == "MauException" and el.has_control(o) and el.excluded(o) is None]
    ctx.check("undefined", name, bool(raised), "an undefined variable in the control is not reported as an error", None)
    for o in outs:
        if o.exc_name == "KeyError":
            ctx.check("undefined", name, False, "an undefined variable in the control escapes as KeyError", o.where(), o.path_text)
