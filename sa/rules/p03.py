from ..absint import K, NONE, R, S
from ..model import attr, depends, short
from .elements import Elements, PARSER

PROPERTY = {
    "id": "P03",
    "title": "Arguments, labels and controls attach to exactly the next element",
    "statement": "Boxed arguments and labels written before an element are attached to that element (header, paragraph, list, block, horizontal rule or include) with nothing lost or mixed up, and are then consumed, so no later element ever receives them again. Empty lines, variable definitions and the definition of another annotation between them and the element leave pending arguments, labels and control untouched. Attached labels become children of the element.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every document, every sequence of annotations and elements, every path through the function that builds each element kind",
    },
    "why_tests_cant": "The unit tests check one annotation before one element of each kind; whether the pending annotations are consumed on every path (nested engines, early returns, missing content, grouped blocks, footnotes) is a universally quantified fact about all paths and all later elements.",
    "anchors": {
        "files": ["mau/parsers/document_parser.py", "mau/parsers/document_processors/*.py", "mau/parsers/buffers/*.py"],
        "state": [
            {"name": "arguments buffer, label buffer, control buffer", "meaning": "annotations waiting for the next element", "where": "DocumentParser.__init__"},
        ],
        "mechanism": [
            {"name": "pop_or_default / pop / pop_labels", "where": "mau/parsers/buffers, mau/parsers/document_parser.py"},
        ],
        "observe_at": ["node.arguments", "node.labels"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: typestate of the annotation buffers and provenance of node fields on every path"
LEVEL_NOTE = "Every path of every document level processing function, explored abstractly with all callees inlined; parsing of nested text is summarised. Undecided constructs are reported as such in the evidence and do not raise an alarm."
EXPLANATION = "Each processing function of the document parser is evaluated abstractly from an arbitrary parser state; for every outcome that puts a node in the document the final state of the annotation buffers is compared with 'empty' and each field of the node's arguments and labels is traced to the pending annotations; outcomes that produce no element must leave pending annotations untouched."
ASSUMPTIONS = [
    "nested parsers are independent objects (summarised by the result of lex_and_parse)",
    "attribute access on nodes has no side effect other than the ones visible in the class source",
]

FIELDS = ("unnamed_args", "named_args", "tags", "internal_tags", "subtype")


def check(ctx):
    el = Elements(ctx)
    kinds = set()
    for i, name, outs in el:
        for o in outs:
            if o.exc:
                continue
            sinks = el.sinks(o)
            if sinks:
                for k in ("arguments", "labels", "control"):
                    ctx.check(
                        "consumed", f"{name}:{k}", el.emptied(o, k),
                        f"{name} adds an element to the document but pending {k} survive it", o.where(), o.path_text,
                    )
                for kind, v in sinks:
                    c = o.cls(v)
                    if c is None:
                        ctx.check("attached", f"{name}:?", None, "unknown node")
                        continue
                    kinds.add(c.name)
                    labels(ctx, el, o, name, kind, v)
                    if kind != "footnote":
                        arguments(ctx, el, o, name, v)
            elif el.excluded(o):
                for k in ("arguments", "labels", "control"):
                    ctx.check(
                        "consumed-excluded", f"{name}:{k}", el.emptied(o, k),
                        f"{name} excludes the element but pending {k} survive it and reach the next element", o.where(), o.path_text,
                    )
            else:
                kept(ctx, el, o, name)
    ctx.need("coverage", "elements", len(kinds) >= 6, f"only {sorted(kinds)} element kinds were produced")


def labels(ctx, el, o, name, kind, v):
    got = o.get(v, "labels")
    cons = f"{name}:{o.cls(v).name}"
    deep = o.snap(got)
    ob = o.obj(got)
    ok = deep == el.labels0 or depends(o.deep(got, 1), el.labels0)
    if not ok and ob is not None and ob.kind == "dict" and not ob.parts:
        # an empty dictionary is right only when nothing was pending
        ok = o.st.facts.get(S("truth", (el.labels0,))) is False
    ctx.check("labels-attached", cons, ok, f"labels pending before the {o.cls(v).name} are not attached to it (labels = {short(deep)})", o.where(), o.path_text)
    # each label becomes a child of the node
    if deep == el.labels0 and kind != "footnote":
        lab = S("val", (el.labels0,))
        par = None
        for oid, h in o.st.heap.items():
            if h.path == lab and h.get("parent") is not None:
                par = h.get("parent")
        ok = None
        if par is not None:
            ok = par == v or (isinstance(par, R) and par.oid == getattr(v, "oid", None))
        else:
            # no assignment at all to the parent of the labels on this path
            sets = [e for e in o.events("set") if e.data[1] == "parent" and depends(e.data[0], el.labels0)]
            ok = False if not sets else None
        ctx.check("labels-parent", cons, ok, f"labels attached to the {o.cls(v).name} do not become its children", o.where(), o.path_text)


def arguments(ctx, el, o, name, v):
    node_args = o.get(v, "arguments")
    cons = f"{name}:{o.cls(v).name}"
    pending = o.st.facts.get(S("isnone", (el.args0,)))
    if o.st.facts.get(S("truth", (el.args0,))) is False:
        pending = True
    if pending is None:
        tested = any(depends(k, el.args0) for k in o.st.facts)
        pending = False if not tested else None
    src = None
    if pending is False:
        src = el.args0
    elif pending is True:
        # inline arguments, if any
        for e in o.events("parse"):
            if e.data[0] == "ArgumentsParser":
                src = "inline"
    if src is None:
        ctx.check("arguments-default", cons, o.obj(node_args) is not None or isinstance(node_args, S), "no arguments object", o.where(), o.path_text)
        return
    for f in FIELDS:
        val = o.get(node_args, f)
        t = o.deep(val, 3)
        if src == "inline":
            ok = depends(t, lambda x: isinstance(x, S) and x.op == "parsed" and x.args[0] == "ArgumentsParser") and mentions_field(t, f)
        else:
            ok = depends(t, attr(el.args0, f))
        ctx.check("arguments-attached", f"{cons}:{f}", ok, f"{f} of the arguments given to the {o.cls(v).name} does not come from the pending arguments (it is {short(t)})", o.where(), o.path_text)
        if f in ("tags", "internal_tags", "subtype"):
            wrong = [g for g in FIELDS if g != f and depends(t, lambda x, g=g: isinstance(x, S) and x.op == "attr" and x.args[1] == g)]
            ctx.check("arguments-mixed", f"{cons}:{f}", not wrong, f"{f} of the {o.cls(v).name} is computed from {wrong}", o.where(), o.path_text)


def mentions_field(t, f):
    return depends(t, lambda x: isinstance(x, S) and x.op == "attr" and x.args[1] == f)


def kept(ctx, el, o, name):
    changed = [k for k in ("arguments", "labels", "control") if not el.untouched(o, k)]
    # at most one annotation is defined, and it must be a new value
    for k in ("arguments", "labels", "control"):
        if k not in changed:
            ctx.check("kept", f"{name}:{k}", True)
            continue
        pushed = False
        if k == "labels":
            ps = o.added(el.labels_final(o), el.labels0)
            pushed = ps is None or len(ps) > 0
            if ps is None:
                ob = o.obj(el.labels_final(o))
                pushed = bool(ob and ob.parts and depends(o.deep(el.labels_final(o), 1), el.labels0))
        else:
            v = el.args_final(o) if k == "arguments" else el.control_final(o)
            pushed = v != NONE
        ctx.check("kept", f"{name}:{k}", pushed and len(changed) == 1, f"{name} produces no element but changes the pending {' and '.join(changed)}", o.where(), o.path_text)
