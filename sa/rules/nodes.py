"""The classes of the document tree and their fields."""

from __future__ import annotations

from ..absint import K, NONE, R, S, State, Tup
from ..loader import AnalysisBroken, ClassInfo
from ..model import Out, attr, depends, interp, run, short, subterms, var

BASIC = ("parent", "arguments", "info")
NODE = var("node")


class Field:
    """One field of a node class: `kind` is one of value, list (a list of
    values), node, nodes (sequence), nodedict; `link` is True for references
    to nodes that live elsewhere in the document."""

    def __init__(self, name, kind, link):
        self.name = name
        self.kind = kind
        self.link = link

    def __repr__(self):
        return f"{self.name}:{self.kind}{'(link)' if self.link else ''}"


def node_classes(prog, skip=()):
    base = prog.cls("Node")
    res = [c for c in prog.classes.values() if prog.is_subclass(c, base) and c.name not in skip and "test" not in c.module.name]
    res.sort(key=lambda c: c.full)
    if len(res) < 20:
        raise AnalysisBroken(f"only {len(res)} node classes found")
    return res


def fields(ctx, ci):
    """Fields set by the constructor, with the declared type of the parameter
    they receive."""
    prog = ctx.prog
    fi = prog.find_method(ci, "__init__")
    ip = interp(prog)
    outs = run(ip, fi, self_cls=ci.name, self_path="node")
    ctx.saw(ip)
    nodebase = prog.cls("Node")
    links = tuple(x for x in (prog.maybe_cls("HeaderNode"), prog.maybe_cls("FootnoteNode")) if x is not None)
    types = {a.arg: prog.parse_type(fi.module, a.annotation) for a in fi.node.args.args + fi.node.args.kwonlyargs}
    found = {}
    for o in outs:
        if o.exc:
            continue
        r = o.st.memo.get(NODE)
        for n, v in o.st.heap[r].attrs:
            if n in BASIC:
                continue
            t = o.deep(v, 3)
            ps = [p for p in types if depends(t, var(p))]
            if len(ps) == 1:
                found[n] = types[ps[0]]
            else:
                found.setdefault(n, None)
    res = []
    for n, ty in sorted(found.items()):
        if ty and ty[0] == "opt":
            ty = ty[1]
        kind, link = "value", False
        if ty and ty[0] == "cls" and prog.is_subclass(ty[1], nodebase):
            kind, link = "node", any(prog.is_subclass(ty[1], l) for l in links)
        elif ty and ty[0] == "list":
            e = ty[1]
            kind = "nodes" if e and e[0] == "cls" and prog.is_subclass(e[1], nodebase) else "list"
        elif ty and ty[0] == "dict":
            e = ty[2]
            if e and e[0] == "list":
                e = e[1]
            kind = "nodedict" if e and e[0] == "cls" and prog.is_subclass(e[1], nodebase) else "value"
        res.append(Field(n, kind, link))
    return res


def type_of(prog, ci):
    """The constant `type` of a node class."""
    import ast
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and "type" in c.attrs:
            v = c.attrs["type"]
            return v.value if isinstance(v, ast.Constant) else None
    return None


def exact_list(o, v, src):
    """Is v the sequence src or a copy of it? True/False/None."""
    t = o.snap(v) if v is not None else None
    d = o.deep(v, 3)
    if t == src or d == src or d == S("list", (("rest", src),)):
        return True
    if isinstance(d, S) and d.op in ("list", "tuple_of", "list_of") and d.args == (src,):
        return True
    if not depends(d, src):
        return False
    if depends(d, lambda x: isinstance(x, S) and x.op in ("slice", "reversed", "sorted", "set")):
        return False
    return None
