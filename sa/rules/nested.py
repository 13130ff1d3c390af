"""Nested parses: documents parsed inside documents (blocks, includes)."""

from __future__ import annotations

from ..absint import Cl, K, NONE, R, S, State, Tup
from ..model import Out, attr, callable_name, depends, interp, run, short, subterms, var
from .. import summaries as su
from .elements import Elements, PARSER


def ident(ip, st, fi, args, kwargs, node):
    """flatten_nested_dict: same keys and values (P20 decides it)."""
    return [(st, args[0])]


IDENT = {"flatten_nested_dict": ident}


def file_uri(t):
    """The path whose content the term is, when it is read from a file."""
    for x in subterms(t):
        if isinstance(x, S) and x.op == "file":
            return x.args[0]
    return None


def doc_parses(o):
    """Nested document parses of an outcome:
    (event, term, bound arguments, raw arguments, uri or None)."""
    for e in o.events("parse"):
        if e.data[0] != "DocumentParser":
            continue
        b = dict(e.data[1])
        raw = dict(e.data[3])
        yield e, S("parsed", (e.data[0], e.data[1], e.data[2])), b, raw, file_uri(b.get("text"))


def state_of(prog, ctx, param):
    """Attributes of a new DocumentParser that hold the given argument."""
    ci = prog.cls("DocumentParser")
    fi = prog.method("DocumentParser", "__init__")
    ip = interp(prog)
    outs = run(ip, fi, self_cls="DocumentParser")
    ctx.saw(ip)
    names = set()
    for o in outs:
        if o.exc:
            continue
        r = o.st.memo.get(var("self"))
        for n, v in o.st.heap[r].attrs:
            if o.snap(v) == var(param) or (isinstance(o.snap(v), S) and o.snap(v).op == "phi" and var(param) in o.snap(v).args):
                names.add(n)
    return sorted(names), outs
