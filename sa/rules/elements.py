"""Shared exploration of the document level processing functions."""

from __future__ import annotations

from ..absint import Enm, K, NONE, R, S, Tup
from ..loader import ClassInfo
from ..model import Out, Processors, attr, attr_of, depends, subterms, var
from .. import summaries as su

PARSER = var("parser")


class Elements:
    def __init__(self, ctx, extra=None, inline_text=False, only=None):
        self.ctx = ctx
        p = self.p = ctx.prog
        ex = dict(extra or {})
        if not inline_text:
            ex["DocumentParser._parse_text"] = su.opaque()
        self.procs = Processors(p, "DocumentParser", ex, max_steps=1500000)
        ctx.need("elements", "DocumentParser", self.procs.count >= 5, "fewer than five processing functions")
        self.a_args = attr_of(p, "DocumentParser", "ArgumentsBuffer")
        self.a_labels = attr_of(p, "DocumentParser", "LabelBuffer")
        self.a_control = attr_of(p, "DocumentParser", "ControlBuffer")
        self.a_foot = attr_of(p, "DocumentParser", "FootnotesManager")
        self.a_group = attr_of(p, "DocumentParser", "BlockGroupManager")
        self.a_toc = attr_of(p, "DocumentParser", "TocManager")
        self.a_links = attr_of(p, "DocumentParser", "HeaderLinksManager")
        self.a_tm = attr_of(p, "DocumentParser", "TokensManager")
        self.args0 = attr(PARSER, self.a_args, "arguments")
        self.labels0 = attr(PARSER, self.a_labels, "labels")
        self.control0 = attr(PARSER, self.a_control, "control")
        self.node_cls = p.cls("Node")
        self._cache = {}

    def __iter__(self):
        for i in range(self.procs.count):
            yield i, self.procs.names[i], self.outcomes(i)

    def outcomes(self, i):
        if i not in self._cache:
            ip, outs = self.procs.outcomes(i)
            self.ctx.saw(ip)
            self.ctx.paths += len(outs)
            self._cache[i] = outs
        return self._cache[i]

    # ---------------------------------------------------------------- views
    def excluded(self, o: Out):
        """True/False: the stored control was evaluated and excludes/includes
        the element; None: no control was evaluated."""
        cmp_ = attr(self.control0, "comparison")
        val = attr(self.control0, "value")
        op = None
        eq = None
        for k, v in o.st.facts.items():
            if not (isinstance(k, S) and k.op == "eq" and len(k.args) == 2):
                continue
            a, b = k.args
            if b == cmp_ or a == cmp_:
                m = a if b == cmp_ else b
                if isinstance(m, Enm):
                    if v:
                        op = m.name
                    elif op is None:
                        op = "!" + m.name
            elif a == val or b == val:
                other = a if b == val else b
                if depends(other, lambda t: isinstance(t, S) and t.op in ("envvar", "envget")):
                    eq = v
        if op is None or eq is None:
            return None
        if op == "EQUAL_EQUAL" or op == "!BANG_EQUAL":
            return not eq
        if op == "BANG_EQUAL" or op == "!EQUAL_EQUAL":
            return eq
        return None

    def has_control(self, o):
        """True when the path knows there is a pending control."""
        v = o.st.facts.get(S("isnone", (self.control0,)))
        if v is None:
            v = o.st.facts.get(S("truth", (self.control0,)))
            return v
        return not v

    def consults_control(self, o):
        """The path reads the variable of the pending control."""
        t = attr(self.control0, "variable")
        return any(depends(k, t) for k in o.st.facts) or any(depends(e.data, t) for e in o.events())

    def is_new_node(self, o, v):
        ob = o.obj(v)
        return (
            ob is not None
            and ob.kind == "obj"
            and not ob.lazy
            and isinstance(ob.cls, ClassInfo)
            and self.p.is_subclass(ob.cls, self.node_cls)
        )

    def sinks(self, o: Out):
        """Primary places where a new node entered the document."""
        res = []
        added = o.added(o.get(o.parser, "nodes"), attr(PARSER, "nodes"))
        if added is None:
            res.append(("?", None))
        else:
            for q in added:
                vals = [q[1]] if q[0] == "item" else []
                if not vals:
                    res.append(("nodes?", None))
                for v in vals:
                    res.append(("nodes", v))
        for e in o.events("mut"):
            cont, op, args = e.data[0], e.data[1], e.data[2]
            valobj = e.data[4] if len(e.data) > 4 else None
            if not depends(cont, attr(PARSER, self.a_foot)) and not depends(cont, attr(PARSER, self.a_group)):
                continue
            kind = "footnote" if depends(cont, attr(PARSER, self.a_foot)) else "group"
            for r in self._nodes_in(o, valobj):
                c = o.cls(r)
                if kind == "footnote" and depends(cont, lambda t: isinstance(t, S) and t.op == "attr" and t.args[1] == "bodies"):
                    res.append(("footnote", r))
                elif kind == "group" and c is not None and c.name == "BlockGroupItemNode":
                    res.append(("group", o.get(r, "block")))
        return res

    def _nodes_in(self, o, v):
        if isinstance(v, R):
            if self.is_new_node(o, v):
                return [v]
            return []
        if isinstance(v, (tuple, list)):
            return [x for y in v for x in self._nodes_in(o, y)]
        if isinstance(v, Tup):
            return [x for y in v.items for x in self._nodes_in(o, y)]
        return []

    # buffers in the final state
    def args_final(self, o):
        return o.get(o.parser, self.a_args, "arguments")

    def labels_final(self, o):
        return o.get(o.parser, self.a_labels, "labels")

    def control_final(self, o):
        return o.get(o.parser, self.a_control, "control")

    def emptied(self, o, kind):
        if kind == "labels":
            v = self.labels_final(o)
            ob = o.obj(v)
            if ob is not None and ob.kind == "dict":
                if not ob.parts:
                    return True
                # cleared in place, or known to be empty
                return self._known_empty(o, self.labels0) if o.snap(v) == self.labels0 else False
            return None
        v = self.args_final(o) if kind == "arguments" else self.control_final(o)
        if v == NONE:
            return True
        t0 = self.args0 if kind == "arguments" else self.control0
        if o.snap(v) == t0:
            # untouched: fine only when it is known to be None
            return o.st.facts.get(S("isnone", (t0,))) is True
        return None if isinstance(v, S) else False

    def _known_empty(self, o, t):
        return o.st.facts.get(S("truth", (t,))) is False

    def untouched(self, o, kind):
        v, t0 = {
            "arguments": (self.args_final(o), self.args0),
            "labels": (self.labels_final(o), self.labels0),
            "control": (self.control_final(o), self.control0),
        }[kind]
        if o.snap(v) == t0:
            return True
        # a pop of an empty slot leaves it as it was
        if v == NONE and o.st.facts.get(S("isnone", (t0,))) is True:
            return True
        return False

    def effects(self, o, allow=()):
        """Events that change objects reachable from the parser (its initial
        state), except those on the tokens manager and on the given paths."""
        res = []
        tm = attr(PARSER, self.a_tm)
        allow = tuple(allow)
        for e in o.events("set", "mut"):
            target = e.data[0]
            if not depends(target, PARSER):
                continue
            if self._rooted(target, tm):
                continue
            if any(self._rooted(target, a) or (e.kind == "set" and attr(target, e.data[1]) == a) for a in allow):
                continue
            if not self._state_root(target):
                continue
            res.append(e)
        return res

    def _rooted(self, t, base):
        while True:
            if t == base:
                return True
            if isinstance(t, S) and t.op in ("attr", "elem", "val", "getitem", "item", "valuesof", "key") and t.args:
                t = t.args[0]
                continue
            if isinstance(t, S) and t.op in ("dict", "list") and t.args and isinstance(t.args[0], tuple) and len(t.args[0]) > 1:
                t = t.args[0][1]
                continue
            return False

    def _state_root(self, t):
        """Is the object part of the parser's own state (reached by attribute
        and element steps only)?"""
        return self._rooted(t, PARSER)
