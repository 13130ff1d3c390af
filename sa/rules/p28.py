from ..absint import Enm, K, NONE, R, S, Tup
from ..model import attr, depends, short, subterms
from ..summaries import opaque
from .texts import PARSER, SETNAMES, Texts, changed

PROPERTY = {
    "id": "P28",
    "title": "Inline text is consumed to its end and nothing of it is lost or reordered",
    "statement": "Parsing a sentence ends only at its stop tokens (end of line, end of text or the closing marker of the enclosing style), and the result holds the nodes of every element found, in order, adjacent words being merged into one text node with all their values concatenated. Text between backticks gives a verbatim node and text between two `$` or two `%` a text node with exactly the text between the markers, text between `_`, `*`, `^` or `~` gives a style node (underscore, star, caret, tilde) with all the nodes in between as children, and a backslash turns the next token into text. A pair of markers is never ignored, and whatever is not one of these elements nor a macro is kept as it is.",
    "quantifier": {"over": ["inputs"], "text": "every text, every nesting and adjacency of elements"},
    "why_tests_cant": "Tests parse a few dozens of sentences; that no combination of elements ends a sentence early or loses a piece is a claim on the loops and on every path of the parser.",
    "anchors": {
        "files": ["mau/parsers/text_parser.py"],
        "state": [{"name": "tokens manager", "meaning": "position in the text", "where": "mau/parsers/managers/tokens_manager.py"}],
        "mechanism": [{"name": "sentence loop and grouping of words", "where": "mau/parsers/text_parser.py _parse_sentence"}],
        "observe_at": ["TextParser.nodes"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the inline parser: position and provenance of every element, accumulation of the sentence loop, grouping of words"
LEVEL_NOTE = "One element is analysed from an arbitrary position and the loops are summarised by what a generic iteration adds. The lexer, `collect_join` and the tokens manager are primitives here (P14, P15)."
EXPLANATION = "For every outcome of parsing one element the class of the node selects the obligations on its value, on the markers tested and on the final position; the sentence is analysed with the element as an opaque list, so that its result must be made of all those lists and its end must be justified by a test of the stop tokens."
ASSUMPTIONS = ["collect_join returns the text up to the first stop token"]

STYLES = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}
CUR = None


def cur(o):
    return S("cur", (S("attr", (PARSER, "tm")),))


def check(ctx):
    elements(ctx)
    sentence(ctx)
    save(ctx)


# ------------------------------------------------------------------ elements
def idx0(o):
    for e in o.st.trace:
        for x in subterms(getattr(e, "data", ())):
            if isinstance(x, S) and x.op == "cur":
                return x
    return None


def tests(o, idx):
    """[(polarity, value or predicate term)] of the tests on a token."""
    res = []
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "tokis" and k.args[0] == idx:
            ty, val, fn = k.args[1:4]
            res.append((v, val, fn))
        elif isinstance(k, S) and k.op == "eq" and len(k.args) == 2:
            a, b = k.args
            for x, y in ((a, b), (b, a)):
                if y == attr(S("tok", (idx,)), "value"):
                    res.append((v, x, None))
    return res


def chars(term):
    """Characters accepted by a predicate, None when unknown."""
    if isinstance(term, S) and term.op == "in":
        c = term.args[1]
        if isinstance(c, K) and isinstance(c.v, (str, tuple, list)):
            return set(c.v)
        if isinstance(c, S) and c.op in ("oneof", "list", "set", "dict"):
            res = set()
            for a in c.args:
                a = a[1] if isinstance(a, tuple) and len(a) > 1 else a
                if not isinstance(a, K):
                    return None
                res.add(a.v)
            return res
    if isinstance(term, S) and term.op == "eq":
        k = [a.v for a in term.args if isinstance(a, K)]
        return set(k) if k else None
    return None


def marker(o, idx):
    """Set of values the token at idx can have on this path (None: unknown)."""
    res = None
    for v, val, fn in tests(o, idx):
        c = None
        if isinstance(val, K):
            c = {val.v}
        elif fn is not None and val is None:
            c = chars(fn)
        if c is None:
            continue
        if v:
            res = c if res is None else res & c
    if res is not None:
        for v, val, fn in tests(o, idx):
            if not v and isinstance(val, K) and fn is None:
                res = res - {val.v}
    return res


def same_marker(o, end, start, m):
    """Is the token at `end` known to be the same marker as the one at start?"""
    for v, val, fn in tests(o, end):
        if v and (val == attr(S("tok", (start,)), "value") or (isinstance(val, K) and m == {val.v})):
            return True
    return False


def elements(ctx):
    t = Texts(ctx, extra=SETNAMES)
    seen = {}
    for o in t.outs:
        if o.exc:
            if o.exc_name not in ("TokenError", "MauException"):
                ctx.check("error", o.exc_name or "?", False, f"{o.exc_name} escapes from the inline parser", o.exc_where, o.path_text)
            continue
        nodes = t.nodes(o)
        i0 = idx0(o)
        if i0 is None or nodes is None:
            continue
        end = o.snap(o.get(o.parser, "tm", "index"))
        if len(nodes) == 0:
            parsed = any(e.data[0] == "ConditionParser" for e in o.events("parse"))
            atstop = any(isinstance(k, S) and k.op == "in" and k.args[0] == S("tok", (i0,)) and v for k, v in o.st.facts.items())
            if not parsed:
                if end == i0:
                    ctx.check("empty", "stop", atstop or None, "nothing is parsed although the sentence is not finished", o.where(), o.path_text)
                else:
                    ctx.check("empty", "lost", False, "some text is consumed and nothing is produced", o.where(), o.path_text)
            continue
        cls = [o.cls(n).name if o.cls(n) is not None else None for n in nodes]
        if len(nodes) != 1:
            if any(c in ("VerbatimNode", "WordNode", "StyleNode", "TextNode") for c in cls):
                ctx.check("one", "/".join(map(str, cls)), None, "")
            continue
        n, c = nodes[0], cls[0]
        m = marker(o, i0)
        if c == "VerbatimNode" or c == "TextNode":
            want = {"`"} if c == "VerbatimNode" else {"$", "%"}
            seen.setdefault(c, set()).update(m or ())
            ctx.check("markers", c, None if m is None else m <= want, f"{c} is built from text between {m}", o.where(), o.path_text)
            quoted(ctx, o, n, c, i0, end, m)
        elif c == "StyleNode":
            seen.setdefault(c, set()).update(m or ())
            ctx.check("markers", c, None if m is None else m <= set(STYLES), f"a style node is built from text between {m}", o.where(), o.path_text)
            style(ctx, o, n, i0, end, m)
        elif c == "WordNode":
            v = o.snap(o.get(n, "value"))
            nx = S("next", (i0,))
            if end == S("next", (nx,)):
                seen.setdefault("backslash", set()).update(m or ())
                ctx.check("backslash", "marker", None if m is None else m == {"\\"}, f"the character {m} disappears", o.where(), o.path_text)
                ctx.check("backslash", "value", v == attr(S("tok", (nx,)), "value"), f"an escaped token becomes {short(v)}", o.where(), o.path_text)
            elif end == nx:
                seen.setdefault("word", set())
                ctx.check("word", "value", v == attr(S("tok", (i0,)), "value"), f"a word becomes {short(v)} and not its token", o.where(), o.path_text)
                ignored(ctx, o, i0)
            else:
                ctx.check("word", "position", None if "phi" in repr(end) and v != attr(S("tok", (i0,)), "value") else False, f"a word ends at {short(end)}", o.where(), o.path_text)
    for c, want in (("VerbatimNode", {"`"}), ("TextNode", {"$", "%"}), ("StyleNode", set(STYLES)), ("backslash", {"\\"})):
        if c in seen:
            ctx.check("supported", c, seen[c] == want if seen[c] else None, f"{c}: markers {sorted(seen[c])} instead of {sorted(want)}", None)
        else:
            ctx.check("supported", c, False, f"no text ever becomes a {c}", None)
    ctx.check("supported", "word", "word" in seen, "plain tokens are not kept as words", None)


def stops(o, rest):
    """Values of the stop tokens of a collection, None when unknown."""
    d = dict(rest)
    st = d.get("stop_tokens")
    if not isinstance(st, S) or st.op not in ("list", "set", "tuple"):
        return None
    res = []
    for q in st.args:
        x = q[1] if isinstance(q, tuple) else q
        if not (isinstance(x, S) and x.op == "new"):
            return None
        ob = o.st.heap.get(x.args[1]) if len(x.args) > 1 else None
        if ob is None:
            return None
        res.append((ob.get("type"), o.snap(ob.get("value"))))
    return res


def quoted(ctx, o, n, c, i0, end, m):
    v = o.snap(o.get(n, "value"))
    want = [e for e in o.events("collect") if e.data[1] == S("next", (i0,))]
    e = want[-1] if want else None
    col = [x for x in subterms(v) if isinstance(x, S) and x.op == "collected"]
    if not col:
        ctx.check("content", c, False if not depends(v, lambda x: isinstance(x, S) and x.op == "tok") else None, f"the value of the node is {short(v)} and not the text between the markers", o.where(), o.path_text)
        return
    exact = isinstance(v, S) and v.op == "attr" and v.args[1] == "value" and v.args[0] == col[0]
    ctx.check("content", c, True if exact else False if changed(v) else None, f"the value of the node is {short(v)} and not the text between the markers", o.where(), o.path_text)
    ctx.check("content", c + ":start", col[0].args[1] == S("next", (i0,)), f"the text is collected from {short(col[0].args[1])}", o.where(), o.path_text)
    rest = dict(col[0].args[2])
    j = rest.get("join_with")
    ctx.check("content", c + ":join", j in (None, K("")), f"tokens are joined with {short(j)}", o.where(), o.path_text)
    sv = stops(o, col[0].args[2])
    tv = attr(S("tok", (i0,)), "value")
    ok = None
    if sv is not None:
        ok = any(x == tv or (isinstance(x, K) and m == {x.v}) for _, x in sv)
        extra = [x for t, x in sv if not (x == tv or (isinstance(x, K) and m == {x.v})) and not (isinstance(t, Enm) and t.name in ("EOL", "EOF"))]
        if ok and extra:
            ok = None if any(not isinstance(x, K) for x in extra) else False
    ctx.check("content", c + ":stop", ok, f"the text is collected up to {sv} and not up to the closing marker", e.where if e else None, o.path_text)
    inner = end.args[0] if isinstance(end, S) and end.op == "next" else None
    okend = inner is not None and isinstance(inner, S) and inner.op == "aftercollect" and inner.args[0] == S("next", (i0,))
    ctx.check("content", c + ":end", okend or (None if "phi" in repr(end) else False), f"the position after the element is {short(end)}, not after the closing marker", o.where(), o.path_text)
    if okend:
        ctx.check("content", c + ":closing", same_marker(o, inner, i0, m), "the closing marker is not checked", o.where(), o.path_text)


def style(ctx, o, n, i0, end, m):
    v = o.snap(o.get(n, "style")) if o.get(n, "style") is not None else None
    tv = attr(S("tok", (i0,)), "value")
    ok = None
    if isinstance(v, K):
        ok = bool(m) and len(m) == 1 and STYLES.get(next(iter(m))) == v.v
    elif isinstance(v, S) and v.op in ("at", "getitem") and v.args[1] == tv and isinstance(v.args[0], S) and v.args[0].op == "dict":
        table = {q[1].v: q[2].v for q in v.args[0].args if isinstance(q, tuple) and q[0] == "kv" and isinstance(q[1], K) and isinstance(q[2], K)}
        ok = all(table.get(x) == STYLES.get(x) for x in (m or STYLES))
    elif not depends(v, lambda x: x == tv):
        ok = False
    ctx.check("style", "name", ok, f"the style is {short(v)}", o.where(), o.path_text)
    inner = end.args[0] if isinstance(end, S) and end.op == "next" else None
    ctx.check("style", "closing", None if inner is None else same_marker(o, inner, i0, m), "the closing marker is not checked", o.where(), o.path_text)
    content = o.get(n, "content")
    d = o.deep(content, 4)
    if depends(d, lambda x: isinstance(x, S) and x.op == "slice"):
        ctx.check("style", "content", False, f"only a part of the text is styled: {short(d)}", o.where(), o.path_text)
    else:
        ctx.check("style", "content", isinstance(d, S) and d.op == "list" or None, f"the content is {short(d)}", o.where(), o.path_text)
        its = o.items(content)
        ctx.check("style", "content:kept", None if its is None else True if its or d != S("list", ()) else False, "the text between the markers is lost", o.where(), o.path_text)


def ignored(ctx, o, i0):
    """A complete element is never turned into plain words."""
    m = marker(o, i0)
    if not m or len(m) != 1 and not m <= {"$", "%"} and not m <= set(STYLES):
        return
    nx = S("next", (i0,))
    after = [k.args[0] for k in o.st.facts if isinstance(k, S) and k.op == "tokis" and isinstance(k.args[0], S) and k.args[0].op == "aftercollect" and k.args[0].args[0] == nx]
    if m <= {"`"} or m <= {"$", "%"}:
        for a in after:
            if same_marker(o, a, i0, m):
                ctx.check("ignored", "/".join(sorted(m)), False, f"text between two {'/'.join(sorted(m))} is not recognised", o.where(), o.path_text)
                return
        ctx.check("ignored", "/".join(sorted(m)), True if after else False, f"{'/'.join(sorted(m))} is a plain word and the closing marker is not searched", o.where(), o.path_text)
    if m == {"\\"}:
        ctx.check("ignored", "backslash", False, "a backslash does not protect the next token", o.where(), o.path_text)


# ------------------------------------------------------------------ sentence
def is_piece(t):
    return isinstance(t, S) and t.op == "ret" and t.args[0] == "TextParser._parse_text"


def stopset(o, t):
    return isinstance(t, S)


def sentence(ctx):
    t = Texts(ctx, entry="_parse_sentence", extra={"TextParser._parse_text": opaque()})
    ends = 0
    always = set()
    for o in t.outs:
        if o.exc:
            ctx.check("sentence", "error", o.exc_name == "TokenError" or o.exc_name == "MauException", f"{o.exc_name} escapes", o.exc_where, o.path_text)
            continue
        ends += 1
        end = o.snap(o.get(o.parser, "tm", "index"))
        # the end is justified by a test of the stop tokens on the last token
        just = [k for k, v in o.st.facts.items() if v and isinstance(k, S) and ((k.op == "in" and isinstance(k.args[0], S) and k.args[0].op == "tok") or (k.op in ("tokis",)) or (k.op == "eq" and depends(k, lambda x: isinstance(x, S) and x.op == "tok")))]
        given = S("var", ("stop_tokens",))
        tested = [k for k in just if k.op == "in" and depends(k.args[1], given)]
        empty = o.st.facts.get(S("truth", (given,))) is False or o.st.facts.get(S("isnone", (given,))) is True
        if not just:
            ctx.check("sentence", "end", False, "the sentence may end before a stop token, and the rest of the text is handled as if it were outside", o.where(), o.path_text)
            continue
        ctx.check("sentence", "end", True if tested or empty or not just else None, "the stop tokens are not tested", o.where(), o.path_text)
        pieces(ctx, o)
        # EOF and EOL always stop
        for k in just if not empty else ():
            if k.op == "tokis" and isinstance(k.args[1], Enm):
                always.add(k.args[1].name)
            new = [x for x in subterms(k) if isinstance(x, S) and x.op == "new"]
            for x in new:
                ob = o.st.heap.get(x.args[1]) if len(x.args) > 1 else None
                ty = ob.get("type") if ob is not None else None
                if isinstance(ty, Enm):
                    always.add(ty.name)
            if not new and k.op == "in" and k.args[1] != given:
                always.add("?")
            if k.op == "eq":
                always.add("?")
    ctx.check("sentence", "always", True if {"EOF", "EOL"} <= always else None if "?" in always else False, f"with given stop tokens the sentence always stops at {sorted(always)} only", None)
    ctx.need("coverage", "sentence", ends > 0, "no outcome of the sentence")


def sources(t):
    """The lists of elements a term is made from."""
    return [x for x in subterms(t) if is_piece(x)]


def acc_ok(t):
    """A list made of the elements of every iteration, unchanged: True; a list
    known to miss some: False; else None."""
    if isinstance(t, S) and t.op == "list" and len(t.args) == 1:
        q = t.args[0]
        if q[0] == "each" and isinstance(q[1], S) and q[1].op == "while":
            res = True
            for facts, sub in q[2]:
                if len(sub) == 1 and sub[0][0] == "rest" and is_piece(sub[0][1]):
                    continue
                if len(sub) == 1 and sub[0][0] in ("each",) and is_piece(sub[0][1]):
                    if all(len(s2) == 1 and s2[0][0] == "item" and s2[0][1] == S("elem", (sub[0][1],)) for _, s2 in sub[0][2]):
                        continue
                    return False
                if not sub:
                    # an iteration that adds nothing: the element was empty
                    if any(isinstance(f[0], S) and f[0].op == "truth" and is_piece(f[0].args[0]) and not f[1] for f in facts):
                        continue
                    # words that wait to be merged
                    if any("WordNode" in repr(f[0]) and f[1] for f in facts):
                        res = None
                        continue
                    return False
                if not any(sources(x) for x in sub):
                    return False
                if any(isinstance(x, S) and x.op == "slice" for q2 in sub for x in subterms(q2)):
                    return False
                res = None
            return res
        if q[0] == "rest":
            return acc_ok(q[1])
    if isinstance(t, S) and t.op == "slice":
        return False
    return None


def pieces(ctx, o):
    d = o.deep(o.value, 6)
    src = sources(d)
    if d == S("list", ()):
        return
    if not src:
        ctx.check("sentence", "kept", False, f"the result {short(d)} does not hold the elements of the sentence", o.where(), o.path_text)
        return
    if depends(d, lambda x: isinstance(x, S) and x.op == "slice" and sources(x.args[0])):
        ctx.check("sentence", "kept", False, "a part of the elements is dropped", o.where(), o.path_text)
        return
    if depends(d, lambda x: isinstance(x, S) and x.op in ("sorted", "reversed", "set") and sources(x.args)):
        ctx.check("sentence", "order", False, "the elements are reordered", o.where(), o.path_text)
        return
    if isinstance(d, S) and d.op == "list" and len(d.args) == 1 and d.args[0][0] == "each" and isinstance(d.args[0][1], S) and d.args[0][1].op == "groupby":
        q = d.args[0]
        ctx.check("sentence", "kept", acc_ok(q[1].args[0]), "some elements do not reach the groups", o.where(), o.path_text)
        key = q[1].args[1] if len(q[1].args) > 1 else None
        word = lambda x: depends(x, lambda y: "WordNode" in repr(y))
        ctx.check("group", "key", True if word(key) else None, f"nodes are grouped by {short(key)}", o.where(), o.path_text)
        g = S("elem", (q[1],))
        grp = lambda x: depends(x, S("at", (g, K(1))))
        fk = S("at", (g, K(0)))
        for facts, sub in q[2]:
            if not sub or not all(grp(x) for x in sub):
                ctx.check("group", "kept", False, "a group of nodes is dropped or replaced", o.where(), o.path_text)
                continue
            iskey = [v for k, v in facts if depends(k, fk)]
            if sub[0][0] == "rest":
                ctx.check("group", "others", True if len(sub) == 1 and sub[0][1] == S("at", (g, K(1))) else None, "", o.where(), o.path_text)
                ctx.check("group", "merged", None if not iskey else iskey[0] is False, "words are not merged", o.where(), o.path_text)
            elif sub[0][0] == "item" and isinstance(sub[0][1], S) and sub[0][1].op == "obj" and sub[0][1].args[0] == "TextNode":
                ctx.check("group", "words", None if not iskey else iskey[0] is True, "nodes that are not words are turned into text", o.where(), o.path_text)
                val = next((a[1] for a in sub[0][1].args[1:] if isinstance(a, tuple) and a[0] == "value"), None)
                merged(ctx, o, val, S("at", (g, K(1))))
            else:
                ok = None
                if len(sub) == 1 and sub[0][0] == "item" and isinstance(sub[0][1], S) and sub[0][1].op in ("at", "getitem", "elem"):
                    ok = False
                if sub[0][0] == "each" and depends(sub[0][1], S("at", (g, K(1)))):
                    ok = all(len(s2) == 1 for _, s2 in sub[0][2])
                ctx.check("group", "others", ok, "some nodes are dropped", o.where(), o.path_text)
        return
    ctx.check("sentence", "kept", acc_ok(d), f"the result is {short(d)}", o.where(), o.path_text)


def merged(ctx, o, val, group):
    ok = None
    if isinstance(val, S) and val.op == "join":
        sep, lst = val.args[0], val.args[1]
        ok = sep == K("")
        if ok:
            if isinstance(lst, S) and lst.op == "list" and len(lst.args) == 1 and lst.args[0][0] == "each":
                q = lst.args[0]
                ok = q[1] == group or (None if depends(q[1], group) and not (isinstance(q[1], S) and q[1].op in ("slice", "reversed", "sorted")) else False)
                for facts, sub in q[2]:
                    if len(sub) != 1 or not (sub[0][0] == "item" and isinstance(sub[0][1], S)):
                        ok = False
                    elif not (sub[0][1].op == "attr" and sub[0][1].args[1] == "value"):
                        ok = False if changed(sub[0][1]) or not depends(sub[0][1], lambda x: isinstance(x, S) and x.op == "attr" and x.args[1] == "value") else None
            else:
                ok = None
    elif not depends(val, group):
        ok = False
    ctx.check("group", "text", ok, f"adjacent words are merged into {short(val)}", o.where(), o.path_text)


# ---------------------------------------------------------------------- save
def save(ctx):
    t = Texts(ctx, entry="_process_sentence", extra={"TextParser._parse_sentence": opaque()})
    for o in t.outs:
        if o.exc:
            continue
        ctx.check("save", "result", o.value == K(True), "the sentence is not accepted", o.where(), o.path_text)
        v = o.get(o.parser, "nodes")
        d = o.deep(v, 4)
        src = [x for x in subterms(d) if isinstance(x, S) and x.op == "ret" and x.args[0] == "TextParser._parse_sentence"]
        if not src:
            ctx.check("save", "all", False, "the nodes of the sentence are not saved", o.where(), o.path_text)
            continue
        ps = o.added(v, attr(PARSER, "nodes"))
        ok = None
        if ps is not None and len(ps) == 1:
            q = ps[0]
            if q[0] == "rest":
                ok = q[1] == src[0] or None
                ok = False if isinstance(q[1], S) and q[1].op == "slice" else ok
            elif q[0] == "each":
                if isinstance(q[1], S) and q[1].op == "slice":
                    ok = False
                elif q[1] == src[0]:
                    ok = all(len(sub) == 1 and sub[0][0] == "item" and o.snap(sub[0][1]) == S("elem", (src[0],)) for _, sub in q[2])
                    early = [x for x in o.events("iter") if x.data[0] == src[0]]
                    if early:
                        ok = False
        ctx.check("save", "all", ok, "some nodes of the sentence are not saved", o.where(), o.path_text)
