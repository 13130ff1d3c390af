from ..absint import K, NONE, R, S
from ..model import attr, depends, short, subterms
from . import included, trees
from .common import objs
from .elements import Elements, PARSER
from .nested import IDENT, doc_parses
from .p10 import is_source

PROPERTY = {
    "id": "P11",
    "title": "An included file sees exactly the variables it is given",
    "statement": "A file included with `<< mau` is parsed from its first line under its own name, with a private environment made of the variables of the including document (none if pass_environment is not true) overridden by the arguments `call:NAME`, each under the name without the prefix; so nothing the included file defines, and no call argument, reaches the including document. The resulting node carries the URI and all the nodes of the file, and the inclusion is recorded together with those made by the file itself.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every set of variables and call arguments, every content of the included file, every sequence of inclusions",
    },
    "why_tests_cant": "Tests include one file with one variable; the isolation of the including document is a frame condition over everything an included file could do.",
    "anchors": {
        "files": ["mau/parsers/document_processors/include.py", "mau/environment/environment.py"],
        "state": [{"name": "BaseParser.environment", "meaning": "variables visible to a document", "where": "mau/parsers/base_parser.py"}],
        "mechanism": [{"name": "environment clone of an include", "where": "mau/parsers/document_processors/include.py"}],
        "observe_at": ["variables inside and after an included file", "DocumentParserOutput.include_calls"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: aliasing and provenance of the environment passed at every nested parse of a file; frame condition on the including parser; interpretation of documents with included files of known content"
LEVEL_NOTE = "flatten_nested_dict is taken as the identity on flat dictionaries."
EXPLANATION = "Every outcome of the document processors that parses a file is examined: the environment object must be new, its variables must be the including ones exactly when pass_environment allows it, followed by one entry per call: argument; position, name and text of the nested parse and the recorded inclusion are compared with the URI; no outcome may change the environment of the parser."
ASSUMPTIONS = ["Environment stores flat variables (P20)"]

ALONE = ("the variables are not passed", "the variables of the file", "the call variables")


def check(ctx):
    names = [k for k in included.FILES if k.startswith("mau")]
    included.analyse(ctx, included.accepted("files", trees.compare_trees, names) + included.refused("variables out of reach", included.at, ALONE) + included.recorded("inclusions of files"))
    el = Elements(ctx, IDENT)
    seen = {True: 0, False: 0}
    env0 = attr(PARSER, "environment")
    for i, name, outs in el:
        for o in outs:
            files = [x for x in doc_parses(o) if x[4] is not None]
            if not files:
                continue
            # frame: the environment of the parser is untouched
            for e in o.events("mut", "set"):
                h = o.st.heap.get(e.data[3]) if len(e.data) > 3 and isinstance(e.data[3], int) else None
                if h is not None and h.path is None:
                    continue  # an object made on this path
                if e.data[0] == env0 or el._rooted(e.data[0], env0):
                    ctx.check("frame", name, False, "an include changes the variables of the including document", e.where, o.path_text)
            ctx.check("frame", name, True)
            for e, term, b, raw, uri in files:
                one(ctx, el, o, name, e, term, b, raw, uri, env0, seen)
                if not o.exc:
                    recorded(ctx, el, o, name, term, uri)
    ctx.need("coverage", "file includes", seen[True] + seen[False] > 0, "no include of a file found")
    ctx.check("pass-environment", "both", seen[True] > 0 and seen[False] > 0, f"the argument pass_environment does not select the environment of the included file ({seen})")


def passing(o):
    """(does this path pass the environment?, does a missing argument?)"""
    res = None, None
    for k, v in o.st.facts.items():
        if not (isinstance(k, S) and depends(k, K("pass_environment"))):
            continue
        if k.op == "eq":
            const = [a for a in k.args if isinstance(a, K)]
            other = [a for a in k.args if not isinstance(a, K)]
            if len(const) != 1 or len(other) != 1 or not depends(other[0], K("pass_environment")):
                continue
            c = const[0].v
            d = None
            if isinstance(other[0], S) and len(other[0].args) > 2 and isinstance(other[0].args[2], K):
                d = other[0].args[2].v
            if c == "true":
                res = v, (None if d is None else d == "true")
            elif c == "false":
                res = not v, (None if d is None else d != "false")
    return res


def one(ctx, el, o, name, e, term, b, raw, uri, env0, seen):
    env = raw.get("environment")
    ob = o.obj(env)
    fresh = ob is not None and ob.path is None
    shared = o.snap(env) == env0 if env is not None else False
    ctx.check("private", name, False if shared else (True if fresh else None), "the included file shares the environment of the including document", e.where, o.path_text)
    ctx.check("own-name", name, b.get("source_filename") == uri, f"the included file is parsed under the name {short(b.get('source_filename'))}", e.where, o.path_text)
    for k in ("start_line", "start_column"):
        v = b.get(k, K(0))
        ctx.check("own-position", name + ":" + k, v == K(0), f"the included file starts at {k} {short(v)}", e.where, o.path_text)
    t = b.get("text")
    ctx.check("whole-text", name, not depends(t, lambda x: isinstance(x, S) and x.op == "slice"), f"only part of the file is parsed ({short(t)})", e.where, o.path_text)
    # the URI is the one given by the user
    ctx.check("uri", name, depends(uri, K("uri")) or depends(uri, lambda x: isinstance(x, S) and x.op == "parsed" and x.args[0] == "ArgumentsParser") or depends(uri, el.args0), f"the file read is {short(uri)}", e.where, o.path_text)
    if not fresh:
        return
    p, default = passing(o)
    if p is not None:
        seen[p] += 1
        exact = [k for k in o.st.facts if isinstance(k, S) and k.op == "eq" and depends(k, K("pass_environment"))]
        ctx.check("pass-environment", name + ":true", any(K("true") in k.args for k in exact), "the variables are passed also when pass_environment is not true", e.where, o.path_text)
    if default is not None:
        ctx.check("pass-environment", name + ":default", default, "without pass_environment the variables are not passed", e.where, o.path_text)
    vars_ = None
    for n, v in ob.attrs:
        vars_ = v if o.parts(v) is not None else vars_
    if vars_ is None:
        ctx.check("variables", name, None, "unknown environment content")
        return
    d = o.deep(vars_, 6)
    base = lambda x: isinstance(x, S) and el._rooted(x, env0)
    has = depends_shallow(o, vars_, base)
    if p is True:
        ctx.check("variables", name + ":passed", has, "the variables of the including document are not passed", e.where, o.path_text)
        partial = [q for q in o.parts(vars_) if q[0] == "each" and base_src(q[1], base) and any(not any(x[0] in ("kv", "rest") for x in ps) for _, ps in q[2])]
        ctx.check("variables", name + ":whole", not partial, "only some of the variables of the including document are passed", e.where, o.path_text)
    elif p is False:
        ctx.check("variables", name + ":not-passed", not has, "variables are passed although pass_environment is not true", e.where, o.path_text)
    # call arguments
    parts = list(o.parts(vars_))
    calls = [(j, q) for j, q in enumerate(parts) if depends(q, K("call:")) and q[0] == "each"]
    if not calls:
        calls = [(j, q) for j, q in enumerate(parts) if depends(q, K("call:"))]
    ctx.check("call-arguments", name, bool(calls) or (None if depends(d, K("call:")) else False), "the arguments call:NAME do not reach the included file", e.where, o.path_text)
    envparts = [j for j, q in enumerate(parts) if q[0] in ("rest", "each") and base_src(q[1], base)]
    if calls and envparts:
        ctx.check("call-override", name, min(j for j, _ in calls) > max(envparts), "variables of the document override the call arguments", e.where, o.path_text)
    for j, q in calls:
        if q[0] != "each":
            continue
        part = isinstance(q[1], S) and (q[1].op == "slice" or depends(q[1], lambda y: isinstance(y, S) and y.op == "slice" and not depends(y, lambda z: isinstance(z, S) and z.op in ("elem", "key"))))
        ctx.check("call-arguments", name + ":every", not part, f"only some of the call arguments are passed ({short(q[1])})", e.where, o.path_text)
        pres = [x.args[1] for x in subterms((q[1], q[2])) if isinstance(x, S) and x.op == "startswith" and len(x.args) > 1 and isinstance(x.args[1], K)]
        if pres:
            ctx.check("call-only", name + ":prefix", any(c.v == "call:" for c in pres), f"arguments starting with {short(pres[0])} are taken for call arguments", e.where, o.path_text)
        for facts, ps in q[2]:
            starts = [v for k, v in facts if isinstance(k, S) and k.op == "startswith"]
            kv = [x for x in ps if x[0] == "kv"]
            if any(v is False for v in starts):
                ctx.check("call-only", name, not kv, "arguments without the prefix call: become variables of the included file", e.where, o.path_text)
                continue
            ctx.check("call-arguments", name + ":all", bool(kv), "some call arguments are skipped", e.where, o.path_text)
            for x in kv:
                kk, vv = o.snap(x[1]), o.snap(x[2])
                pre = isinstance(kk, S) and (kk.op == "removeprefix" and kk.args[1:] == (K("call:"),) or kk.op == "slice" and depends(kk, lambda y: y == K(5) or isinstance(y, S) and y.op == "len") or kk.op in ("mret", "item", "at", "getitem") and depends(kk, lambda y: y in (K("call:"), K(":"))))
                ctx.check("call-name", name, pre or (None if not isinstance(kk, S) or kk.op not in ("key", "elem") else False), f"a call argument is passed under the name {short(kk)}", e.where, o.path_text)
                src = kk.args[0] if isinstance(kk, S) and kk.args else None
                own = isinstance(vv, S) and (depends(vv, src) or vv.op == "val" or vv.op == "pop")
                ctx.check("call-value", name, own, f"a call argument is passed with the value {short(vv)}", e.where, o.path_text)


def base_src(t, base):
    return any(base(x) for x in subterms(t) if isinstance(x, S)) and not depends(t, lambda x: isinstance(x, S) and x.op == "parsed")


def depends_shallow(o, v, base):
    """Are the document's variables part of the dictionary (and not only
    mentioned by the provenance of other entries)?"""
    for q in o.parts(v) or ():
        if q[0] in ("rest", "each") and base_src(q[1], base):
            return True
    return False


def recorded(ctx, el, o, name, term, uri):
    calls = o.get(o.parser, "output", "include_calls")
    base = attr(PARSER, "output", "include_calls")
    added = o.added(calls, base)
    if added is None:
        ctx.check("recorded", name, None, "unknown list of inclusions")
    else:
        items = [q[1] for q in added if q[0] == "item" and o.is_a(q[1], "IncludeCall")]
        ctx.check("recorded", name, len(items) == 1, f"an inclusion is recorded {len(items)} times", o.where(), o.path_text)
        for c in items:
            cal = o.snap(o.get(c, "callee_uri"))
            ctx.check("recorded", name + ":callee", cal == uri, f"the inclusion records {short(cal)} as the included file", o.where(), o.path_text)
            src = o.snap(o.get(c, "caller_uri"))
            ctx.check("recorded", name + ":caller", is_source(src) and depends(src, lambda x: isinstance(x, S) and x.op == "tok"), f"the inclusion records {short(src)} as the including file", o.where(), o.path_text)
            args = o.deep(o.get(c, "call_arguments"), 4)
            ctx.check("recorded", name + ":arguments", depends(args, K("call:")), "the inclusion does not record the call arguments", o.where(), o.path_text)
        inner = attr(term, "output", "include_calls")
        got = any(q[0] == "rest" and q[1] == inner or q[0] == "each" and depends(q[1], inner) for q in added)
        ctx.check("recorded", name + ":inner", got, "the inclusions made by the included file are lost", o.where(), o.path_text)
    # the node
    added = o.added(o.get(o.parser, "nodes"), attr(PARSER, "nodes")) or ()
    ns = [q[1] for q in added if q[0] == "item" and o.is_a(q[1], "IncludeMauNode")]
    ctx.check("node", name, len(ns) == 1, f"the included file produces {len(ns)} nodes", o.where(), o.path_text)
    for n in ns:
        ctx.check("node", name + ":uri", o.snap(o.get(n, "uri")) == uri, f"the node has the URI {short(o.snap(o.get(n, 'uri')))}", o.where(), o.path_text)
        c = o.get(n, "content")
        t = o.deep(c, 4)
        want = attr(term, "nodes")
        ok = o.snap(c) == want or t == S("list", (("rest", want),))
        if not ok:
            ok = None if depends(t, want) and not depends(t, lambda x: isinstance(x, S) and x.op in ("slice", "getitem", "at")) else False
        ctx.check("node", name + ":content", ok, f"the node contains {short(t)} and not all the nodes of the file", o.where(), o.path_text)
