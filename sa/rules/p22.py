from ..absint import Cl, K, LoopEv, NONE, R, S, State, Tup
from ..model import Out, attr, call, depends, interp, run, short, subterms, var
from .common import loop_events
from .p21 import build, environment, fake_match, table, text

PROPERTY = {
    "id": "P22",
    "title": "Templates come from every configured source, the last one wins",
    "statement": "The templates of a visitor are its default ones, those of the requested providers, those of the files found under the configured paths and those given in the configuration, in this order, each replacing the previous ones with the same name; in every source only names with the extension of the visitor are templates, files are read recursively under `DIRECTORY.FILE` names, and a requested provider that is not available is an error. Every node is rendered with the template selected for it, giving to the template all the data obtained by visiting that node and the whole configuration as `config`. A list of nodes is rendered node by node, all of them, in order and with the same options, joined by the separator defined for the type of the node that contains them (or the default one), and None is rendered as the empty text.",
    "quantifier": {"over": ["inputs", "configurations"], "text": "every configuration of templates, every node"},
    "why_tests_cant": "Precedence depends on the sources that define the same name: tests try a few sets of names, the claim is on every combination of sources, names and nodes.",
    "anchors": {
        "files": ["mau/visitors/jinja_visitor.py"],
        "state": [{"name": "templates", "meaning": "templates of each type and sources known to Jinja", "where": "mau/visitors/jinja_visitor.py JinjaVisitor"}],
        "mechanism": [{"name": "loading of templates and rendering", "where": "mau/visitors/jinja_visitor.py"}],
        "observe_at": ["JinjaVisitor.templates", "JinjaVisitor.visit", "JinjaVisitor.visitlist"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the loaders, constructor and rendering methods: provenance of the content kept for each name and of the values given to the template"
LEVEL_NOTE = "Sources are analysed with constant names and unknown contents, in every combination of sources defining the same name; the walk of the directories on an unknown directory. Jinja itself is not analysed."
EXPLANATION = "The content kept for a name must be the symbol of the last source that defines it, both for the selection and for the Jinja loader. The call that renders must receive one entry for each entry of the visited data and the flat variables nested as `config`."
ASSUMPTIONS = ["jinja2.DictLoader serves the templates of its dictionary", "file system calls behave as documented"]

SOURCES = ("default", "providers", "filesystem", "custom")


def check(ctx):
    precedence(ctx)
    providers(ctx)
    filesystem(ctx)
    walk(ctx)
    rendering(ctx)
    lists(ctx)


# --------------------------------------------------------------- precedence
def loader_dict(o, vis):
    """The names and contents given to Jinja."""
    for e in o.events("opaque"):
        if "DictLoader" in repr(e.data[0]):
            return e.data[1][0] if e.data[1] else dict(e.data[2]).get("mapping")
    return None


def entries(d):
    """{name: content} of a dictionary term, None when unknown"""
    if not isinstance(d, S) or d.op != "dict":
        return None
    res = {}
    for q in d.args:
        if not (isinstance(q, tuple) and q[0] == "kv" and isinstance(q[1], K)):
            return None
        res[q[1].v] = q[2]
    return res


def precedence(ctx):
    import itertools
    srcs = {s: {} for s in SOURCES}
    want = {}
    sets = [c for n in (1, 2, 3, 4) for c in itertools.combinations(range(4), n)]
    for c in sets:
        name = "n.s" + "".join(str(i) for i in c)
        for i in c:
            srcs[SOURCES[i]][name + ".j2"] = f"{SOURCES[i]}_{name}"
        want[name] = f"{SOURCES[c[-1]]}_{name}"
    for s in SOURCES:
        srcs[s][f"other_{s}.html"] = "x"
        srcs[s][f"noext_{s}"] = "x"
    vis, box, outs = build(ctx, srcs)
    n = 0
    for o in outs:
        where = o.exc_where if o.exc else o.where()
        if o.exc:
            ctx.check("precedence", "error", None, "", where)
            continue
        t = table(o, vis)
        d = entries(loader_dict(o, vis))
        if t is None or d is None:
            ctx.check("precedence", "templates", None, "", where)
            continue
        n += 1
        names = {x[0].v: x[1] for l in t.values() for x in l if isinstance(x[0], K)}
        for name, w in want.items():
            for what, m in (("selected", names), ("rendered", d)):
                got = m.get(name)
                ctx.check("precedence", f"{what}:{name}", got == text(w), f"the template {name} is that of {short(got)} instead of {w}", where)
        extra = sorted(set(names) - set(want))
        ctx.check("precedence", "extension", not extra, f"{extra} have another extension and become templates", where)
    ctx.check("precedence", "found", True if n else None, "")


# ---------------------------------------------------------------- providers
def env_getter(key, value):
    def get(ip, st, fi, args, kwargs, node):
        k = args[1] if len(args) > 1 else kwargs.get("key")
        if k == K(key):
            return [(st, value(ip, st))]
        return [(st, ip.unknown())]
    return get


def variables(o, env):
    v = o.get(env, "_variables")
    return entries(o.deep(v, 2)) if v is not None else None


def providers(ctx):
    prog = ctx.prog
    fi = prog.func("load_templates_from_providers")
    avail = prog.func("_load_available_template_providers")

    def available(ip, st, fi_, args, kwargs, node):
        d = []
        for n in ("pa", "pb"):
            p = ip.lazy_obj(st, "Node", f"provider_{n}", exact=False)
            ts = ip.new_list(st, (("kv", K("block.j2"), text(f"both_{n}")), ("kv", K(f"{n}.j2"), text(f"own_{n}"))), kind="dict")
            st.heap[p.oid] = st.heap[p.oid].with_attr("templates", ts)
            d.append(("kv", K(n), p))
        return [(st, ip.new_list(st, tuple(d), kind="dict"))]

    for names in ((), ("pa",), ("pb",), ("pa", "pb"), ("pb", "pa"), ("pa", "missing"), ("missing", "pa")):
        extra = {
            prog.method("Environment", "get").full: env_getter("mau.visitor.templates.providers", lambda ip, st: ip.new_list(st, tuple(("item", K(n)) for n in names))),
            avail.full: available,
        }
        ip = interp(prog, extra)
        outs = run(ip, fi)
        ctx.saw(ip)
        ctx.paths += len(outs)
        label = "+".join(names) or "none"
        for o in outs:
            where = o.exc_where if o.exc else o.where()
            if "missing" in names:
                ctx.check("providers", label, o.exc_name == "MauException", "a provider that is not available is not an error", where, o.path_text)
                continue
            if o.exc:
                ctx.check("providers", label, False, f"{o.exc_name} although the providers are available", where, o.path_text)
                continue
            got = variables(o, o.value)
            if got is None:
                ctx.check("providers", label, None, "", where)
                continue
            want = {}
            for n in names:
                want["block.j2"] = text(f"both_{n}")
                want[f"{n}.j2"] = text(f"own_{n}")
            ctx.check("providers", label, got == want, f"providers {label} give {short(got)}", where)


# --------------------------------------------------------------- filesystem
def filesystem(ctx):
    prog = ctx.prog
    fi = prog.func("load_templates_from_filesystem")
    one = prog.func("_load_templates_from_path")
    asked = []

    def fake(ip, st, fi_, args, kwargs, node):
        names = [a.arg for a in one.node.args.args]
        b = {**dict(zip(names, args)), **kwargs}
        p = ip.snap(st, b.get("path_str"))
        ip.emit(st, "loadpath", p, ip.snap(st, b.get("extension", NONE)), ip.snap(st, b.get("preprocess", NONE)), node=node)
        return [(st, ip.new_list(st, tuple(("kv", K(x), text(f"{x}@{short(p)}")) for x in ("block.j2", "para.j2")), kind="dict"))]

    for n in (0, 1, 2):
        extra = {
            prog.method("Environment", "get").full: env_getter("mau.visitor.templates.paths", lambda ip, st: ip.new_list(st, tuple(("item", text(f"path{i}")) for i in range(n)))),
            one.full: fake,
        }
        ip = interp(prog, extra)
        outs = run(ip, fi, args={"extension": text("extension"), "preprocess": var("preprocess")})
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            where = o.exc_where if o.exc else o.where()
            if o.exc:
                ctx.check("files", f"{n} paths", False, f"{o.exc_name} escapes", where, o.path_text)
                continue
            evs = o.events("loadpath")
            ctx.check("files", f"{n} paths:read", [e.data[0] for e in evs] == [text(f"path{i}") for i in range(n)], f"the paths read are {short([e.data[0] for e in evs])}", where)
            for e in evs:
                ctx.check("files", "extension", e.data[1] == text("extension"), f"files with extension {short(e.data[1])} are read", e.where)
                ctx.check("files", "preprocess", e.data[2] == var("preprocess"), "templates are not preprocessed", e.where)
            got = variables(o, o.value)
            if got is None:
                ctx.check("files", f"{n} paths", None, "", where)
                continue
            last = text(f"path{n - 1}")
            names = set(got)
            ctx.check("files", f"{n} paths:names", names == ({"block.j2", "para.j2"} if n else set()), f"the names of the templates are {sorted(names)}", where)
            for k, v in got.items():
                ctx.check("files", f"{n} paths:last", v == text(f"{k}@{short(last)}"), f"the template {k} is {short(v)} and not that of the last path", where)

    # the visitor reads files with its own extension and preprocessing
    recs = []

    def rec(ip, st, fi_, args, kwargs, node):
        names = [a.arg for a in fi.node.args.args]
        b = {**dict(zip(names, args)), **kwargs}
        ip.emit(st, "loadfs", ip.snap(st, b.get("environment", NONE)), ip.snap(st, b.get("extension", NONE)), ip.snap(st, b.get("preprocess", NONE)), "preprocess" in b, node=node)
        return [(st, environment(ip, st, "fs", {}))]

    ip = interp(prog, {fi.full: rec, prog.func("load_templates_from_providers").full: lambda ip, st, f, a, k, n: [(st, environment(ip, st, "prov", {}))]})
    st = State()
    vis = ip.lazy_obj(st, "JinjaVisitor", "visitor")
    st.heap[vis.oid] = st.heap[vis.oid].with_attr("default_templates", environment(ip, st, "default", {})).with_attr("extension", text("ext"))
    n = 0
    for o in run(ip, prog.method("JinjaVisitor", "__init__"), self_val=vis, state=st):
        for e in o.events("loadfs"):
            n += 1
            ctx.check("files", "visitor extension", e.data[1] == text("ext"), f"files with extension {short(e.data[1])} are read", e.where)
            ctx.check("files", "visitor preprocess", e.data[3], "templates are not preprocessed", e.where)
    ctx.saw(ip)
    ctx.check("files", "visitor", True if n else False, "files are not read", None)


# --------------------------------------------------------------------- walk
def fact(facts, pred):
    for a, v in facts:
        if pred(a):
            return v
    return None


def method_of(t, name, el):
    """Is t the result of el.name()? """
    return isinstance(t, S) and t.op == "mret" and t.args[0] == el and t.args[1] == name


def walk(ctx):
    """The directory walk: each entry of the directory has its place."""
    prog = ctx.prog
    fi = prog.func("_load_templates_from_path")
    ip = interp(prog)
    outs = run(ip, fi)
    ctx.saw(ip)
    ctx.paths += len(outs)
    for o in outs:
        where = o.exc_where if o.exc else o.where()
        if o.exc:
            ctx.check("walk", "error", None, "", where)
            continue
        given = o.st.facts.get(S("truth", (var("path_str"),)))
        t = o.deep(o.value, 3)
        if given is False:
            ctx.check("walk", "no path", isinstance(t, S) and t.op == "dict" and not t.args or None, "", where)
            continue
        if not (isinstance(t, S) and t.op == "dict" and len(t.args) == 1 and t.args[0][0] == "each"):
            ctx.check("walk", "directory", False if isinstance(t, S) and t.op == "dict" and not t.args else None, "nothing is read from a directory", where)
            continue
        each = t.args[0]
        src = each[1]
        whole = src
        while isinstance(whole, S) and whole.op in ("sorted", "list", "reversed", "set"):
            whole = whole.args[0]
        ctx.check("walk", "all entries", True if isinstance(whole, S) and whole.op == "mret" and whole.args[1] == "iterdir" and depends(whole, var("path_str")) else False if isinstance(whole, S) and whole.op == "slice" else None, f"the entries read are {short(whole)}", where)
        el = None
        for facts, ps in each[2]:
            for x in subterms(tuple(facts)):
                if isinstance(x, S) and x.op == "elem":
                    el = x
        if el is None:
            ctx.check("walk", "entries", None, "", where)
            continue
        pre = o.st.facts.get(S("truth", (var("preprocess"),)))
        if pre is None:
            pre = {True: False, False: True}.get(o.st.facts.get(S("isnone", (var("preprocess"),))))
        for facts, ps in each[2]:
            isdir = fact(facts, lambda a: isinstance(a, S) and a.op == "truth" and method_of(a.args[0], "is_dir", el))
            ext = fact(facts, lambda a: isinstance(a, S) and a.op == "endswith" and depends(a.args[0], el) and a.args[1] == var("extension"))
            kv = [q for q in ps if q[0] == "kv"]
            if isdir:
                rec = fact(facts, lambda a: isinstance(a, S) and a.op == "truth" and isinstance(a.args[0], S) and a.args[0].op == "rec")
                if not kv and any(q[0] != "kv" and depends(q, lambda x: isinstance(x, S) and x.op == "rec") for q in ps):
                    ctx.check("walk", "directory name", False, "the templates of a directory lose the name of the directory", where)
                    continue
                if not kv:
                    ctx.check("walk", "directories", True if rec is False else False if rec is None and not depends(tuple(facts), lambda x: isinstance(x, S) and x.op == "rec") else None, "directories are not read", where)
                    continue
                v = kv[0][2]
                ok = isinstance(v, S) and v.op == "rec"
                ctx.check("walk", "directories", True if ok else None, "", where)
                ctx.check("walk", "directory name", kv[0][1] == attr(el, "name") or None, "", where)
                if ok:
                    b = dict(v.args[1])
                    ctx.check("walk", "directory path", depends(b.get("path_str"), el), f"the directory read is {short(b.get('path_str'))}", where)
                    ctx.check("walk", "directory extension", b.get("extension") == var("extension"), "another extension is used in directories", where)
                    ctx.check("walk", "directory preprocess", True if not pre or b.get("preprocess") == var("preprocess") else False if b.get("preprocess", NONE) == NONE else None, "templates in directories are not preprocessed", where)
            elif isdir is False and ext is False:
                ctx.check("walk", "other files", not kv, "a file with another extension becomes a template", where)
            elif isdir is False and ext:
                ctx.check("walk", "files", len(kv) == 1, "a template file is ignored", where)
                if len(kv) == 1:
                    v = kv[0][2]
                    reads = [x for x in subterms(v) if isinstance(x, S) and x.op in ("mret", "ret") and depends(x, el) and ("read_text" in repr(x) or "read" in repr(x))]
                    ctx.check("walk", "content", True if reads else None, "", where)
                    ctx.check("walk", "file name", kv[0][1] == attr(el, "name") or None, "", where)
                    done = depends(v, lambda x: isinstance(x, S) and x.op == "ret" and x.args[0] == var("preprocess"))
                    ctx.check("walk", "preprocessed", done == bool(pre) if pre is not None else (True if done else None), "the content of a file is not preprocessed", where)
            elif isdir is False and kv and not depends((tuple(facts), tuple(ps)), var("extension")):
                ctx.check("walk", "other files", False, "a file becomes a template whatever its extension", where)
            else:
                ctx.check("walk", "entries", None if ext is None or isdir is None else True, "", where)


# ---------------------------------------------------------------- rendering
def rendering(ctx):
    prog = ctx.prog
    base = prog.method("BaseVisitor", "visit")
    box = {}

    def visit(ip, st, fi, args, kwargs, node):
        pos, kw, rests = ip.expand(st, args, kwargs)
        ip.emit(st, "basevisit", ip.snap(st, pos[1]) if len(pos) > 1 else ip.snap(st, kw.get("node", NONE)), tuple(sorted((k, ip.snap(st, v)) for k, v in kw.items())) + tuple(("**", ip.snap(st, q[1])) for q in rests if q[0] == "rest"), node=node)
        return [(st, box["data"])]

    for none in (False, True):
        ip = interp(prog, {base.full: visit, prog.method("Template", "match").full: fake_match})
        st = State()
        vis = ip.lazy_obj(st, "JinjaVisitor", "visitor")
        node = ip.lazy_obj(st, "Node", "node", exact=False)
        ts = [ip.lazy_obj(st, "Template", f"t{i}") for i in range(2)]
        mine = ip.new_list(st, tuple(("item", t) for t in ts))
        ctxt = ip.new_list(st, (("kv", K("start_line"), K(1)), ("kv", K("start_column"), K(1)), ("kv", K("end_line"), K(1)), ("kv", K("end_column"), K(1)), ("kv", K("source"), NONE)), kind="dict")
        box["data"] = ip.new_list(st, (("kv", K("content"), var("d_content")), ("kv", K("_type"), var("d_type")), ("kv", K("_context"), ctxt)), kind="dict")
        st.heap[vis.oid] = st.heap[vis.oid].with_attr("templates", ip.new_list(st, (("kv", attr(var("node"), "type"), mine),), kind="dict")).with_attr("template_prefixes", ip.new_list(st, ()))
        outs = run(ip, prog.method("JinjaVisitor", "visit"), self_val=vis, state=st, args={"node": NONE if none else node}, kwargs={"option": var("option")})
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            where = o.exc_where if o.exc else o.where()
            if none:
                ctx.check("render", "None", o.exc is None and o.value == K(""), f"None is rendered as {short(o.value)}", where)
                continue
            f = {k.args[0].args[0]: v for k, v in o.st.facts.items() if isinstance(k, S) and k.op == "matches"}
            win = next((n for n in ("t0", "t1") if f.get(n)), None)
            if o.exc:
                ctx.check("render", "error", o.exc_name == "MauException" and win is None, f"{o.exc_name} although a template matches", where, o.path_text)
                continue
            bv = o.events("basevisit")
            ctx.check("render", "visited", len(bv) == 1 and bv[0].data[0] == var("node"), f"the node is visited {len(bv)} times", where)
            if bv:
                ctx.check("render", "options", ("option", var("option")) in bv[0].data[1] or depends(bv[0].data[1], var("option")), "the options of the visit are lost", where)
            v = o.value
            rend = [x for x in subterms(v) if isinstance(x, S) and x.op == "ret" and depends(x.args[0], lambda y: isinstance(y, S) and y.op == "attr" and y.args[1] == "render")]
            if not rend:
                ctx.check("render", "result", None if isinstance(v, S) else False, f"the result is {short(v)}", where)
                continue
            r = rend[0]
            ctx.check("render", "result", True if v == r else None, "", where)
            ctx.check("render", "template", depends(r.args[0], attr(var(win), "name")) if win else False, f"the template rendered is {short(r.args[0])}", where, o.path_text)
            kw = dict(r.args[2])
            flat = repr(r.args[1]) + repr(kw)
            for k, want in (("content", var("d_content")), ("_type", var("d_type"))):
                got = kw.get(k)
                ctx.check("render", f"data:{k}", True if got == want else False if got is not None or not depends(r.args[1:3], want) else None, f"the template receives {short(got)} as {k}", where)
            ctx.check("render", "data:_context", "_context" in kw or None, "", where)
            conf = kw.get("config")
            ev = attr(attr(var("visitor"), "environment"), "_variables")
            ctx.check("render", "config", False if conf is None else False if isinstance(conf, S) and conf.op == "dict" and not conf.args else True if depends(conf, ev) or depends(conf, attr(var("visitor"), "environment")) else None if not isinstance(conf, K) else False, f"the template receives {short(conf)} as config", where)


# -------------------------------------------------------------------- lists
def lists(ctx):
    prog = ctx.prog
    fi = prog.method("JinjaVisitor", "visitlist")
    vis_fi = prog.method("JinjaVisitor", "visit")

    def visit(ip, st, fi_, args, kwargs, node):
        pos, kw, rests = ip.expand(st, args, kwargs)
        n = pos[1] if len(pos) > 1 else kw.get("node", NONE)
        opts = tuple(sorted((k, ip.snap(st, v)) for k, v in kw.items() if k != "node"))
        ip.emit(st, "visit", ip.snap(st, n), opts, node=node)
        return [(st, S("out", (ip.snap(st, n),), ("str",)))]

    for kind in ("document", None):
        for n in (0, 1, 2, 3):
            ip = interp(prog, {vis_fi.full: visit})
            st = State()
            vis = ip.lazy_obj(st, "JinjaVisitor", "visitor")
            cur = ip.lazy_obj(st, "Node", "current", exact=False)
            nodes = [ip.lazy_obj(st, "Node", f"n{i}", exact=False) for i in range(n)]
            seps = ip.new_list(st, (("kv", K("document"), text("sep_document")), ("kv", K("source"), text("sep_source"))), kind="dict")
            st.heap[vis.oid] = st.heap[vis.oid].with_attr("join_with", seps).with_attr("join_with_default", text("sep_default"))
            st.heap[cur.oid] = st.heap[cur.oid].with_attr("type", K(kind or "something"))
            lst = ip.new_list(st, tuple(("item", x) for x in nodes))
            outs = run(ip, fi, self_val=vis, state=st, args={"current_node": cur, "nodes_list": lst}, kwargs={"option": var("option")})
            ctx.saw(ip)
            ctx.paths += len(outs)
            for o in outs:
                where = o.exc_where if o.exc else o.where()
                if o.exc:
                    ctx.check("list", "error", False, f"{o.exc_name}", where)
                    continue
                evs = o.events("visit")
                ctx.check("list", "options", all(("option", var("option")) in e.data[1] or depends(e.data[1], var("option")) for e in evs), "the options of the visit are lost", where)
                v = o.value
                t = o.deep(v, 3)
                got = [x for x in ordered(t) if isinstance(x, S) and x.op == "out"]
                want = [S("out", (var(f"n{i}"),)) for i in range(n)]
                ctx.check("list", "all nodes", got == want, f"a list of {n} nodes is rendered as {short(t)}", where)
                if n > 1:
                    sep = text("sep_document" if kind else "sep_default")
                    found = {x for x in subterms(t) if x in (text("sep_document"), text("sep_source"), text("sep_default"))}
                    ctx.check("list", "separator", found == {sep}, f"the outputs are joined with {short(found)} in {kind or 'other nodes'}", where)


def ordered(t):
    """Sub-terms from left to right."""
    yield t
    if isinstance(t, S):
        if t.op == "out":
            return
        for a in t.args:
            yield from ordered(a)
    elif isinstance(t, tuple):
        for a in t:
            yield from ordered(a)
