from ..absint import Cl, K, NONE, R, S, State
from ..model import attr, depends, interp, run, short, subterms, var
from .p14 import flat_events
from .p23 import STEPS, fakes
from .p24 import arg_term, given, options, step_fakes

PROPERTY = {
    "id": "P34",
    "title": "Configuration, environment files and variables reach the documents",
    "statement": "The command line stores the configuration file under `mau`, then each environment file under `mau.<namespace>.<key>` (given as KEY=PATH, or PATH with the name of the file without extension as key), then each variable KEY=VALUE under `mau.<namespace>.<key>` with all the text after the first `=` as value, all in the environment used to lex, parse and render. The namespaces are those of the options, `envfiles` and `envvars` by default; every file and every variable given is stored, and of two with the same key the last one wins. An environment file that cannot be opened or is not YAML, and a variable without `=`, are reported as a ConfigurationError.",
    "quantifier": {"over": ["inputs", "faults"], "text": "every list of files and variables, every namespace"},
    "why_tests_cant": "Tests load one or two files and variables through the helper functions; that all the entries get to the right place, in the right order and in the environment of the document is a claim on every path.",
    "anchors": {
        "files": ["mau/__init__.py", "mau/cli.py", "mau/environment/environment.py"],
        "state": [{"name": "environment", "meaning": "variables of the document", "where": "mau/__init__.py Mau"}],
        "mechanism": [{"name": "load_environment_files, load_environment_variables", "where": "mau/__init__.py"}, {"name": "main", "where": "mau/cli.py"}],
        "observe_at": ["variables available in the document"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the loaders on lists of known shape and of main() on symbolic options: provenance and order of what is stored in the environment"
LEVEL_NOTE = "The loaders are analysed on lists with two files and three variables (the entries are handled independently) and on a list of unknown length for completeness; how a nested dictionary is flattened is P20."
EXPLANATION = "Environment.dupdate is observed: each (namespace, key, value) stored is compared with the one the entry calls for; in main() the configuration, the files and the variables must be stored in this order, before lexing, in the environment given to the Mau object."
ASSUMPTIONS = ["YAML documents are loaded by yaml.safe_load"]

FILES = "load_environment_files"
VARS = "load_environment_variables"


def stored(ip, st, fi, args, kwargs, node):
    """Environment.dupdate"""
    names = [a.arg for a in fi.node.args.args]
    b = dict(zip(names, args))
    b.update({k: v for k, v in kwargs.items() if k in names})
    env = b.get(names[0])
    data, ns = b.get(names[1]), b.get(names[2], NONE) if len(names) > 2 else NONE
    ps = None
    o = st.heap.get(data.oid) if isinstance(data, R) else None
    if o is not None and o.kind == "dict":
        ps = tuple((q[0],) + tuple(ip.snap(st, x) for x in q[1:]) if q[0] == "kv" else q for q in o.parts)
    ip.emit(st, "stored", ip.snap(st, env), ip.snap(st, data), ps, ip.snap(st, ns), node=node)
    return [(st, NONE)]


def item(ip, st, fi, args, kwargs, node):
    """Environment.__setitem__"""
    a = [ip.snap(st, x) for x in args]
    ip.emit(st, "stored", a[0], NONE, (("kv", a[1], a[2]),), NONE, node=node)
    return [(st, NONE)]


def env_fakes(prog):
    return {prog.method("Environment", "dupdate").full: stored, prog.method("Environment", "__setitem__").full: item}


def cat(ns, key):
    if ns in (NONE, K("")):
        return key
    if isinstance(ns, K) and isinstance(key, K):
        return K(f"{ns.v}.{key.v}")
    if isinstance(key, S) and key.op == "fstr":
        return S("fstr", (K(f"{ns.v}."), *key.args)) if isinstance(ns, K) else None
    return S("at", (ns, key))


def entries(o, env):
    """{full key: value} stored, in order; None when the shape is unknown."""
    res = {}
    for e in flat_events(o.st.trace):
        if e.kind != "stored":
            continue
        if e.data[0] != env:
            continue
        ps, ns = e.data[2], e.data[3]
        if ps is None:
            return None
        for q in ps:
            if q[0] != "kv":
                return None
            v = q[2]
            nested = expand(o, v)
            if nested is not None:
                for k2, v2 in nested:
                    res[cat(cat(ns, q[1]), k2)] = v2
            else:
                res[cat(ns, q[1])] = v
    return res


def expand(o, v):
    """Content of a dictionary created by the function."""
    if isinstance(v, S) and v.op == "new":
        return None
    ob = o.st.heap.get(v.oid) if isinstance(v, R) else None
    if isinstance(v, S) and v.op == "dict" and all(isinstance(q, tuple) and q[0] == "kv" for q in v.args):
        return [(q[1], q[2]) for q in v.args]
    return None


def check(ctx):
    files(ctx)
    variables(ctx)
    entry(ctx)
    shared(ctx)


def shared(ctx):
    """The steps work on the environment of the Mau object."""
    prog = ctx.prog
    for name, cls, ms in STEPS:
        fi = prog.method("Mau", name)
        ip = interp(prog, fakes(prog))
        outs = run(ip, fi, self_path="mau", args={a.arg: Cl(prog.cls(cls)) for a in fi.node.args.args if "class" in a.arg})
        ctx.saw(ip)
        ctx.paths += len(outs)
        n = 0
        for o in outs:
            for e in flat_events(o.st.trace):
                if e.kind != "step":
                    continue
                n += 1
                me = e.data[2][0]
                want = attr(var("mau"), "environment")
                if name == "run_visitor":
                    if not e.data[0].endswith("__init__"):
                        continue
                    ok = want in e.data[2]
                else:
                    got = o.snap(o.get(R(me.args[1]), "environment")) if isinstance(me, S) and me.op == "new" else None
                    ok = None if got is None else got == want
                ctx.check("environment", name, ok, "the environment of the Mau object is not used", o.where(), o.path_text)
        ctx.need("coverage", name, n > 0, "the step is never run")


def explore(ctx, name, listing, ns):
    prog = ctx.prog
    fi = prog.func(name)
    ip = interp(prog, env_fakes(prog), raise_mode=True)
    st = State()
    names = [a.arg for a in fi.node.args.args]
    ctx.need("anchor", name, len(names) >= 3, "unexpected parameters")
    env = ip.lazy_obj(st, "Environment", "environment")
    lst = ip.new_list(st, tuple(("item", x) for x in listing)) if listing is not None else ip.mk(st, var("entries"), ("list", ("str",)))
    outs = run(ip, fi, state=st, args={names[0]: env, names[1]: lst, names[2]: ns})
    ctx.saw(ip)
    ctx.paths += len(outs)
    return ip, outs, env


def stem(path, name):
    return {K(name), attr(S("path", (K(path),)), "stem")}


def loaded(v, path):
    """Is v the YAML content of the file?"""
    if not (isinstance(v, S) and v.op == "yaml"):
        return False if isinstance(v, (K, S)) and not depends(v, lambda t: isinstance(t, S) and t.op == "yaml") else None
    return depends(v, lambda t: t == K(path))


def files(ctx):
    for ns, base in ((NONE, "mau.envfiles"), (K(""), "mau.envfiles"), (K("space"), "mau.space")):
        ip, outs, env = explore(ctx, FILES, [K("one.two=dir/b.yaml"), K("dir/c.yaml")], ns)
        good = 0
        for o in outs:
            where, path = o.where(), o.path_text
            if o.exc is not None:
                ctx.check("error", FILES, o.exc_name == "ConfigurationError", f"{o.exc_name} escapes", where, path)
                continue
            good += 1
            es = entries(o, o.snap(env))
            cons = f"{FILES}:{ns.v or 'default namespace'}"
            if es is None:
                ctx.check("files", cons, None, "")
                continue
            keys = list(es)
            want = [{K(f"{base}.one.two")}, {K(f"{base}.c")} | {cat(K(base), x) for x in stem("dir/c.yaml", "c")}]
            ok = len(keys) == 2 and all(k in w for k, w in zip(keys, want))
            if not ok and any(isinstance(k, S) for k in keys):
                ok = None if any(isinstance(k, S) and k.op != "at" for k in keys) else False
            ctx.check("files", cons, ok, f"the files are stored as {short(keys)}", where, path)
            if ok:
                for k, p in zip(keys, ("dir/b.yaml", "dir/c.yaml")):
                    ctx.check("content", f"{FILES}:{p}", loaded(es[k], p), f"{p} is stored as {short(es[k])}", where, path)
        ctx.check("files", "loaded", good > 0, "no path loads the files")
        bad = [o for o in outs if o.exc_name == "ConfigurationError"]
        for exc, desc, f, nd, where, stack, facts in ip.partials:
            if exc in ("FileNotFoundError", "OSError", "UnicodeDecodeError", "YAMLError"):
                ctx.check("error", f"{FILES}:{exc}", False, f"{exc} escapes when the file cannot be loaded", where)
        ctx.check("error", f"{FILES}:reported", bool(bad), "an environment file that cannot be loaded is not reported as a ConfigurationError")
    whole(ctx, FILES)


def symbolic(es):
    return any(isinstance(x, S) and x.op in ("mret", "ret", "unknown", "at", "phi") for k, v in es.items() for t in (k, v) for x in subterms(t))


def variables(ctx):
    for ns, base in ((NONE, "mau.envvars"), (K(""), "mau.envvars"), (K("space"), "mau.space")):
        ip, outs, env = explore(ctx, VARS, [K("a=1"), K("b.c=x=y"), K("d=")], ns)
        good = 0
        for o in outs:
            where, path = o.where(), o.path_text
            if o.exc is not None:
                ctx.check("error", VARS, False, f"{o.exc_name} with variables that are correct", where, path)
                continue
            good += 1
            es = entries(o, o.snap(env))
            want = {K(f"{base}.a"): K("1"), K(f"{base}.b.c"): K("x=y"), K(f"{base}.d"): K("")}
            ok = None if es is None else es == want
            if ok is False and symbolic(es):
                ok = None
            ctx.check("variables", f"{VARS}:{ns.v or 'default namespace'}", ok, f"the variables are stored as {short(es)}", where, path)
        ctx.check("variables", "loaded", good > 0, "no path loads the variables")
    ip, outs, env = explore(ctx, VARS, [K("a=1"), K("b")], NONE)
    for o in outs:
        ctx.check("error", f"{VARS}:no separator", o.exc_name == "ConfigurationError", f"a variable without `=` gives {o.exc_name or 'no error'}", o.where(), o.path_text)
    # of two with the same key the last one wins
    ip, outs, env = explore(ctx, VARS, [K("a=1"), K("a=2")], NONE)
    for o in outs:
        es = entries(o, o.snap(env)) if o.exc is None else {}
        ctx.check("last one", VARS, None if es is None or symbolic(es) else es == {K("mau.envvars.a"): K("2")}, f"two variables with the same key give {short(es)}", o.where(), o.path_text)
    whole(ctx, VARS)


def whole(ctx, name):
    """Every entry of a list of any length is stored."""
    ip, outs, env = explore(ctx, name, None, NONE)
    some = 0
    for o in outs:
        if o.exc is not None:
            continue
        evs = [e for e in flat_events(o.st.trace) if e.kind == "stored"]
        empty = any(isinstance(k, S) and depends(k, var("entries")) and not v for k, v in o.st.facts.items())
        if not evs:
            # nothing was given
            continue
        some += 1
        for e in evs:
            if e.data[2] is None:
                continue
            for q in e.data[2]:
                if q[0] != "each":
                    continue
                src = q[1]
                if src == var("entries"):
                    ctx.check("every entry", name, all(len(sub) for _, sub in q[2]), "an entry is skipped", e.where or o.where(), o.path_text)
                elif isinstance(src, S) and src.op in ("slice", "filter", "filtered"):
                    ctx.check("every entry", name, False, f"only {short(src)} is stored", e.where or o.where(), o.path_text)
                else:
                    ctx.check("every entry", name, None, "")
    ctx.check("every entry", f"{name}:stored", True if some else False, "nothing is ever stored")


def entry(ctx):
    opts, _, _ = options(ctx)
    prog = ctx.prog
    fi = prog.func("main")
    ip = interp(prog, {**step_fakes(prog), **env_fakes(prog)})
    ip.split_defaults = True
    outs = run(ip, fi)
    ctx.saw(ip)
    ctx.paths += len(outs)

    def opt(n, *defaults, action=None):
        d, kw = opts.get(n, (None, {}))
        ctx.need("anchor", n, d is not None, "the option does not exist")
        v = kw.get("default", NONE)
        ctx.check("options", n, v in defaults or (None if isinstance(v, S) else False), f"the default is {short(v)}")
        if action:
            a = kw.get("action", K("store"))
            ctx.check("options", f"{n}:action", a == K(action) or (None if isinstance(a, S) else False), f"the action is {short(a)}: only the last one is kept")
        return d
    conf = opt("--config-file", NONE)
    ff, fn = opt("--environment-file", NONE, action="append"), opt("--environment-files-namespace", NONE, K("envfiles"))
    vf, vn = opt("--environment-variable", NONE, action="append"), opt("--environment-variables-namespace", NONE, K("envvars"))
    reached = 0
    for o in outs:
        evs = [e for e in flat_events(o.st.trace) if e.kind in ("stored", "env", "step")]
        steps = [i for i, e in enumerate(evs) if e.kind == "step"]
        where, path = o.where(), o.path_text
        if not steps:
            continue
        reached += 1
        first = evs[steps[0]]
        env = mau_env(o, first)
        before = evs[:steps[0]]
        late = [e for e in evs[steps[0]:] if e.kind != "step"]
        ctx.check("order", "before lexing", not late, "the environment changes after the lexer", where, path)
        calls = [e for e in before if e.kind == "env"]
        names = [e.data[0] for e in calls]
        ctx.check("order", "files, variables", names == [FILES, VARS], f"the functions run are {names}", where, path)
        g = given(o, conf)
        cs = [e for e in before if e.kind == "stored"]
        def stored_conf(e):
            return depends(e.data[1], lambda t: isinstance(t, S) and t.op == "yaml" and depends(t, lambda x: arg_term(x, conf)))
        hit = [e for e in cs if stored_conf(e)]
        if g and not any(falsy(o, k, v, conf) for k, v in o.st.facts.items()):
            ctx.check("configuration", "stored", len(hit) == 1, f"the configuration is stored {len(hit)} times", where, path)
        for e in hit:
            ctx.check("configuration", "namespace", e.data[3] == K("mau") or (None if isinstance(e.data[3], S) else False), f"the configuration is stored under {short(e.data[3])}", where, path)
            ctx.check("order", "configuration first", not calls or before.index(e) < before.index(calls[0]), "the configuration overrides the files or the variables", where, path)
            if env is not None:
                ctx.check("environment", "configuration", e.data[0] == env, "the configuration is not in the environment of the document", where, path)
        for e in calls:
            args, kw = e.data[1], dict(e.data[2])
            f = prog.func(e.data[0])
            names = [a.arg for a in f.node.args.args]
            b = {**dict(zip(names, args)), **kw}
            lst, ns = (ff, fn) if e.data[0] == FILES else (vf, vn)
            if env is not None:
                ctx.check("environment", e.data[0], b.get(names[0]) == env, "the values are not in the environment of the document", where, path)
            v = b.get(names[1])
            has = given(o, lst)
            ok = arg_term(v, lst) or (has is False) or (None if depends(v, lambda t: arg_term(t, lst)) else False)
            why = f"the list is {short(v)}"
            if ok is True and has is not True and (v == NONE or arg_term(v, lst)) and opts["--environment-file" if e.data[0] == FILES else "--environment-variable"][1].get("default", NONE) == NONE and fails_on_none(prog, f):
                ok, why = False, "without the option the list is None and the command line fails"
            ctx.check("passed", f"{e.data[0]}:list", ok, why, where, path)
            n = b.get(names[2], NONE)
            ctx.check("passed", f"{e.data[0]}:namespace", arg_term(n, ns) or (None if depends(n, lambda t: arg_term(t, ns)) else False), f"the namespace is {short(n)}", where, path)
    ctx.need("coverage", "main", reached > 0, "no path runs the lexer")


def fails_on_none(prog, f):
    """The loader iterates over None when no list is given."""
    ip = interp(prog, env_fakes(prog), raise_mode=True)
    names = [a.arg for a in f.node.args.args]
    outs = run(ip, f, args={names[1]: NONE})
    return bool(outs) and all(o.exc is not None and o.exc_name in ("TypeError", "AttributeError") for o in outs)


def falsy(o, k, v, conf):
    """The configuration loaded is empty."""
    return isinstance(k, S) and k.op in ("truth", "isnone") and depends(k, lambda t: isinstance(t, S) and t.op == "yaml") and v == (k.op == "isnone")


def mau_env(o, step):
    m = step.data[2][0] if step.data[2] else None
    if isinstance(m, S) and m.op == "new":
        return o.snap(o.get(R(m.args[1]), "environment"))
    return None
