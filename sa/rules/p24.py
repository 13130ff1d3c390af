from ..absint import Cl, K, NONE, R, S
from ..model import Out, attr, depends, interp, run, short, subterms, var
from .p14 import flat_events
from .p23 import STEPS, fork, truth

PROPERTY = {
    "id": "P24",
    "title": "The command line writes the rendered input only if all steps succeed",
    "statement": "The command line lexes, parses and renders the text of the input file with the visitor chosen (`core:YamlVisitor`, `core:JinjaVisitor` or one registered by a package under `mau.visitors`), in this order, and a step that raises a Mau error makes it exit with status 1 at once: nothing is written. When all succeed it writes exactly the rendered text and a new line, once, to the output file given, to the standard output if that is `-`, or to the name of the input without the suffix `.mau` followed by a dot and the extension of the visitor. `--lexer-print-output` prints the tokens and only that option does, `--lexer-only` stops with status 0 after the lexer, and when no visitor is given the exit status is 1 and nothing is written.",
    "quantifier": {"over": ["inputs", "faults"], "text": "every combination of options and every step that fails"},
    "why_tests_cant": "The test suite does not run the command line; the claim is about every path of `main`.",
    "anchors": {
        "files": ["mau/cli.py", "mau/__init__.py"],
        "state": [{"name": "args", "meaning": "options given", "where": "mau/cli.py create_parser"}],
        "mechanism": [{"name": "main, write_output", "where": "mau/cli.py"}],
        "observe_at": ["exit status", "output file", "standard output"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the entry point with steps that succeed or raise: order, inputs and effects of every path"
LEVEL_NOTE = "argparse is trusted: the options are read from the calls of add_argument and their values are symbolic. Errors of the file system are not considered."
EXPLANATION = "main() is analysed with the three steps replaced by functions that return or raise; for each path the steps run, their arguments, the files opened for writing, the text written or printed and the exit status are compared with those the options (facts of the path) and the failures call for."
ASSUMPTIONS = ["argparse stores each option under its dest", "message handlers do not write files"]

def options(ctx):
    """{option string: (dest, {keyword: value})} from the calls of
    add_argument of the function that creates the parser."""
    prog = ctx.prog
    fi = prog.func("main")
    ip = interp(prog, step_fakes(prog))
    outs = run(ip, fi)
    res = {}
    for o in outs:
        for e in flat_events(o.st.trace):
            if e.kind == "opaque" and isinstance(e.data[0], S) and e.data[0].op == "attr" and e.data[0].args[1] == "add_argument":
                names = [a.v for a in e.data[1] if isinstance(a, K) and isinstance(a.v, str)]
                kw = dict(e.data[2])
                dest = kw.get("dest")
                if isinstance(dest, K):
                    d = dest.v
                else:
                    longs = [n for n in names if n.startswith("--")] or names
                    d = longs[0].lstrip("-").replace("-", "_") if longs else None
                for n in names:
                    res[n] = (d, kw)
        if res:
            break
    ctx.need("anchor", "options", len(res) > 5, "the options of the command line are not found")
    return res, ip, outs


def skip(name):
    def summ(ip, st, fi, args, kwargs, node):
        ip.emit(st, "env", name, tuple(ip.snap(st, a) for a in args), tuple(sorted((k, ip.snap(st, v)) for k, v in kwargs.items())), node=node)
        return [(st, NONE)]
    return summ


def typed(k, prog, cls):
    """A step that returns an object of its class or raises."""
    def summ(ip, st, fi, args, kwargs, node):
        outs = []
        for s, v in fork(k)(ip, st, fi, args, kwargs, node):
            if s.exc is None:
                v = S("did", (k,)) if cls is None else ip.mk(s, S("did", (k,)), ("cls", prog.cls(cls)))
            outs.append((s, v))
        return outs
    return summ


def load(ip, st, fi, args, kwargs, node):
    return [(st, S("visitors", ()))]


def step_fakes(prog):
    ex = {}
    for name, cls, ms in STEPS:
        ex[prog.method("Mau", name).full] = typed(name, prog, None if name == "run_visitor" else cls)
    for f in ("load_environment_files", "load_environment_variables"):
        ex[prog.func(f).full] = skip(f)
    ex[prog.func("load_visitors").full] = load
    return ex


def arg_term(t, dest):
    """Is t the value of an option?"""
    return isinstance(t, S) and t.op == "attr" and t.args[1] == dest and depends(t.args[0], lambda x: isinstance(x, S) and x.op in ("ret", "mret") and "parse_args" in repr(x.args[0]))


def given(o, dest):
    """True/False when the path tested the option, None otherwise."""
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "truth" and arg_term(k.args[0], dest):
            return v
        if isinstance(k, S) and k.op == "isnone" and arg_term(k.args[0], dest) and v:
            return False
        if isinstance(k, S) and k.op == "eq" and v and K("") in k.args and any(arg_term(x, dest) for x in k.args):
            return False
    seen = [k for k, v in o.st.facts.items() if not v and isinstance(k, S) and k.op in ("isnone", "eq") and any(arg_term(x, dest) for x in k.args) and (k.op == "isnone" or K("") in k.args)]
    return True if seen else None


def status(v):
    """The exit status of SystemExit(v)."""
    if isinstance(v, S) and v.op == "ret" and "SystemExit" in repr(v.args[0]):
        a = v.args[1]
        return a[0] if a else K(0)
    return v


def is_dash(o, t):
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "eq" and set(k.args) == {t, K("-")}:
            return v
    return None


def check(ctx):
    opts, ip, outs = options(ctx)
    ctx.saw(ip)
    ctx.paths += len(outs)

    def dest(n):
        ctx.need("anchor", n, n in opts, "the option does not exist")
        return opts[n][0] if n in opts else ""
    inp, out, fmt, pr, only = dest("--input-file"), dest("--output-file"), dest("--visitor"), dest("--lexer-print-output"), dest("--lexer-only")
    for n, d, a in (("--lexer-print-output", None, "store_true"), ("--lexer-only", None, "store_true")):
        v = opts.get(n, (None, {}))[1].get("action")
        ctx.check("options", n, v == K(a) or (None if v is None or isinstance(v, S) else False), f"the action of the option is {short(v)}")
    for n in ("--output-file", "--visitor"):
        v = opts.get(n, (None, {}))[1].get("default", NONE)
        ctx.check("options", n, v == NONE or (None if isinstance(v, S) else False), f"the default of the option is {short(v)}")
    names = [n for n, _, _ in STEPS]
    good = stopped = 0
    failed = set()
    for o in outs:
        evs = list(flat_events(o.st.trace))
        st = [e for e in evs if e.kind == "step"]
        ks = [e.data[0] for e in st]
        where, path = o.where(), o.path_text
        ctx.check("order", "main", ks == names[:len(ks)], f"the steps run are {ks}", where, path)
        writes, prints = effects(o, evs)
        bad = [e.data[0] for e in st if e.data[1] == "error"]
        # inputs of the steps
        for e in st:
            inputs(ctx, o, e, inp, fmt, where, path)
        tok = [p for p in prints if depends(p, S("did", ("run_lexer",)))]
        other = [p for p in prints if depends(p, S("did", ("run_visitor",)))]
        if st and not (bad and bad[0] == "run_lexer") and given(o, pr) is not None:
            ctx.check("tokens", "--lexer-print-output", bool(tok) == given(o, pr), "the tokens are not printed" if given(o, pr) else "the tokens are printed", where, path)
        elif tok:
            ctx.check("tokens", "--lexer-print-output", None if given(o, pr) else False, "the tokens are printed although the option is not given", where, path)
        if bad:
            failed.add(bad[0])
            ctx.check("status", bad[0], o.exc_name == "SystemExit" and status(o.st.exc.value) == K(1), f"after an error of {bad[0]} the program ends with {o.exc_name} {short(o.st.exc.value) if o.exc else ''}", where, path)
            ctx.check("nothing written", bad[0], not writes and not other, f"{writes or other} is written after an error of {bad[0]}", where, path)
            continue
        if o.exc is not None and o.exc_name != "SystemExit":
            ctx.check("status", "exception", None, "")
            continue
        code = status(o.st.exc.value) if o.exc else K(0)
        zero = code in (K(0), NONE)
        if given(o, only) is True:
            stopped += 1
            ctx.check("status", "--lexer-only", ks == names[:1] and o.exc is not None and zero, f"with --lexer-only the steps are {ks} and the status is {short(code)}", where, path)
            ctx.check("nothing written", "--lexer-only", not writes and not other, "an output is written", where, path)
            continue
        if len(ks) < len(names):
            ok = given(o, fmt) is False and code == K(1)
            ctx.check("status", "incomplete", ok, f"the program ends with status {short(code)} after {ks}", where, path)
            ctx.check("nothing written", "no visitor", not writes, "an output is written", where, path)
            continue
        good += 1
        ctx.check("status", "no visitor", given(o, fmt) is not False, "no visitor is given and the program goes on", where, path)
        ctx.check("status", "success", zero, f"all the steps succeed and the status is {short(code)}", where, path)
        output(ctx, o, writes, other, inp, out, fmt, where, path)
    ctx.need("coverage", "success", good > 0, "no path renders the text")
    ctx.check("status", "--lexer-only stops", stopped > 0, "--lexer-only does not stop the program")
    for n in names:
        ctx.need("coverage", n, n in failed, "the step is never run")
    visitors(ctx)


def visitors(ctx):
    """The visitors that can be chosen: those of Mau and of the plugins."""
    prog = ctx.prog
    fi = next((f for f in prog.functions.values() if f.qual == "load_visitors"), None)
    if fi is None:
        ctx.notes.append("load_visitors does not exist: not analysed")
        return
    ip = interp(prog)
    outs = run(ip, fi)
    ctx.saw(ip)
    for o in outs:
        if o.exc is not None:
            continue
        ob = o.st.heap.get(o.value.oid) if isinstance(o.value, R) else None
        if ob is None or ob.kind != "dict":
            ctx.check("visitors", "result", False if isinstance(o.value, K) else None, f"load_visitors gives {short(o.value)}", o.where(), o.path_text)
            continue
        known = {}
        rest = []
        for q in ob.parts:
            if q[0] == "kv" and isinstance(q[1], K):
                known[q[1].v] = q[2]
            else:
                rest.append(q)
        for name, cls in (("core:YamlVisitor", "YamlVisitor"), ("core:JinjaVisitor", "JinjaVisitor")):
            v = known.get(name)
            ok = (None if rest and name not in known and len(known) == 0 else False) if v is None else v == Cl(prog.cls(cls)) or (None if isinstance(v, S) else False)
            ctx.check("visitors", name, ok, f"the visitor {name} is {short(v) if v is not None else 'not available'}", o.where(), o.path_text)
        found = [t for q in rest for x in q[1:] for t in found_in(o, x) if isinstance(t, S) and t.op == "ret" and "entry_points" in short(t)]
        ok = any(depends(t, K("mau.visitors")) for t in found)
        ctx.check("visitors", "plugins", ok or (False if not rest or found else None), "the visitors of the entry points `mau.visitors` are not available", o.where(), o.path_text)


def found_in(o, x):
    if isinstance(x, tuple):
        return [t for y in x for t in found_in(o, y)]
    if isinstance(x, (S, R)):
        return list(subterms(o.snap(x)))
    return []


def inputs(ctx, o, e, inp, fmt, where, path):
    a = e.data[2]
    k = e.data[0]
    if k == "run_lexer":
        b = a[-1] if a else None
        d = o.deep(R(b.args[1])) if isinstance(b, S) and b.op == "new" else b
        file = lambda t: isinstance(t, S) and t.op in ("mret", "ret") and any(isinstance(x, S) and x.op == "file" and arg_term(x.args[0], inp) for x in subterms(t))
        ctx.check("input", "text", None if d is None else depends(d, file) or empty(o, file), "the text of the input file is not lexed", where, path)
        ctx.check("input", "name", None if d is None else depends(d, lambda t: arg_term(t, inp)) and any(isinstance(x, tuple) and len(x) == 2 and x[0] == "source_filename" and arg_term(x[1], inp) for x in subterms(d)) or (None if "source_filename" not in repr(d) else False), "the name of the input file is lost", where, path)
    elif k == "run_parser":
        ctx.check("input", "tokens", a[-1:] == (attr(S("did", ("run_lexer",)), "tokens"),), f"the parser receives {short(a[-1:])}", where, path)
    else:
        vs = [x for x in a if x == attr(S("did", ("run_parser",)), "output", "document")]
        ctx.check("input", "document", bool(vs), f"the visitor receives {short(a)}", where, path)
        cl = [x for x in a if isinstance(x, S) and depends(x, S("visitors", ()))]
        ok = bool(cl) and depends(cl[0], lambda t: arg_term(t, fmt))
        ctx.check("input", "visitor", ok, f"the visitor is {short(cl)}", where, path)


def empty(o, file):
    """The path tested that the file is empty."""
    return any(isinstance(k, S) and ((k.op == "eq" and v and K("") in k.args) or (k.op == "truth" and not v)) and any(file(x) for x in k.args) for k, v in o.st.facts.items())


def effects(o, evs):
    """([(file, what)] written, [terms] printed)"""
    writes, prints = [], []
    for e in evs:
        if e.kind == "open":
            args, kw = e.data[0], dict(e.data[1])
            mode = args[1] if len(args) > 1 else kw.get("mode", K("r"))
            if not (isinstance(mode, K) and set(str(mode.v)) <= set("rbt")):
                writes.append((args[0], None))
        elif e.kind == "opaque" and isinstance(e.data[0], S) and e.data[0].op == "attr":
            f, name = e.data[0].args
            if name in ("write", "writelines", "write_text", "write_bytes"):
                if isinstance(f, S) and f.op == "file":
                    writes.append((f.args[0], e.data[1]))
                elif "stdout" in repr(f):
                    prints.append(e.data[1])
                else:
                    writes.append((f, e.data[1]))
        elif e.kind == "print":
            prints.append(e.data[0])
    return writes, prints


def text_of(o, ws):
    """The text written, as a sequence of terms."""
    out = []
    for w in ws:
        for x in w if isinstance(w, tuple) else (w,):
            if isinstance(x, S) and x.op in ("fstr", "add", "concat"):
                out += list(x.args)
            else:
                out.append(x)
    return out


def output(ctx, o, writes, prints, inp, out, fmt, where, path):
    rendered = S("did", ("run_visitor",))
    opened = [f for f, w in writes if w is None]
    texts = [w for f, w in writes if w is not None]
    dash = None
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "eq" and K("-") in k.args:
            dash = v if dash is None else dash
            t = [x for x in k.args if x != K("-")]
            if v and t and not arg_term(t[0], out):
                # the name computed from the input is not `-`
                return
    if dash is True:
        ctx.check("output", "standard output", prints == [(rendered,)] and not writes, f"{short(prints)} is printed and {short(writes)} written", where, path)
        return
    if dash is None and given(o, out) is not False:
        ctx.check("output", "standard output", False, "`-` is not the standard output", where, path)
    w = text_of(o, texts)
    ok = w == [rendered, K("\n")] and not prints
    ctx.check("output", "text", ok if not any(isinstance(x, S) and x.op in ("unknown", "mret", "ret") for x in w) else None, f"the text written is {short(w)}", where, path)
    ctx.check("output", "once", len(opened) == 1 or (None if not opened else False), f"{len(opened)} files are written", where, path)
    for f in opened:
        g = given(o, out)
        if g:
            ctx.check("output", "name given", arg_term(f, out) or (None if depends(f, lambda t: arg_term(t, out)) and isinstance(f, S) and f.op == "path" else False), f"the output goes to {short(f)}", where, path)
        elif g is False:
            ctx.check("output", "default name", default_name(o, f, inp, fmt), f"the output goes to {short(f)}", where, path)
        else:
            ctx.check("output", "name", False, "the output does not depend on the option --output-file", where, path)


def suffix(o, inp):
    """Does the name of the input end with .mau on this path?"""
    for k, v in o.st.facts.items():
        if isinstance(k, S) and k.op == "endswith" and arg_term(k.args[0], inp) and k.args[1:] == (K(".mau"),):
            return v
    return None


def default_name(o, f, inp, fmt):
    if isinstance(f, S) and f.op == "path" and len(f.args) == 1:
        f = f.args[0]
    if not isinstance(f, S) or f.op not in ("fstr", "add", "concat"):
        return None if isinstance(f, S) and f.op in ("mret", "ret", "unknown", "oneof", "phi") else False
    parts = flatten(f)
    if len(parts) != 3:
        return False
    a, b, c = parts
    stem = isinstance(a, S) and a.op == "removesuffix" and arg_term(a.args[0], inp) and a.args[1] == K(".mau")
    ext = isinstance(c, S) and c.op == "attr" and c.args[1] == "extension" and depends(c, lambda t: arg_term(t, fmt))
    if stem and b == K(".") and ext:
        return True
    if b == K(".") and ext and arg_term(a, inp) and suffix(o, inp) is False:
        return True
    if isinstance(a, S) and a.op in ("sub", "mret", "ret", "slice", "phi") and b == K(".") and ext:
        # computed in some other way
        return None
    return False


def flatten(t):
    if isinstance(t, S) and t.op in ("fstr", "add", "concat"):
        return [y for x in t.args for y in flatten(x)]
    return [t]
