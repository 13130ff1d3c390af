import ast

from ..absint import Cl, Enm, Exc, K, NONE, R, S, State, Tup
from ..model import Out, attr, depends, interp, is_attr, run, short, subterms, var
from .common import at_path
from .p14 import flat_events

PROPERTY = {
    "id": "P23",
    "title": "Every error reaches the message handler and none is swallowed",
    "statement": "A Mau exception raised by the lexer, the parser or the visitor (its construction included) is handed exactly once to the message handler by the Mau object and then raised again, and no other code of Mau catches a Mau exception without raising one. The exceptions carry a message of their own kind with the values they were created with (visitor contexts are moved to lines counted from 1); `process` of a handler passes each of the four kinds of message to its own method, and a node with the internal tag `debug` sends a debug message. The log handler logs the text of every message and all that it carries: source and position of a lexer error, context and help text of a parser error, context, node type, data and additional information of visitor errors and debug messages.",
    "quantifier": {"over": ["inputs"], "text": "every error of every step and every exception handler of the package"},
    "why_tests_cant": "The tests check the logger with a few messages; that no handler anywhere swallows an error is a claim about all the code.",
    "anchors": {
        "files": ["mau/__init__.py", "mau/message.py", "mau/visitors/base_visitor.py", "mau/parsers/base_parser.py", "mau/lexers/base_lexer.py"],
        "state": [{"name": "message_handler", "meaning": "where messages go", "where": "mau/__init__.py"}],
        "mechanism": [{"name": "run_lexer, run_parser, run_visitor", "where": "mau/__init__.py"}, {"name": "BaseMessageHandler.process", "where": "mau/message.py"}],
        "observe_at": ["calls of the message handler", "log"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of the steps with callees that succeed or fail; exception-handler lint over the call graph; provenance of what is logged"
LEVEL_NOTE = "Which functions can raise a Mau exception is over-approximated by names, and a handler is reported only when it may catch one and may end without raising."
EXPLANATION = "The lexer, the parser and the visitor are replaced by functions that return or raise; every path of the Mau object must hand the message of the exception once and raise it again. All except clauses of the package that can catch a Mau exception and protect a call that can raise one must end by raising. Dispatch and logging are analysed with a message of each kind."
ASSUMPTIONS = ["the message handler itself does not raise"]

ERR = S("error", ("error",))
STEPS = (
    ("run_lexer", "DocumentLexer", (("process", "DocumentLexer"),)),
    ("run_parser", "DocumentParser", (("parse", "DocumentParser"),)),
    ("run_visitor", "JinjaVisitor", (("process", "JinjaVisitor"), ("__init__", "JinjaVisitor"))),
)


def check(ctx):
    steps(ctx)
    swallow(ctx)
    creators(ctx)
    dispatch(ctx)
    log(ctx)
    debug(ctx)


# --------------------------------------------------------------------- steps
def fork(k, value=None):
    """A callee that succeeds or fails."""
    def summ(ip, st, fi, args, kwargs, node):
        outs = []
        for kind in ("ok", "error"):
            s = st.fork()
            ip.emit(s, "step", k, kind, tuple(ip.snap(s, a) for a in args), node=node)
            if kind == "ok":
                outs.append((s, value or NONE))
            else:
                s.exc = Exc(ip.p.cls("MauException"), ERR, ip.where(node))
                outs.append((s, NONE))
        return outs
    return summ


def handled(ip, st, fi, args, kwargs, node):
    a = [ip.snap(st, x) for x in args[1:]] + [ip.snap(st, x) for x in kwargs.values()]
    ip.emit(st, "delivered", a[0] if a else NONE, node=node)
    return [(st, NONE)]


def ignore(ip, st, fi, args, kwargs, node):
    return [(st, NONE)]


def handler_summaries(prog):
    base = prog.cls("BaseMessageHandler")
    return {fi.full: handled for c in prog.classes.values() if prog.is_subclass(c, base) for n, fi in c.methods.items() if n == "process"}


def fakes(prog, which=STEPS):
    ex = handler_summaries(prog)
    for name, cls, ms in which:
        for m, c in ms:
            v = S("rendered", ()) if name == "run_visitor" and m == "process" else None
            fi = prog.method(c, m)
            ex[fi.full] = fork(f"{name}.{m}", v)
            if name == "run_visitor":
                ex[prog.method("BaseVisitor", m).full] = fork(f"{name}.{m}", v)
    return ex


def steps(ctx):
    prog = ctx.prog
    for name, cls, ms in STEPS:
        fi = prog.method("Mau", name)
        ip = interp(prog, fakes(prog))
        args = {}
        for a in fi.node.args.args[1:]:
            if name == "run_visitor" and "class" in a.arg:
                args[a.arg] = Cl(prog.cls(cls))
        outs = run(ip, fi, self_path="mau", args=args)
        one(ctx, ip, outs, name, [f"{name}.{m}" for m, _ in ms])
    fi = prog.method("Mau", "process")
    ip = interp(prog, fakes(prog))
    outs = run(ip, fi, self_path="mau", args={a.arg: Cl(prog.cls("JinjaVisitor")) for a in fi.node.args.args if "class" in a.arg})
    one(ctx, ip, outs, "process", [f"{n}.{m}" for n, _, ms in STEPS for m, _ in ms])


def one(ctx, ip, outs, name, all_steps):
    ctx.saw(ip)
    ctx.paths += len(outs)
    failed, good = set(), 0
    for o in outs:
        st = [e for e in flat_events(o.st.trace) if e.kind == "step"]
        hs = [e.data[0] for e in flat_events(o.st.trace) if e.kind == "delivered"]
        bad = [e.data[0] for e in st if e.data[1] == "error"]
        if not bad:
            if o.exc is None:
                good += 1
                ctx.check("handed over", f"Mau.{name}:no error", not hs, "a message is handed to the handler although nothing failed", o.where(), o.path_text)
                if name in ("run_visitor", "process"):
                    ctx.check("result", f"Mau.{name}", o.snap(o.value) == S("rendered", ()), f"the result is {short(o.snap(o.value))}, not the one of the visitor", o.where(), o.path_text)
            continue
        failed.add(bad[0])
        n = sum(h == attr(ERR, "message") for h in hs)
        other = [h for h in hs if h != attr(ERR, "message")]
        ctx.check("handed over", f"Mau.{name}:{bad[0]}", True if n == 1 and not other else None if len(hs) == 1 and depends(hs[0], ERR) and not is_attr(hs[0]) and hs[0] != ERR else False, f"an error of {bad[0]} is handed {n} times to the message handler" if not other else f"the handler receives {short(other[0])}", o.where(), o.path_text)
        ctx.check("raised again", f"Mau.{name}:{bad[0]}", o.exc_name == "MauException" and (o.st.exc.value == ERR or None), f"an error of {bad[0]} ends with {o.exc_name or short(o.value)}", o.where(), o.path_text)
        ctx.check("stops", f"Mau.{name}:{bad[0]}", st[-1].data[1] == "error", f"{st[-1].data[0]} follows the error of {bad[0]}", o.where(), o.path_text)
    ctx.need("coverage", f"Mau.{name}", good > 0, "no path succeeds")
    for k in all_steps:
        ctx.need("coverage", f"Mau.{name}:{k}", k in failed or k.endswith("__init__"), "the step is never run")


# ------------------------------------------------------------------- swallow
def called_names(nodes):
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name):
                    yield f.id, x
                elif isinstance(f, ast.Attribute):
                    yield f.attr, x


def targets(prog, fi, call, by):
    """Functions a call can reach: by the type of the receiver when it is
    known (and its subclasses), otherwise by name."""
    f = call.func
    if isinstance(f, ast.Name):
        b = prog.resolve(fi.module, f.id)
        if b and b[0] == "func":
            return [b[1]], True
        if b and b[0] == "class":
            x = prog.find_method(b[1], "__init__")
            return [x] if x is not None else [], True
        return by.get(f.id, []), False
    if not isinstance(f, ast.Attribute):
        return [], True
    ci = receiver(prog, fi, f.value)
    if ci is not None:
        out = [prog.find_method(ci, f.attr)]
        out += [c.methods[f.attr] for c in prog.classes.values() if f.attr in c.methods and prog.is_subclass(c, ci)]
        out = [x for x in out if x is not None]
        if out:
            return out, True
    return by.get(f.attr, []), False


def receiver(prog, fi, e, depth=3):
    if not depth:
        return None
    if isinstance(e, ast.Name):
        if fi.cls is not None and fi.node.args.args and e.id == fi.node.args.args[0].arg:
            return fi.cls
        for a in fi.node.args.args + fi.node.args.kwonlyargs:
            if a.arg == e.id and a.annotation is not None:
                return as_class(prog.parse_type(fi.module, a.annotation))
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id and isinstance(x.value, ast.Call):
                t = result(prog, fi, x.value, depth - 1)
                if t is not None:
                    return t
        b = prog.resolve(fi.module, e.id)
        return b[1] if b and b[0] == "class" else None
    if isinstance(e, ast.Attribute):
        ci = receiver(prog, fi, e.value, depth)
        return as_class(prog.attr_types(ci).get(e.attr)) if ci is not None else None
    return None


def result(prog, fi, call, depth):
    """Class of what a call returns."""
    if isinstance(call.func, ast.Name):
        b = prog.resolve(fi.module, call.func.id)
        if b and b[0] == "class":
            return b[1]
        if b and b[0] == "func" and b[1].node.returns is not None:
            return as_class(prog.parse_type(b[1].module, b[1].node.returns))
    if isinstance(call.func, ast.Attribute):
        ci = receiver(prog, fi, call.func.value, depth)
        m = prog.find_method(ci, call.func.attr) if ci is not None else None
        if m is not None and m.node.returns is not None:
            return as_class(prog.parse_type(m.module, m.node.returns))
    return None


def as_class(t):
    if t and t[0] == "opt":
        t = t[1]
    return t[1] if t and t[0] == "cls" else None


class Raisers:
    """Which functions can raise a Mau exception."""

    def __init__(self, prog, creators):
        self.prog = prog
        self.creators = creators
        self.by = {}
        for fi in prog.functions.values():
            self.by.setdefault(fi.name, []).append(fi)
        for ci in prog.classes.values():
            fi = prog.find_method(ci, "__init__")
            self.by.setdefault(ci.name, []).extend([fi] if fi is not None else [])
        self.yes = set()
        self.calls = {fi.full: [targets(prog, fi, c, self.by) for _, c in called_names(fi.node.body)] for fi in prog.functions.values()}
        for fi in prog.functions.values():
            if self.creates(fi.node):
                self.yes.add(fi.full)
        changed = True
        while changed:
            changed = False
            for fi in prog.functions.values():
                if fi.full not in self.yes and any(self.any(t) for t in self.calls[fi.full]):
                    self.yes.add(fi.full)
                    changed = True

    def creates(self, node):
        return any(isinstance(x, ast.Raise) and x.exc is not None and any(n in self.creators for n, _ in called_names([x.exc])) for x in ast.walk(node))

    def any(self, t):
        fs, exact = t
        q = [f.full in self.yes for f in fs]
        return any(q) if exact else bool(q) and all(q)

    def hits(self, fi, body):
        """Names of the calls of the block that can raise."""
        out = [n for n, c in called_names(body) if self.any(targets(self.prog, fi, c, self.by))]
        if any(self.creates(s) for s in body):
            out.append("raise")
        return out


def always_raises(body):
    """Every path of the block ends with a raise (or an exit)."""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
        if isinstance(s, ast.Try) and (always_raises(s.finalbody) or (always_raises(s.body) and all(always_raises(h.body) for h in s.handlers))):
            return True
        if isinstance(s, ast.Match) and s.cases and all(always_raises(c.body) for c in s.cases):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if n in ("exit", "_exit"):
                return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def catches(prog, ip, mod, h):
    mau = prog.cls("MauException")
    if h.type is None:
        return True
    types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    for t in types:
        b = prog.resolve_expr(mod, t)
        if b and b[0] == "class":
            if ip.exc_matches(mau, b[1]):
                return True
        elif isinstance(t, (ast.Name, ast.Attribute)):
            n = t.id if isinstance(t, ast.Name) else t.attr
            if n in ("ValueError", "Exception", "BaseException"):
                return True
    return False


def swallow(ctx):
    prog = ctx.prog
    ip = interp(prog)
    creators = {"MauException"} | {f.name for f in prog.functions.values() if any(isinstance(x, ast.Return) and x.value is not None and any(n == "MauException" for n, _ in called_names([x.value])) for x in ast.walk(f.node))}
    ctx.need("anchor", "creators", len(creators) > 1, "no function creates a Mau exception")
    can = Raisers(prog, creators)
    ctx.need("anchor", "raisers", prog.method("BaseParser", "parse").full in can.yes, "the functions that raise are not recognised")
    # functions that never return normally
    never = {f.name for f in prog.functions.values() if always_raises(f.node.body)}
    n = caught = 0
    for fi in prog.functions.values():
        for t in ast.walk(fi.node):
            if isinstance(t, ast.Try):
                n += 1
                hit = can.hits(fi, t.body)
                for h in t.handlers:
                    if not catches(prog, ip, fi.module, h):
                        continue
                    if hit:
                        caught += 1
                        ok = always_raises(h.body) or any(x in never for x, _ in called_names(h.body))
                        ctx.check("swallowed", f"{fi.qual}:{hit[0]}", ok, f"the handler can end without raising although {hit[0]} can raise a Mau exception", (f"{fi.module.path}:{h.lineno}", fi.qual))
                    break
                if t.finalbody and hit:
                    leave = [x for s in t.finalbody for x in ast.walk(s) if isinstance(x, (ast.Return, ast.Break, ast.Continue))]
                    ctx.check("swallowed", f"{fi.qual}:finally", not leave, "the finally block discards the exception", (f"{fi.module.path}:{t.lineno}", fi.qual))
            elif isinstance(t, ast.With):
                for item in t.items:
                    c = item.context_expr
                    if isinstance(c, ast.Call) and ("suppress" in ast.unparse(c.func)):
                        hit = can.hits(fi, t.body)
                        names = [ast.unparse(a).split(".")[-1] for a in c.args]
                        bad = [x for x in names if x in ("ValueError", "Exception", "BaseException", "MauException")]
                        ctx.check("swallowed", f"{fi.qual}:suppress", not (bad and hit), f"Mau exceptions of {hit[:1]} are suppressed", (f"{fi.module.path}:{t.lineno}", fi.qual))
        # a context manager of the package whose __exit__ suppresses
    for ci in prog.classes.values():
        ex = ci.methods.get("__exit__")
        if ex is None:
            continue
        ctx.check("swallowed", f"{ci.name}.__exit__", exit_ok(ctx, ci, ex), "the context manager suppresses Mau exceptions", (f"{ex.module.path}:{ex.node.lineno}", ex.qual))
    ctx.need("coverage", "handlers", n > 10, "no exception handler found")
    ctx.check("swallowed", "handlers", True)


def exit_ok(ctx, ci, ex):
    """With a Mau exception the result of __exit__ is false."""
    prog = ctx.prog
    ip = interp(prog, base={})
    names = [a.arg for a in ex.node.args.args[1:]]
    args = {}
    if names:
        args[names[0]] = Cl(prog.cls("MauException"))
    try:
        outs = run(ip, ex, self_cls=ci, self_path="cm", args=args)
    except Exception:  # not analysable
        return None
    ctx.saw(ip)
    res = True
    for o in outs:
        if o.exc is not None:
            continue
        t = ip.known(o.st, ip.truth_term(o.st, o.value))
        if t is True:
            return False
        if t is None:
            res = None
    return res


# ------------------------------------------------------------------ creators
CREATORS = (
    ("create_lexer_exception", "MauLexerErrorMessage", {"text": "text", "source": "source", "position": "position"}),
    ("create_parser_exception", "MauParserErrorMessage", {"text": "text", "context": "context", "help_text": "help_text"}),
    ("create_visitor_exception", "MauVisitorErrorMessage", {"text": "text", "data": "data", "environment": "environment", "additional_info": "additional_info"}),
)


def creators(ctx):
    prog = ctx.prog
    for name, mcls, fields in CREATORS:
        hits = [f for f in prog.functions.values() if f.qual == name]
        ctx.need("anchor", name, bool(hits), "not found")
        if not hits:
            continue
        fi = hits[0]
        ip = interp(prog)
        outs = run(ip, fi)
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            if o.exc is not None:
                continue
            m = o.get(o.value, "message") if o.is_a(o.value, "MauException") else None
            c = o.cls(m) if m is not None else None
            ctx.check("created", name, None if c is None and o.cls(o.value) is None else o.is_a(o.value, "MauException") and c is not None and c.name == mcls, f"the message is a {c.name if c else short(m)}", o.where(), o.path_text)
            if c is None:
                continue
            for f, p in fields.items():
                v = o.snap(o.get(m, f))
                ctx.check("created", f"{name}:{f}", v == var(p) or (False if isinstance(v, K) or not depends(v, var(p)) else None), f"{f} is {short(v)}", o.where(), o.path_text)
            t = o.get(m, "type")
            ctx.check("created", f"{name}:type", isinstance(t, Enm) and t == kind_of(prog, mcls) if not isinstance(t, S) else None, f"the type is {short(t)}", o.where(), o.path_text)
            if name == "create_visitor_exception":
                node, data = var("node"), var("data")
                v = o.snap(o.get(m, "node_type"))
                has = truth(o, node)
                ctx.check("created", f"{name}:node_type", v == attr(node, "type") if has else (v == NONE or None) if has is False else None, f"node_type is {short(v)}", o.where(), o.path_text)
                visitor_context(ctx, o, m, name)


def truth(o, t):
    for k, v in o.st.facts.items():
        if k == S("truth", (t,)):
            return v
        if k == S("isnone", (t,)):
            return not v
    return None


def visitor_context(ctx, o, m, name):
    c = o.get(m, "context")
    node, data = var("node"), var("data")
    if truth(o, data) is False and truth(o, node) is False:
        ctx.check("created", f"{name}:context", o.snap(c) == NONE or None, f"the context is {short(o.snap(c))}", o.where(), o.path_text)
        return
    if truth(o, node):
        # the data, if there is any, has the same context
        v = o.snap(o.get(c, "start_line")) if isinstance(c, R) else None
        t = attr(node, "info", "context", "start_line")
        ctx.check("created", f"{name}:start_line", False if v == t else True if v is not None else None, "the lines are not counted from 1", o.where(), o.path_text)
    if truth(o, data) is False and truth(o, node):
        d = o.deep(c) if c is not None else None
        for f in ("start_line", "end_line"):
            v = o.snap(o.get(c, f)) if isinstance(c, R) else None
            t = attr(node, "info", "context", f)
            ctx.check("created", f"{name}:{f}", True if v == S("add", (t, K(1))) else False if v == t else None, "the lines are not counted from 1", o.where(), o.path_text)
            same = at_path(o, attr(node, "info", "context"))
            w = o.snap(o.get(same, f)) if same is not None else t
            ctx.check("created", f"{name}: {f} of the node", w == t or None if depends(w, lambda x: isinstance(x, S) and x.op == "unk") else w == t, "the position of the node is changed", o.where(), o.path_text)
        ctx.check("created", f"{name}:context", None if d is None else depends(d, attr(node, "info", "context", "start_line")) or (False if not depends(d, node) else None), f"the context is {short(d)}", o.where(), o.path_text)


def kind_of(prog, mcls):
    ip = interp(prog)
    st = State()
    outs = ip.getattr(st, Cl(prog.cls(mcls)), "type", None)
    ci = prog.cls(mcls)
    want = {"MauLexerErrorMessage": "ERROR_LEXER", "MauParserErrorMessage": "ERROR_PARSER", "MauVisitorErrorMessage": "ERROR_VISITOR", "MauVisitorDebugMessage": "DEBUG_VISITOR"}[mcls]
    return Enm(prog.cls("MauMessageType"), want)


# ------------------------------------------------------------------ dispatch
KINDS = {
    "MauLexerErrorMessage": "process_lexer_error",
    "MauParserErrorMessage": "process_parser_error",
    "MauVisitorErrorMessage": "process_visitor_error",
    "MauVisitorDebugMessage": "process_visitor_debug",
}


def received(k):
    def summ(ip, st, fi, args, kwargs, node):
        a = list(args[1:]) + list(kwargs.values())
        ip.emit(st, "received", k, ip.snap(st, a[0]) if a else NONE, node=node)
        return [(st, NONE)]
    return summ


def construct(ip, st, prog, mcls, fields):
    node = ast.parse("None").body[0]
    outs = ip.call(st, Cl(prog.cls(mcls)), [], fields, node)
    return [(s, v) for s, v in outs if s.exc is None]


FIELDS = {
    "MauLexerErrorMessage": ("text", "source", "position"),
    "MauParserErrorMessage": ("text", "context", "help_text"),
    "MauVisitorErrorMessage": ("text", "context", "node_type", "data", "environment", "additional_info"),
    "MauVisitorDebugMessage": ("text", "context", "node_type", "data", "environment", "additional_info"),
}


def message(ctx, ip, st, mcls):
    prog = ctx.prog
    ci = prog.cls(mcls)
    kw = {}
    for f in FIELDS[mcls]:
        a = None
        for c in prog.mro(ci):
            if not isinstance(c, str) and f in c.annotations:
                a = prog.parse_type(c.module, c.annotations[f])
                break
        kw[f] = ip.mk(st, var(f), a) if a is not None else var(f)
    return construct(ip, st, prog, mcls, kw)


def dispatch(ctx):
    prog = ctx.prog
    base = prog.cls("BaseMessageHandler")
    concrete = [c for c in prog.classes.values() if prog.is_subclass(c, base) and c is not base]
    ctx.need("anchor", "handlers", bool(concrete), "no message handler found")
    for ci in concrete:
        for mcls, meth in KINDS.items():
            ex = {}
            for m in KINDS.values():
                for c in prog.mro(ci):
                    if not isinstance(c, str) and m in c.methods:
                        ex[c.methods[m].full] = received(m)
            ip = interp(prog, ex)
            st = State()
            h = ip.lazy_obj(st, ci, "handler")
            fi = prog.method(ci.name, "process")
            for s, m in message(ctx, ip, st, mcls):
                outs = [Out(ip, s2, v, "process") for s2, v in ip.call_function(fi, s, [m], {}, h)]
                ctx.paths += len(outs)
                for o in outs:
                    got = [(e.data[0], e.data[1]) for e in flat_events(o.st.trace) if e.kind == "received"]
                    want = [(meth, o.snap(m))]
                    ctx.check("dispatch", f"{ci.name}:{mcls}", got == want, f"the message is passed to {[g[0] for g in got] or 'nothing'}", o.where(), o.path_text)
            ctx.saw(ip)


# ----------------------------------------------------------------------- log
DATA = ("alpha", "beta")


def pieces(ctx, ip, st, mcls):
    """Values of the fields of a message, with a known shape."""
    kw, want = {}, {}
    for f in FIELDS[mcls]:
        if f == "position":
            kw[f] = Tup((S("var", ("line",), ("int",)), S("var", ("column",), ("int",))))
            want[f] = [[S("add", (var("line"), K(1)))], [var("column")]]
        elif f == "context":
            cf = {n: S("var", (n,), ("int",)) for n in ("start_line", "start_column", "end_line", "end_column")}
            cf["source"] = S("var", ("source_name",), ("str",))
            r = construct(ip, st, ctx.prog, "Context", cf)[0][1]
            kw[f] = r
            want[f] = [[v for n, v in cf.items()]]
        elif f in ("data", "additional_info"):
            r = ip.new_list(st, kind="dict")
            for k in DATA:
                ip.dict_set(st, r, K(f"{f}-{k}"), var(f"{f}.{k}"))
            kw[f] = r
            want[f] = [[var(f"{f}.{k}")] for k in DATA]
        elif f == "environment":
            kw[f] = NONE
        else:
            kw[f] = S("var", (f,), ("str",))
            want[f] = [[kw[f]]]
    return kw, want


def written(o):
    """Everything handed to the logger, objects unfolded."""
    out = []
    for e in flat_events(o.st.trace):
        if e.kind == "opaque":
            d = e.data[0]
            if isinstance(d, S) and d.op == "attr" and depends(d, var("logger")):
                for a in e.data[1:3]:
                    out.append(unfold(o, a))
    return out


def unfold(o, a, depth=4):
    out = [a]
    if depth:
        for x in subterms(a):
            if isinstance(x, S) and x.op == "new" and len(x.args) > 1:
                out.append(o.deep(R(x.args[1]), depth=depth))
    return tuple(out)


def log(ctx):
    prog = ctx.prog
    for mcls, meth in KINDS.items():
        fi = prog.method("LogMessageHandler", meth)
        ip = interp(prog)
        st = State()
        node = ast.parse("None").body[0]
        for s0, h in ip.call(st, Cl(prog.cls("LogMessageHandler")), [var("logger")], {}, node):
            full, want = pieces(ctx, ip, s0, mcls)
            # everything is given, and only what is mandatory
            for given in (set(full), {"text", "source"}):
                kw = {f: v if f in given else NONE for f, v in full.items()}
                for s, m in construct(ip, s0.fork(), prog, mcls, kw):
                    outs = [Out(ip, s2, v, meth) for s2, v in ip.call_function(fi, s, [m], {}, h)]
                    ctx.paths += len(outs)
                    for o in outs:
                        if o.exc is not None:
                            ctx.check("logged", mcls, False, f"{o.exc_name} while logging", o.where(), o.path_text)
                            continue
                        ws = tuple(written(o))
                        ctx.check("logged", mcls, bool(ws), "nothing is logged", o.where(), o.path_text)
                        for f, alts in want.items():
                            if f not in given:
                                continue
                            for i, alt in enumerate(alts):
                                hit = any(depends(ws, t) for t in alt) or truth(o, alt[0]) is False
                                vague = any(isinstance(x, S) and x.op in ("unknown", "ret", "mret", "elem", "val") for x in subterms(tuple(ws)))
                                ctx.check("logged", f"{mcls}:{f}" + (f":{i}" if len(alts) > 1 else ""), True if hit else None if vague else False, f"{f} is not logged", o.where(), o.path_text)
                        if mcls == "MauParserErrorMessage" and "context" in given:
                            hit = depends(ws, S("add", (S("var", ("start_line",), ("int",)), K(1))))
                            plain = any(x == ("start_line", S("var", ("start_line",), ("int",))) for x in subterms(tuple(ws)))
                            ctx.check("logged", f"{mcls}:line", True if hit else False if plain else None, "the lines of the context are not counted from 1", o.where(), o.path_text)
        ctx.saw(ip)


# --------------------------------------------------------------------- debug
def debug(ctx):
    prog = ctx.prog
    base = prog.cls("BaseVisitor")
    for tag, given in ((True, True), (False, True), (True, False)):
        def accept(ip, st, fi, args, kwargs, node):
            r = ip.new_list(st, kind="dict")
            c = ip.new_list(st, kind="dict")
            for n in ("start_line", "start_column", "end_line", "end_column"):
                ip.dict_set(st, c, K(n), S("var", (n,), ("int",)))
            ip.dict_set(st, c, K("source"), S("var", ("source_name",), ("str",)))
            tags = ip.new_list(st, (("item", K("other")), ("item", K("debug"))) if tag else (("item", K("other")),))
            ip.dict_set(st, r, K("internal_tags"), tags)
            if given:
                ip.dict_set(st, r, K("_context"), c)
            return [(st, r)]
        ex = {**handler_summaries(prog), prog.method("Node", "accept").full: accept}
        fi = prog.method("BaseVisitor", "visit")
        ip = interp(prog, ex, unroll=1 if given else 3)
        st = State()
        outs = run(ip, fi, self_cls="BaseVisitor", self_path="visitor", state=st, args={"node": ip.lazy_obj(st, "Node", var("node"))})
        ctx.saw(ip)
        ctx.paths += len(outs)
        good = 0
        for o in outs:
            if o.exc is not None:
                # (the data of a node visited without its context is data all the same)
                if tag and isinstance(o.exc, Exc) and o.exc.name in ("KeyError", "AttributeError", "TypeError", "NameError"):
                    ctx.check("debug", "raises", False, f"visiting a node with the tag raises {o.exc.name}", o.where(), o.path_text)
                    good += 1
                continue
            hs = [e for e in flat_events(o.st.trace) if e.kind == "delivered"]
            good += 1
            ctx.check("debug", "tagged" if tag else "not tagged", (len(hs) == 1) if tag else not hs, f"{len(hs)} debug messages are sent", o.where(), o.path_text)
            if tag and len(hs) == 1:
                m = hs[0].data[0]
                c = m.args[0] if isinstance(m, S) and m.op == "new" else None
                ctx.check("debug", "kind", None if c is None else c == "MauVisitorDebugMessage", f"the message is a {c}", o.where(), o.path_text)
        ctx.need("coverage", "visit", good > 0, "no path")
