import ast

from ..order import Order

PROPERTY = {
    "id": "P25",
    "title": "The same input always gives the same output",
    "statement": "Nothing Mau produces (nodes, identifiers, messages, rendered text) depends on anything but the text, the environment, the configuration and the files that are read: the order of a set or of a directory listing, the address or the hash of an object, random numbers, the clock, the variables and the locale of the process and concurrent threads never reach the result.",
    "quantifier": {"over": ["inputs", "schedules"], "text": "every function of the package, every seed of the hash function and every order in which a directory is listed"},
    "why_tests_cant": "A test runs with one hash seed, one file system and one memory layout; the result of iterating over a set of strings changes from process to process.",
    "anchors": {
        "files": ["mau/parsers/arguments_parser.py", "mau/parsers/managers/footnotes_manager.py", "mau/parsers/managers/toc_manager.py", "mau/parsers/managers/header_links_manager.py", "mau/visitors/jinja_visitor.py"],
        "state": [{"name": "arguments, identifiers, templates", "meaning": "computed from names, contents and directories", "where": "mau"}],
        "mechanism": [{"name": "default_footnote_unique_id, default_header_internal_id", "where": "mau/parsers/managers"}, {"name": "_load_templates_from_filesystem", "where": "mau/visitors/jinja_visitor.py"}],
        "observe_at": ["document tree", "rendered output", "error messages"],
        "hook_needed": None,
    },
}
TECHNIQUE = "forward dataflow of unordered values (sets, directory listings) with an interprocedural fixpoint, plus a lint for sources of nondeterminism (addresses, hashes, random numbers, clock, process environment, threads)"
LEVEL_NOTE = "Receivers that cannot be typed are not followed; a loop over unordered values is reported only when its body is seen to depend on the order."
EXPLANATION = "Every function of the package is walked forward with the kind of each variable: a set, a sequence that took its order from a set or from a directory listing, or neither. Kinds go through parameters, results and attributes until nothing changes. Joining, formatting, indexing, unpacking, storing, returning the first and looping with effects over such a value is a violation; sorting, measuring, testing membership, and adding to other sets are not. Calls of random, secrets, uuid, the clock, the process environment, threads, id() and hash() are violations unless they only select an entry of a set or of a mapping, and so is turning into text an object whose class has no text of its own (Python gives its address)."
ASSUMPTIONS = ["Python dictionaries keep the order of insertion", "YAML and Jinja are deterministic", "the functions given in the environment are deterministic"]

# modules whose results are not part of the output
SKIP = {"mau.test_helpers"}
BAD = {
    "random": "random numbers", "secrets": "random numbers", "uuid": "random numbers", "os.urandom": "random numbers", "tempfile": "random names",
    "time.time": "the clock", "time.time_ns": "the clock", "time.localtime": "the clock", "time.gmtime": "the clock", "time.strftime": "the clock", "time.ctime": "the clock", "time.asctime": "the clock",
    "datetime.datetime.now": "the clock", "datetime.datetime.utcnow": "the clock", "datetime.datetime.today": "the clock", "datetime.date.today": "the clock", "datetime.now": "the clock", "datetime.utcnow": "the clock",
    "os.getpid": "the process", "os.getppid": "the process", "os.environ": "the variables of the process", "os.getenv": "the variables of the process", "os.environb": "the variables of the process", "socket": "the network", "platform": "the machine",
    "threading": "threads", "concurrent": "threads", "multiprocessing": "threads", "_thread": "threads", "asyncio": "threads", "gc": "the memory", "os.stat": "the file system", "os.path.getmtime": "the file system",
}
UUID_OK = {"uuid.uuid5", "uuid.uuid3", "uuid.UUID", "uuid.NAMESPACE_URL", "uuid.NAMESPACE_DNS", "uuid.NAMESPACE_OID"}
UNSURE = {"time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.process_time"}


def check(ctx):
    prog = ctx.prog
    ctx.need("anchor", "functions", len(prog.functions) > 200, "the functions of the package are not found")
    order = Order(prog, SKIP)
    for fi in order.fns:
        ctx.saw_func(fi)
    found = {}
    for fi, node, what, sure in order.sinks.values():
        found.setdefault(fi.full, []).append((node, what, sure))
    for fi in order.fns:
        hits = found.get(fi.full, [])
        sure = [h for h in hits if h[2]]
        ok = False if sure else None if hits else True
        node, what, _ = (sure or hits or [(fi.node, "", True)])[0]
        ctx.check("order", name(fi), ok, what, (f"{fi.module.path}:{node.lineno}", fi.qual))
    # a list in arbitrary order given to whoever calls the function
    for full, k in order.rets.items():
        fi = prog.functions[full]
        if k == "Q" and full not in order.called:
            ctx.check("order", name(fi) + ":result", False if public(fi) else None, "the result is a sequence in arbitrary order", (f"{fi.module.path}:{fi.node.lineno}", fi.qual))
    ctx.notes.append(f"{order.sources} sets and listings, {order.loops} loops")
    sources(ctx, order.fns)
    module_level(ctx)
    addresses(ctx, order.fns)


def name(fi):
    return fi.full


def public(fi):
    return True


# --------------------------------------------------------- other sources
def parents(node):
    up = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


def dotted(prog, module, e, local):
    if isinstance(e, (ast.Name, ast.Attribute)):
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in local:
            return None
        r = prog.resolve_expr(module, e)
        if r and r[0] == "ext":
            return r[1]
        if r is None and isinstance(e, ast.Name) and e.id in ("id", "hash"):
            return "builtins." + e.id
    return None


def verdict(d):
    """(what, sure) when the name is a source."""
    if d is None or d in UUID_OK:
        return None
    for k, v in BAD.items():
        if d == k or d.startswith(k + "."):
            return v, True
    if d in UNSURE:
        return "the clock", None
    return None


def local_imports(node):
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = f"{n.module}.{a.name}"
    return out


def scan(ctx, module, node, construct, inhash=False):
    prog = ctx.prog
    up = parents(node)
    imports = local_imports(node) if not isinstance(node, ast.Module) else {}
    local = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for n in ast.walk(node) if isinstance(n, ast.arguments) for a in n.posonlyargs + n.args + n.kwonlyargs}
    bad, unsure = [], []
    annotations = set()
    for n in ast.walk(node):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                annotations.update(id(x) for x in ast.walk(a))
    for n in ast.walk(node):
        if id(n) in annotations:
            continue
        if isinstance(n, ast.Call):
            e = decoding(prog, module, n, local)
            if e is not True:
                (bad if e is False else unsure).append((n, "a text file is opened without a fixed encoding: the text depends on the locale of the process"))
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            if isinstance(up.get(n), ast.Attribute):
                continue
            d = dotted(prog, module, n, local)
            if d is None:
                root = n
                tail = []
                while isinstance(root, ast.Attribute):
                    tail.append(root.attr)
                    root = root.value
                if isinstance(root, ast.Name) and root.id in imports:
                    d = ".".join([imports[root.id]] + tail[::-1])
            v = verdict(d)
            if v:
                (bad if v[1] else unsure).append((n, f"the result depends on {v[0]} ({d})"))
            if d in ("builtins.id", "builtins.hash"):
                c = up.get(n)
                if isinstance(c, ast.Call) and c.func is n:
                    if d == "builtins.hash" and inhash:
                        continue
                    u = use(up, c)
                    t = up.get(c)
                    if u is None and isinstance(t, (ast.Assign, ast.AnnAssign)):
                        to = t.targets[0] if isinstance(t, ast.Assign) else t.target
                        if isinstance(to, ast.Name):
                            us = [use(up, x) for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == to.id and isinstance(x.ctx, ast.Load)]
                            u = False if False in us else None if None in us else True
                    if u is False:
                        bad.append((n, f"the result depends on {d.split('.')[1]}(), which changes from run to run"))
                    elif u is None:
                        unsure.append((n, f"{d.split('.')[1]}() is used"))
    return bad, unsure


TEXT_FILES = {"open": (1, 3), ".open": (0, 2), ".read_text": (None, 0), ".write_text": (None, 1)}


def decoding(prog, module, call, local):
    """Is the encoding of a text file that is opened fixed? None: unknown."""
    f = call.func
    if isinstance(f, ast.Name) and f.id == "open" and "open" not in local and prog.resolve_expr(module, f) is None:
        kind = "open"
    elif isinstance(f, ast.Attribute) and "." + f.attr in TEXT_FILES:
        r = dotted(prog, module, f, local)
        if r in ("io.open", "builtins.open"):
            kind = "open"
        elif r is not None or prog.resolve_expr(module, f) is not None:
            return True
        else:
            kind = "." + f.attr
    else:
        return True
    kw = {k.arg: k.value for k in call.keywords}
    if None in kw or any(isinstance(a, ast.Starred) for a in call.args):
        return None

    def arg(i, k):
        return kw[k] if k in kw else call.args[i] if i is not None and i < len(call.args) else None
    mode, enc = TEXT_FILES[kind]
    m = arg(mode, "mode")
    if m is not None and not (isinstance(m, ast.Constant) and isinstance(m.value, str)):
        return None if arg(enc, "encoding") is None else True
    if m is not None and "b" in m.value:
        return True
    e = arg(enc, "encoding")
    if e is None or isinstance(e, ast.Constant) and e.value in (None, "locale"):
        return False
    return True


def use(up, c):
    """True: only to select; False: the number itself is used; None: unknown."""
    p = up.get(c)
    while isinstance(p, (ast.Tuple, ast.Starred)):
        c, p = p, up.get(p)
    if isinstance(p, (ast.Compare, ast.Set)):
        return True
    if isinstance(p, ast.Subscript) and p.slice is c:
        return True
    if isinstance(p, (ast.SetComp,)):
        return True
    if isinstance(p, ast.DictComp) and p.key is c:
        return True
    if isinstance(p, ast.Dict) and c in p.keys:
        return True
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ("add", "discard", "remove", "get", "setdefault", "pop", "__contains__"):
        return True
    if isinstance(p, (ast.FormattedValue, ast.BinOp, ast.Return, ast.JoinedStr, ast.keyword)):
        return False
    if isinstance(p, ast.Call):
        f = p.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        return False if n in ("str", "hex", "repr", "format", "abs", "int", "oct", "bin", "encode", "update", "sha256", "md5", "sha1", "append", "join", "print") else None
    return None


def sources(ctx, fns):
    for fi in fns:
        bad, unsure = scan(ctx, fi.module, fi.node, fi.full, inhash=fi.name == "__hash__")
        ok = False if bad else None if unsure else True
        n, msg = (bad or unsure or [(fi.node, "")])[0]
        ctx.check("source", name(fi), ok, msg, (f"{fi.module.path}:{n.lineno}", fi.qual))


def module_level(ctx):
    for m in ctx.prog.modules.values():
        if m.name in SKIP:
            continue
        body = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom))]
        flat = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                flat += [x for x in s.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
            else:
                flat.append(s)
        bad, unsure = scan(ctx, m, ast.Module(body=flat, type_ignores=[]), m.name)
        ok = False if bad else None if unsure else True
        n, msg = (bad or unsure or [(m.tree, "")])[0]
        ctx.check("source", m.name, ok, msg, (f"{m.path}:{getattr(n, 'lineno', 1)}", m.name))


# ------------------------------------------------------------- addresses
TEXTS = ("__str__", "__repr__", "__format__")


def textless(prog, ci):
    """Has the class no text of its own, so that Python uses the address?"""
    for c in prog.mro(ci):
        if not hasattr(c, "methods"):
            n = c if isinstance(c, str) else str(c)
            if n.split(".")[-1] not in ("object", "ABC", "Generic", "Protocol"):
                return False
            continue
        if any(t in c.methods or t in c.attrs for t in TEXTS):
            return False
        if any("dataclass" in ast.unparse(d) for d in c.node.decorator_list):
            return False
    return True


def element(prog, fi, var):
    """Class of a loop variable, from the declared type of what is iterated."""
    from .p23 import as_class, receiver

    for n in ast.walk(fi.node):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and n.target.id == var:
            it, values = n.iter, False
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "values":
                it, values = it.func.value, True
            t = None
            if isinstance(it, ast.Name):
                for a in fi.node.args.args + fi.node.args.kwonlyargs:
                    if a.arg == it.id and a.annotation is not None:
                        t = prog.parse_type(fi.module, a.annotation)
            elif isinstance(it, ast.Attribute):
                ci = receiver(prog, fi, it.value)
                t = prog.attr_types(ci).get(it.attr) if ci is not None else None
            if t and t[0] == "opt":
                t = t[1]
            if t and t[0] == ("dict" if values else "list"):
                return as_class(t[-1])
    return None


def addresses(ctx, fns):
    from .p23 import receiver

    prog = ctx.prog
    n = 0
    for fi in fns:
        for x in ast.walk(fi.node):
            vals = []
            if isinstance(x, ast.FormattedValue):
                vals = [x.value]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("str", "repr", "format") and x.args:
                vals = [x.args[0]]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "format":
                vals = list(x.args) + [k.value for k in x.keywords]
            for v in vals:
                n += 1
                if isinstance(v, ast.Call):
                    ci = prog.resolve(fi.module, v.func.id) if isinstance(v.func, ast.Name) else None
                    ci = ci[1] if ci and ci[0] == "class" else None
                elif isinstance(v, (ast.Name, ast.Attribute)):
                    if isinstance(v, ast.Name):
                        b = prog.resolve(fi.module, v.id)
                        if b and b[0] in ("class", "func"):
                            # the text of a class has no address, that of a function has
                            ctx.check("address", f"{fi.full}:{v.id}", b[0] == "class", "the text of a function contains its address", (f"{fi.module.path}:{x.lineno}", fi.qual))
                            continue
                    ci = receiver(prog, fi, v) or (element(prog, fi, v.id) if isinstance(v, ast.Name) else None)
                else:
                    continue
                if ci is not None:
                    ctx.check("address", f"{fi.full}:{ast.unparse(v)}", not textless(prog, ci), f"{ci.name} has no text of its own: the address becomes part of the text", (f"{fi.module.path}:{x.lineno}", fi.qual))
    ctx.need("anchor", "texts", n > 20, "no texts are built")
