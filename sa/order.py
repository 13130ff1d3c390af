"""Values without a fixed order, and where their order becomes visible.

A forward analysis over the statements of every function.  The kind of a value
is "S" (a set), "Q" (a sequence, mapping or iterator whose order comes from a
set or from a directory listing) or None.  Parameters, results and attributes
are solved by a fixpoint over the call sites of the whole package.  A *sink* is
an operation whose outcome depends on the order.
"""

from __future__ import annotations

import ast

SETS = {"builtins.set", "builtins.frozenset"}
LISTINGS = {"os.listdir", "os.scandir", "os.walk", "os.fwalk", "glob.glob", "glob.iglob"}
LIST_METHODS = {"iterdir", "glob", "rglob", "walk"}
KEEP = {"builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter", "builtins.reversed", "builtins.iter",
        "itertools.chain", "itertools.chain.from_iterable", "builtins.dict", "builtins.dict.fromkeys", "collections.OrderedDict", "collections.deque", "itertools.islice", "copy.copy", "copy.deepcopy", "typing.cast"}
NEUTRAL = {"builtins.sorted", "builtins.len", "builtins.sum", "builtins.any", "builtins.all", "builtins.min", "builtins.max", "builtins.bool", "builtins.isinstance", "builtins.type", "builtins.id", "builtins.hash", "collections.Counter", "builtins.range", "math.fsum", "builtins.hasattr", "builtins.issubclass"}
TEXT = {"builtins.str", "builtins.repr", "builtins.format", "builtins.print", "builtins.ascii", "json.dumps", "pprint.pformat", "yaml.dump", "yaml.safe_dump"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SET_NEUTRAL = {"issubset", "issuperset", "isdisjoint", "add", "discard", "remove", "update", "clear", "intersection_update", "difference_update", "symmetric_difference_update", "__contains__", "__len__"}
DICT_VIEWS = {"keys", "values", "items"}
EFFECTS = {"append", "extend", "insert", "write", "writelines", "update", "dupdate", "setdefault", "appendleft", "push", "emit", "put", "popleft"}


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a if a == b else "Q"


def opt_set(t):
    if t and t[0] == "opt":
        t = t[1]
    return t is not None and t[0] == "set"


class Order:
    def __init__(self, prog, skip=()):
        self.prog = prog
        self.fns = [f for f in prog.functions.values() if f.module.name not in skip]
        self.params = {}
        self.rets = {}
        self.attrs = {}
        self.sinks = {}
        self.loops = 0
        self.sources = 0
        self.uses = 0
        self.called = set()
        self.changed = True
        rounds = 0
        while self.changed and rounds < 12:
            self.changed = False
            rounds += 1
            self.sinks = {}
            self.loops = self.sources = self.uses = 0
            for f in self.fns:
                Scan(self, f).run()

    def put(self, table, key, kind):
        old = table.get(key)
        new = join(old, kind)
        if new != old:
            table[key] = new
            self.changed = True

    def sink(self, fi, node, what, sure=True):
        key = (fi.full, getattr(node, "lineno", 0), what)
        self.sinks.setdefault(key, (fi, node, what, sure))


class Scan:
    def __init__(self, order, fi):
        self.o = order
        self.p = order.prog
        self.fi = fi
        self.m = fi.module
        self.types = {}
        self.callargs = set()

    # ---------------------------------------------------------------- names
    def run(self):
        node = self.fi.node
        env = {}
        a = node.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        for x in allp:
            if x.annotation is not None:
                t = self.p.parse_type(self.m, x.annotation)
                self.types[x.arg] = t
                if opt_set(t):
                    env[x.arg] = "S"
            k = self.o.params.get((self.fi.full, x.arg))
            if k:
                env[x.arg] = join(env.get(x.arg), k)
        self.selfname = a.args[0].arg if self.fi.cls is not None and a.args and not any(d.endswith("staticmethod") for d in self.fi.decorators) else None
        self.block(node.body, env)

    def receiver(self, e):
        from .rules.p23 import receiver

        try:
            return receiver(self.p, self.fi, e)
        except RecursionError:
            return None

    def ext(self, e):
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(self.m, e)
            if r is None and isinstance(e, ast.Name):
                import builtins

                if hasattr(builtins, e.id):
                    return "builtins." + e.id
            if r and r[0] == "ext":
                return r[1] if "." in r[1] else "builtins." + r[1]
        return None

    def attr_key(self, e):
        ci = self.receiver(e.value)
        if ci is None:
            return None
        for c in self.p.mro(ci):
            pass
        return (ci.full, e.attr)

    # ----------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
        return env

    def merge(self, *envs):
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = join(out.get(k), v)
        return out

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.block(s.body, dict(env))
            return env
        if isinstance(s, ast.ClassDef):
            return env
        if isinstance(s, ast.Assign):
            k = self.kind(s.value, env)
            for t in s.targets:
                self.assign(t, k, s.value, env)
            return env
        if isinstance(s, ast.AnnAssign):
            k = self.kind(s.value, env) if s.value is not None else None
            if s.value is not None:
                self.assign(s.target, k, s.value, env)
            return env
        if isinstance(s, ast.AugAssign):
            k = self.kind(s.value, env)
            if isinstance(s.target, (ast.Name, ast.Attribute)):
                key = ast.unparse(s.target)
                cur = self.kind(s.target, env)
                if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and cur == "S":
                    return env
                if k:
                    if isinstance(s.target, ast.Name):
                        env[key] = join(cur, "Q")
                    else:
                        self.o.sink(self.fi, s, "a list is extended with values in arbitrary order")
            return env
        if isinstance(s, ast.If):
            self.kind(s.test, env)
            a = self.block(s.body, dict(env))
            b = self.block(s.orelse, dict(env))
            if self.leaves(s.body):
                return b
            if s.orelse and self.leaves(s.orelse):
                return a
            return self.merge(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            k = self.kind(s.iter, env)
            self.o.loops += 1
            inner = dict(env)
            self.bind(s.target, inner)
            if k:
                self.loop(s, k, env, inner)
            for _ in range(2):
                inner = self.merge(inner, self.block(s.body, dict(inner)))
            return self.merge(env, inner, self.block(s.orelse, dict(inner)))
        if isinstance(s, ast.While):
            self.kind(s.test, env)
            inner = dict(env)
            for _ in range(2):
                inner = self.merge(inner, self.block(s.body, dict(inner)))
            return self.merge(env, inner, self.block(s.orelse, dict(inner)))
        if isinstance(s, ast.Try):
            a = self.block(s.body, dict(env))
            outs = [self.block(h.body, self.merge(env, a)) for h in s.handlers]
            a = self.block(s.orelse, a)
            return self.block(s.finalbody, self.merge(a, *outs))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                k = self.kind(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, k, i.context_expr, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Match):
            self.kind(s.subject, env)
            outs = [self.block(c.body, dict(env)) for c in s.cases]
            return self.merge(env, *outs)
        if isinstance(s, ast.Return):
            k = self.kind(s.value, env) if s.value is not None else None
            if k:
                self.o.put(self.o.rets, self.fi.full, k)
            return env
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                k = self.kind(v.value, env) if v.value is not None else None
                if k and isinstance(v, ast.YieldFrom):
                    self.o.put(self.o.rets, self.fi.full, "Q")
                return env
            # x.sort() gives an order to x
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "sort":
                env.pop(ast.unparse(v.func.value), None)
                return env
            self.kind(v, env)
            return env
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.kind(e, env)
        return env

    def leaves(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def bind(self, t, env):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                env.pop(n.id, None)

    def assign(self, t, k, value, env):
        if isinstance(t, ast.Name):
            if k:
                env[t.id] = k
            else:
                env.pop(t.id, None)
        elif isinstance(t, ast.Attribute):
            key = ast.unparse(t)
            if k:
                env[key] = k
            else:
                env[key] = None
            if k == "Q":
                self.o.sink(self.fi, t, f"the attribute {t.attr} is stored in arbitrary order")
            elif k == "S":
                ak = self.attr_key(t)
                if ak:
                    self.o.put(self.o.attrs, ak, "S")
        elif isinstance(t, (ast.Tuple, ast.List)):
            if k and not self.single(value, env):
                starred = any(isinstance(x, ast.Starred) for x in t.elts)
                self.o.sink(self.fi, t, "values in arbitrary order are unpacked")
                if not starred:
                    pass
            for x in t.elts:
                x = x.value if isinstance(x, ast.Starred) else x
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, v in zip(t.elts, value.elts):
                    self.assign(x, self.kind(v, env), v, env)
        elif isinstance(t, ast.Subscript):
            self.kind(t.value, env)
            if k == "Q":
                self.o.sink(self.fi, t, "values in arbitrary order are stored")

    def single(self, e, env):
        """Is there a test of the size of the collection in the function?"""
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.Compare):
                for c in ast.walk(n):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "len" and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(c)):
                        return True
        return False

    # ----------------------------------------------------------------- loops
    def loop(self, s, k, env, inner):
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        bad, unsure, makes = [], [], {}
        outside = set()
        inside = {id(n) for b in s.body for n in ast.walk(b)}
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside:
                outside.add(n.id)

        def const(e):
            return e is None or isinstance(e, ast.Constant)

        def walk(body):
            for x in body:
                if isinstance(x, (ast.Pass, ast.Continue, ast.Break, ast.Assert, ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(x, ast.If):
                    walk(x.body)
                    walk(x.orelse)
                elif isinstance(x, (ast.For, ast.While, ast.With)):
                    walk(x.body)
                    walk(x.orelse if hasattr(x, "orelse") else [])
                elif isinstance(x, ast.Try):
                    walk(x.body)
                    for h in x.handlers:
                        walk(h.body)
                    walk(x.orelse)
                    walk(x.finalbody)
                elif isinstance(x, ast.Return):
                    if not const(x.value):
                        if any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(x.value)):
                            bad.append((x, "the first of the values in arbitrary order is returned"))
                        else:
                            unsure.append((x, "a result inside of a loop in arbitrary order"))
                elif isinstance(x, ast.Raise):
                    if x.exc is not None and any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(x.exc)):
                        bad.append((x, "the first of the values in arbitrary order is reported"))
                elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name):
                            if t.id in outside and not const(x.value) and t.id not in names:
                                unsure.append((x, f"{t.id} keeps the value of the last iteration"))
                            names.add(t.id)
                        elif isinstance(t, ast.Subscript):
                            base = t.value
                            if isinstance(base, ast.Name):
                                makes[base.id] = "Q"
                            else:
                                bad.append((x, "entries are added in arbitrary order"))
                        elif isinstance(t, ast.Attribute):
                            root = t.value
                            if isinstance(root, ast.Name) and root.id in names:
                                continue
                            if not const(x.value):
                                bad.append((x, f"the attribute {t.attr} is set in arbitrary order"))
                elif isinstance(x, ast.AugAssign):
                    if isinstance(x.target, ast.Name):
                        v = x.value
                        num = isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, str) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("len", "int", "sum"))
                        if num:
                            continue
                        if isinstance(x.op, (ast.BitOr, ast.BitAnd)):
                            continue
                        if isinstance(v, (ast.JoinedStr, ast.List)) or any(isinstance(n, ast.Constant) and isinstance(n.value, str) for n in ast.walk(v)):
                            makes[x.target.id] = "Q"
                            if not isinstance(v, ast.List):
                                bad.append((x, "a text grows in arbitrary order"))
                        else:
                            unsure.append((x, "a value grows in arbitrary order"))
                    else:
                        unsure.append((x, "a value grows in arbitrary order"))
                elif isinstance(x, ast.Expr):
                    v = x.value
                    if isinstance(v, (ast.Yield, ast.YieldFrom)):
                        self.o.put(self.o.rets, self.fi.full, "Q")
                        continue
                    if isinstance(v, ast.Constant):
                        continue
                    if isinstance(v, ast.Call):
                        f = v.func
                        if isinstance(f, ast.Attribute):
                            base = ast.unparse(f.value)
                            if f.attr in SET_NEUTRAL and self.kind(f.value, dict(inner), quiet=True) == "S":
                                continue
                            root = f.value
                            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                                root = root.func if isinstance(root, ast.Call) else root.value
                            if isinstance(root, ast.Name) and root.id in names:
                                continue
                            if f.attr in ("add", "discard", "remove", "pop", "debug", "info", "warning"):
                                if f.attr != "add":
                                    unsure.append((x, f"{f.attr} in arbitrary order"))
                                continue
                            if f.attr in EFFECTS:
                                if isinstance(f.value, ast.Name) and f.attr in ("append", "extend", "insert", "appendleft", "setdefault", "update"):
                                    makes[base] = "Q"
                                else:
                                    bad.append((x, f"{base}.{f.attr} is called in arbitrary order"))
                                continue
                        if self.effects(v):
                            bad.append((x, f"{ast.unparse(f)} is called in arbitrary order"))
                        else:
                            unsure.append((x, f"{ast.unparse(f)} is called in arbitrary order"))
                elif isinstance(x, (ast.FunctionDef, ast.Delete, ast.Global, ast.Nonlocal)):
                    pass
                else:
                    unsure.append((x, "statement in a loop in arbitrary order"))

        walk(s.body)
        self.o.uses += 1
        for n, what in bad:
            self.o.sink(self.fi, n, what)
        for n, what in unsure:
            self.o.sink(self.fi, n, what, sure=False)
        self.pending = makes
        for n, v in makes.items():
            # only lists, mappings and texts remember the order
            if self.kind(ast.Name(id=n, ctx=ast.Load()), dict(inner), quiet=True) != "S":
                inner[n] = v

    def effects(self, call):
        """Does the function that is called change something?"""
        from .rules.p23 import targets

        ts, exact = targets(self.p, self.fi, call, {})
        for t in ts:
            for n in ast.walk(t.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(x, (ast.Attribute, ast.Subscript)):
                            return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in EFFECTS:
                    return True
        return False

    # ----------------------------------------------------------- expressions
    def kind(self, e, env, quiet=False):
        if e is None:
            return None
        if quiet:
            saved = dict(self.o.sinks), self.o.uses, self.o.sources
            k = self._kind(e, env)
            self.o.sinks, self.o.uses, self.o.sources = saved[0], saved[1], saved[2]
            return k
        return self._kind(e, env)

    def _kind(self, e, env):
        if isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Attribute):
            key = ast.unparse(e)
            if key in env:
                return env[key]
            self._kind(e.value, env)
            ci = self.receiver(e.value)
            if ci is None:
                return None
            for c in self.p.mro(ci):
                full = getattr(c, "full", None)
                if full and (full, e.attr) in self.o.attrs:
                    return self.o.attrs[(full, e.attr)]
            return "S" if opt_set(self.p.attr_types(ci).get(e.attr)) else None
        if isinstance(e, ast.Set):
            for x in e.elts:
                self._kind(x, env)
            self.o.sources += 1
            return None if all(isinstance(x, ast.Constant) and isinstance(x.value, (int, type(None))) for x in e.elts) else "S"
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            k = None
            for g in e.generators:
                gk = self._kind(g.iter, env2)
                if gk:
                    k = "Q"
                self.bind(g.target, env2)
                for c in g.ifs:
                    self._kind(c, env2)
            for x in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                self._kind(x, env2)
            if isinstance(e, ast.SetComp):
                self.o.sources += 1
                return "S"
            return k
        if isinstance(e, ast.IfExp):
            self._kind(e.test, env)
            return join(self._kind(e.body, env), self._kind(e.orelse, env))
        if isinstance(e, ast.BoolOp):
            k = None
            for v in e.values:
                k = join(k, self._kind(v, env))
            return k
        if isinstance(e, ast.NamedExpr):
            k = self._kind(e.value, env)
            self.assign(e.target, k, e.value, env)
            return k
        if isinstance(e, ast.BinOp):
            a, b = self._kind(e.left, env), self._kind(e.right, env)
            if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                if a == "S" or b == "S":
                    return "S"
                if self.view(e.left) or self.view(e.right):
                    return "S"
                return join(a, b)
            if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
                parts = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
                if any(self._kind(x, env) for x in parts):
                    self.o.sink(self.fi, e, "values in arbitrary order become text")
                return None
            if isinstance(e.op, (ast.Add, ast.Mult)):
                return "Q" if a or b else None
            return None
        if isinstance(e, (ast.List, ast.Tuple)):
            k = None
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    if self._kind(x.value, env):
                        k = "Q"
                elif self._kind(x, env) == "Q":
                    self.o.sink(self.fi, x, "values in arbitrary order are stored")
            return k
        if isinstance(e, ast.Dict):
            k = None
            for key, v in zip(e.keys, e.values):
                vk = self._kind(v, env)
                if key is None:
                    k = join(k, "Q" if vk else None)
                elif vk == "Q":
                    self.o.sink(self.fi, v, "values in arbitrary order are stored")
            return k
        if isinstance(e, ast.Subscript):
            k = self._kind(e.value, env)
            self._kind(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                if k and not (e.slice.lower is None and e.slice.upper is None):
                    self.o.sink(self.fi, e, "a part of a sequence in arbitrary order", sure=not self.single(e.value, env))
                return k
            if k == "Q" and (isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) or isinstance(e.slice, ast.UnaryOp)):
                self.o.sink(self.fi, e, "an item of a sequence in arbitrary order", sure=not self.single(e.value, env))
            return None
        if isinstance(e, ast.JoinedStr):
            for v in e.values:
                if isinstance(v, ast.FormattedValue) and self._kind(v.value, env):
                    self.o.sink(self.fi, v.value, "values in arbitrary order become text")
            return None
        if isinstance(e, ast.Starred):
            return self._kind(e.value, env)
        if isinstance(e, ast.Lambda):
            self._kind(e.body, dict(env))
            return None
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self._kind(x, env)
            return None
        if isinstance(e, ast.Call):
            return self.call(e, env)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self._kind(x, env)
        return None

    def view(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "items") and not e.args

    def call(self, e, env):
        f = e.func
        args = [(a.value if isinstance(a, ast.Starred) else a, isinstance(a, ast.Starred)) for a in e.args]
        ks = [self._kind(a, env) for a, _ in args]
        kws = {}
        for kw in e.keywords:
            kk = self._kind(kw.value, env)
            if kw.arg is not None:
                kws[kw.arg] = kk
        name = self.ext(f)
        for (a, star), k in zip(args, ks):
            if star and k and name not in SETS and name not in NEUTRAL:
                self.o.sink(self.fi, e, "values in arbitrary order become arguments")
        if name in SETS:
            self.o.sources += 1
            return "S"
        if name in LISTINGS:
            self.o.sources += 1
            return "Q"
        if name in NEUTRAL:
            return None
        if name in KEEP or (name and name.startswith("itertools.")):
            return "Q" if any(ks) else None
        if name in TEXT:
            if any(ks):
                self.o.sink(self.fi, e, "values in arbitrary order become text")
            return None
        if name == "builtins.next":
            if ks and ks[0]:
                self.o.sink(self.fi, e, "the first of values in arbitrary order", sure=not self.single(e, env))
            return None
        if isinstance(f, ast.Attribute):
            bk = self._kind(f.value, env)
            if f.attr in LIST_METHODS and not bk and self.receiver(f.value) is None and (f.attr in ("iterdir", "rglob") or self.pathlike(f.value)):
                self.o.sources += 1
                return "Q"
            if bk == "S":
                if f.attr in SET_METHODS:
                    return "S"
                if f.attr == "pop":
                    self.o.sink(self.fi, e, "an arbitrary item of a set", sure=not self.single(f.value, env))
                return None
            if bk == "Q":
                if f.attr in DICT_VIEWS or f.attr == "copy":
                    return "Q"
                if f.attr in ("pop", "popleft", "index", "popitem") and not (f.attr == "pop" and e.args and not isinstance(e.args[0], ast.Constant)):
                    self.o.sink(self.fi, e, "an item of a sequence in arbitrary order", sure=not self.single(f.value, env))
                return None
            if f.attr == "join" and any(ks):
                self.o.sink(self.fi, e, "values in arbitrary order are joined")
                return None
            if f.attr == "format" and (any(ks) or any(kws.values())):
                self.o.sink(self.fi, e, "values in arbitrary order become text")
                return None
            if f.attr in ("extend", "append", "insert") and any(ks):
                if f.attr == "append" and ks[-1] == "S":
                    return None
                if isinstance(f.value, ast.Name):
                    env[f.value.id] = "Q"
                else:
                    self.o.sink(self.fi, e, "a list is extended with values in arbitrary order")
                return None
        # functions of the package
        from .rules.p23 import targets

        ts, exact = targets(self.p, self.fi, e, {})
        out = None
        ctor = None
        if isinstance(f, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(self.m, f)
            if r and r[0] == "class":
                ctor = r[1]
        if not ts:
            if any(k == "Q" for k in list(ks) + list(kws.values())):
                sure = ctor is not None
                self.o.sink(self.fi, e, "values in arbitrary order are passed to " + ast.unparse(f), sure=sure)
            if ctor is not None:
                for n, k in kws.items():
                    if k == "S":
                        self.o.put(self.o.attrs, (ctor.full, n), "S")
            return None
        for t in ts:
            self.o.called.add(t.full)
            ps = t.node.args.posonlyargs + t.node.args.args
            if t.cls is not None and not any(d.endswith("staticmethod") for d in t.decorators):
                ps = ps[1:]
            for p, k in zip(ps, ks):
                if k:
                    self.o.put(self.o.params, (t.full, p.arg), k)
            for n, k in kws.items():
                if k:
                    self.o.put(self.o.params, (t.full, n), k)
            out = join(out, self.o.rets.get(t.full))
        return out if ctor is None else None

    def pathlike(self, e):
        s = ast.unparse(e).lower()
        return "path" in s or "dir" in s
