"""Objects that outlive a call, and the code that changes them.

The origin of a value is a set of ("shared", description) and ("param", name).
Shared objects are the mutable values bound in a module or in a class body, the
defaults of parameters and the results of cached functions.  The summary of a
function says which parameters (or what can be reached from them) it changes,
stores in attributes and returns; summaries are solved by a fixpoint and
instantiated at each call."""

from __future__ import annotations

import ast

from .loader import ClassInfo

NONE = frozenset()
MUTABLE_EXT = {"dict", "list", "set", "defaultdict", "OrderedDict", "deque", "Counter", "count", "cycle", "iter", "bytearray", "ChainMap", "UserDict", "UserList", "WeakKeyDictionary", "WeakValueDictionary"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "popitem", "appendleft", "popleft", "extendleft", "rotate", "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__", "__delitem__", "move_to_end", "write"}
READS = {"get", "values", "items", "keys", "__getitem__", "popitem", "pop", "setdefault"}
ALIASING = {"builtins.iter", "builtins.enumerate", "builtins.zip", "builtins.reversed", "builtins.filter", "builtins.map", "builtins.getattr", "builtins.next", "builtins.max", "builtins.min", "typing.cast"}
FRESH = {"builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.frozenset", "builtins.sorted", "copy.copy", "copy.deepcopy", "builtins.str", "builtins.len"}
FILES = {"open", "read_text", "read_bytes", "iterdir", "listdir", "scandir", "glob", "rglob", "is_dir", "is_file", "exists", "stat", "entry_points"}
PROCESS = {"os.chdir", "os.putenv", "os.unsetenv", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.umask", "locale.setlocale", "sys.path.append", "sys.path.insert", "random.seed"}


class Summary:
    def __init__(self):
        self.ret = set()
        self.mutates = {}  # param -> (node, what)
        self.stores = set()  # (class full, attr, param)

    def state(self):
        return len(self.ret), len(self.mutates), len(self.stores)


class Shared:
    def __init__(self, prog, skip=()):
        self.prog = prog
        self.fns = [f for f in prog.functions.values() if f.module.name not in skip]
        self.sum = {f.full: Summary() for f in prog.functions.values()}
        self.attrs = {}  # (class full, attr) -> shared origins
        self.bad = {}
        self.sources = set()
        self.flat = set()  # containers of constants only
        self.calls = 0
        self.changed = True
        self.modvars = {}
        self.caches = {f.full for f in prog.functions.values() if any(d.split("(")[0].split(".")[-1] in ("cache", "lru_cache") for d in f.decorators)}
        rounds = 0
        while self.changed and rounds < 15:
            self.changed = False
            self.bad = {}
            self.calls = 0
            rounds += 1
            for f in self.fns:
                before = self.sum[f.full].state()
                Scan(self, f).run()
                if self.sum[f.full].state() != before:
                    self.changed = True

    def store(self, key, origins):
        have = self.attrs.setdefault(key, set())
        if not origins <= have:
            have |= origins
            self.changed = True

    def report(self, fi, node, what, sure=True):
        self.bad.setdefault((fi.full, getattr(node, "lineno", 0), what), (fi, node, what, sure))

    def source(self, d, e):
        self.sources.add(d)
        if isinstance(e, ast.Dict) and all(isinstance(v, ast.Constant) for v in e.values) and None not in e.keys:
            self.flat.add(d)
        elif isinstance(e, (ast.List, ast.Set)) and all(isinstance(v, ast.Constant) for v in e.elts):
            self.flat.add(d)
        return {("shared", d)}

    def inside(self, o):
        """Origins of what a container holds."""
        return {x for x in o if x[0] != "shared" or x[1] not in self.flat}

    def mutable(self, module, e):
        """Is the value of this expression an object that can be changed?"""
        if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(module, e.func)
            if r and r[0] == "class":
                ci = r[1]
                return not ci.is_enum and "Exception" not in ci.name and not any("frozen=True" in ast.unparse(d) for d in ci.node.decorator_list)
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id
            if r is None or r[0] == "ext":
                if n in MUTABLE_EXT:
                    return True
                # an alternative constructor of a class of the package
                if isinstance(e.func, ast.Attribute):
                    b = self.prog.resolve_expr(module, e.func.value)
                    return bool(b and b[0] == "class" and not b[1].is_enum)
        if isinstance(e, ast.BinOp):
            return self.mutable(module, e.left) or self.mutable(module, e.right)
        return False


class Scan:
    def __init__(self, sh, fi):
        self.sh = sh
        self.p = sh.prog
        self.fi = fi
        self.m = fi.module
        self.s = sh.sum[fi.full]
        self.globals = {n for x in ast.walk(fi.node) if isinstance(x, ast.Global) for n in x.names}

    def run(self):
        node = self.fi.node
        a = node.args
        env = {}
        allp = a.posonlyargs + a.args + a.kwonlyargs
        for x in allp:
            env[x.arg] = {("param", x.arg)}
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if self.sh.mutable(self.m, d):
                env[x.arg] |= self.sh.source(f"the default of the parameter {x.arg} of {self.fi.qual}", d)
        first = a.args[0].arg if a.args else None
        self.selfname = first if self.fi.cls is not None and not self.fi.is_staticmethod else None
        self.clsname = first if self.fi.cls is not None and self.fi.is_classmethod else None
        self.local = set(env) | {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        self.local -= self.globals
        self.imports = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    self.imports[a.asname or a.name] = f"{n.module}.{a.name}"
        self.block(node.body, env)
        # a second time, for what loops bring back
        self.block(node.body, env)

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def add(self, env, name, o):
        env[name] = set(o)

    def weak(self, env, name, o):
        env.setdefault(name, set()).update(o)

    def stmt(self, s, env):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inner = dict(env)
            for p in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
                inner[p.arg] = set()
            self.block(s.body, inner)
            return
        if isinstance(s, ast.ClassDef):
            return
        if isinstance(s, ast.Assign):
            o = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, o, s.value, env)
            return
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), s.value, env)
            return
        if isinstance(s, ast.AugAssign):
            self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.globals:
                    self.sh.report(self.fi, s, f"the global {s.target.id} keeps a value from one document to the next")
                elif not isinstance(s.value, (ast.Constant, ast.JoinedStr)) and isinstance(s.op, (ast.Add, ast.BitOr)):
                    # += changes lists and sets in place
                    if isinstance(s.value, (ast.List, ast.ListComp, ast.Set)) or self.listlike(s.target.id):
                        self.mutate(env.get(s.target.id, set()), s, f"{s.target.id} +=")
            elif isinstance(s.target, ast.Attribute):
                self.attr_store(s.target, None, s, env)
            elif isinstance(s.target, ast.Subscript):
                self.mutate(self.ev(s.target.value, env), s, ast.unparse(s.target) + " =")
            return
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), s, "del " + ast.unparse(t))
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, env), s, "del " + ast.unparse(t))
            return
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            ends = s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            for k in set(a) | set(b):
                env[k] = set(b.get(k, ())) if ends else set(a.get(k, ())) | set(b.get(k, ()))
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            o = self.ev(s.iter, env)
            self.bind(s.target, self.sh.inside(o), env)
            self.loop(s.body, env)
            self.block(s.orelse, env)
            return
        if isinstance(s, ast.While):
            self.ev(s.test, env)
            self.loop(s.body, env)
            self.block(s.orelse, env)
            return
        if isinstance(s, ast.Try):
            self.loop(s.body, env)
            for h in s.handlers:
                self.loop(h.body, env)
            self.loop(s.orelse, env)
            self.block(s.finalbody, env)
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                o = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, o, i.context_expr, env)
            self.block(s.body, env)
            return
        if isinstance(s, ast.Match):
            o = self.ev(s.subject, env)
            for c in s.cases:
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        env[n.name] = set(o)
                self.loop(c.body, env)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.s.ret |= self.ev(s.value, env)
            return
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.ev(e, env)

    def loop(self, body, env):
        a = {k: set(v) for k, v in env.items()}
        self.block(body, a)
        for k in a:
            env[k] = set(env.get(k, ())) | a[k]

    def listlike(self, name):
        for n in ast.walk(self.fi.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Name) and t.id == name for t in ts) and self.sh.mutable(self.m, n.value):
                    return True
        for p in self.fi.node.args.args:
            if p.arg == name and p.annotation is not None:
                t = self.p.parse_type(self.m, p.annotation)
                t = t[1] if t and t[0] == "opt" else t
                return bool(t and t[0] in ("list", "set", "dict"))
        return False

    def bind(self, t, o, env):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                env[n.id] = set(o)

    def assign(self, t, o, value, env):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.keeps(t, value, f"the global {t.id}", env)
                return
            env[t.id] = set(o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, v in zip(t.elts, value.elts):
                    self.assign(x, self.ev(v, env), v, env)
            else:
                for x in t.elts:
                    x = x.value if isinstance(x, ast.Starred) else x
                    self.assign(x, o, value, env) if isinstance(x, (ast.Name, ast.Tuple, ast.List)) else None
        elif isinstance(t, ast.Attribute):
            self.attr_store(t, o, value, env)
        elif isinstance(t, ast.Subscript):
            if self.ext(t.value) in ("os.environ", "sys.modules", "sys.path"):
                self.sh.report(self.fi, t, f"{self.ext(t.value)} changes the state of the process")
            self.mutate(self.ev(t.value, env), t, ast.unparse(t) + " =")

    def keeps(self, t, value, what, env):
        """A value stored where it outlives the call."""
        dep = False
        for n in ast.walk(value):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.local:
                dep = True
        self.sh.report(self.fi, t, f"{what} keeps a value from one document to the next", sure=True if dep else None)

    def attr_store(self, t, o, value, env):
        base = t.value
        owner = self.class_of(base)
        if owner is not None:
            if o is None:
                self.sh.report(self.fi, t, f"the class attribute {owner.name}.{t.attr} keeps a value from one document to the next")
            else:
                self.keeps(t, value, f"the class attribute {owner.name}.{t.attr}", env)
            return
        if isinstance(base, ast.Name) and base.id not in self.local:
            r = self.p.resolve(self.m, base.id)
            if r and r[0] == "func":
                self.sh.report(self.fi, t, f"an attribute of the function {base.id} keeps a value from one document to the next")
                return
        bo = self.ev(base, env)
        self.mutate({x for x in bo if not (x == ("param", self.selfname) and self.fi.name == "__init__")}, t, ast.unparse(t) + " =")
        if o:
            ci = self.receiver(base)
            if ci is not None:
                sh = {x for x in o if x[0] == "shared"}
                if sh:
                    self.sh.store((ci.full, t.attr), sh)
                for x in o:
                    if x[0] == "param" and not (isinstance(base, ast.Name) and x[1] == base.id):
                        self.s.stores.add((ci.full, t.attr, x[1]))

    def mutate(self, origins, node, what):
        for k, v in origins:
            if k == "shared":
                self.sh.report(self.fi, node, f"{what} changes {v}")
            else:
                self.s.mutates.setdefault(v, (node, what))

    # ----------------------------------------------------------- expressions
    def receiver(self, e):
        from .rules.p23 import receiver

        return receiver(self.p, self.fi, e)

    def class_of(self, e):
        """The class an expression denotes (Cls, cls, type(self), self.__class__)."""
        if isinstance(e, ast.Name):
            if e.id == self.clsname:
                return self.fi.cls
            if e.id in self.local:
                return None
            r = self.p.resolve(self.m, e.id)
            return r[1] if r and r[0] == "class" else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
            return self.receiver(e.args[0])
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            return self.receiver(e.value)
        return None

    def class_attr(self, ci, name):
        """Origin of a mutable attribute of the class."""
        a = self.p.find_class_attr(ci, name)
        if a is None or ci.is_enum:
            return NONE
        owner, e = a
        if not isinstance(e, ast.AST) or owner.is_enum or not self.sh.mutable(owner.module, e):
            return NONE
        d = f"the class attribute {owner.name}.{name}"
        return self.sh.source(d, e)

    def instance_attr(self, ci, name):
        for c in [x for x in self.p.mro(ci) if isinstance(x, ClassInfo)]:
            for fi in c.methods.values():
                if not fi.node.args.args or fi.is_classmethod or fi.is_staticmethod or fi.name != "__init__":
                    continue
                me = fi.node.args.args[0].arg
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == me:
                        return True
        return False

    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            if e.id in env:
                return set(env[e.id])
            if e.id in self.local:
                return NONE
            r = self.p.resolve(self.m, e.id)
            if r and r[0] == "assign" and self.sh.mutable(r[2], r[1]):
                d = f"{e.id} of the module {r[2].name}"
                return self.sh.source(d, r[1])
            return NONE
        if isinstance(e, ast.Attribute):
            owner = self.class_of(e.value)
            if owner is not None:
                return self.class_attr(owner, e.attr)
            r = self.p.resolve_expr(self.m, e) if not (isinstance(e.value, ast.Name) and e.value.id in self.local) else None
            if r and r[0] == "assign" and self.sh.mutable(r[2], r[1]):
                d = f"{e.attr} of the module {r[2].name}"
                return self.sh.source(d, r[1])
            o = set(self.ev(e.value, env))
            ci = self.receiver(e.value)
            if ci is not None:
                for c in self.p.mro(ci):
                    if isinstance(c, ClassInfo):
                        o |= self.sh.attrs.get((c.full, e.attr), set())
                if not self.instance_attr(ci, e.attr):
                    o |= self.class_attr(ci, e.attr)
                m = self.p.find_method(ci, e.attr)
                if m is not None and m.is_property:
                    o = self.result([m], {m.full: {m.node.args.args[0].arg: o}} if m.node.args.args else {}, e)
            return o
        if isinstance(e, ast.Subscript):
            self.ev(e.slice, env)
            o = self.ev(e.value, env)
            return NONE if isinstance(e.slice, ast.Slice) else self.sh.inside(o)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.ev(v, env)
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return set(self.ev(e.body, env)) | set(self.ev(e.orelse, env))
        if isinstance(e, ast.NamedExpr):
            o = self.ev(e.value, env)
            env[e.target.id] = set(o)
            return o
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(env)
            for g in e.generators:
                self.bind(g.target, self.sh.inside(self.ev(g.iter, inner)), inner)
                for c in g.ifs:
                    self.ev(c, inner)
            out = set()
            for x in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                out |= self.ev(x, inner)
            return NONE
        if isinstance(e, ast.Lambda):
            inner = dict(env)
            for p in e.args.args:
                inner[p.arg] = set()
            self.ev(e.body, inner)
            return NONE
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                self.ev(x, env)
            return NONE
        if isinstance(e, ast.Call):
            return self.call(e, env)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return NONE

    def ext(self, e):
        if isinstance(e, (ast.Name, ast.Attribute)):
            root = e
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in self.imports:
                return self.imports[root.id] + ast.unparse(e)[len(root.id):]
            if isinstance(root, ast.Name) and root.id in self.local:
                return None
            r = self.p.resolve_expr(self.m, e)
            if r and r[0] == "ext":
                return r[1] if "." in r[1] else "builtins." + r[1]
            if r is None and isinstance(e, ast.Name):
                return "builtins." + e.id
        return None

    def call(self, e, env):
        from .rules.p23 import targets

        f = e.func
        self.sh.calls += 1
        args = [self.ev(a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        name = self.ext(f)
        if name in PROCESS:
            self.sh.report(self.fi, e, f"{name} changes the state of the process")
        if name == "builtins.next" and args:
            # an iterator that belongs to a module or a class
            sh = {o for o in args[0] if o[0] == "shared"}
            if sh:
                self.mutate(sh, e, "next()")
        if name == "builtins.setattr" and args:
            self.mutate(args[0], e, "setattr()")
        if name in FRESH:
            return NONE
        if name in ALIASING:
            out = set()
            for o in args:
                out |= o
            return out
        owner = None
        recv = NONE
        if isinstance(f, ast.Attribute):
            owner = self.class_of(f.value)
            if owner is None and name is None:
                recv = self.ev(f.value, env)
        ts, exact = targets(self.p, self.fi, e, {})
        ctor = None
        if isinstance(f, (ast.Name, ast.Attribute)) and not (isinstance(f, ast.Name) and f.id in self.local):
            r = self.p.resolve_expr(self.m, f)
            if r and r[0] == "class":
                ctor = r[1]
        if ctor is not None:
            ts = [self.p.find_method(ctor, "__init__")]
            ts = [t for t in ts if t is not None]
            if not ts:
                # a dataclass stores what it is given
                fields = list(ctor.annotations)
                for n, o in list(zip(fields, args)) + list(kws.items()):
                    if n:
                        sh = {x for x in o if x[0] == "shared"}
                        if sh:
                            self.sh.store((ctor.full, n), sh)
                        for x in o:
                            if x[0] == "param":
                                self.s.stores.add((ctor.full, n, x[1]))
                return NONE
        if not ts:
            if isinstance(f, ast.Attribute) and owner is None:
                if f.attr in MUTATORS and recv:
                    self.mutate(recv, e, f"{ast.unparse(f)}()")
                if f.attr in READS:
                    return self.sh.inside(recv)
            return NONE
        binding = {}
        for t in ts:
            ps = [p.arg for p in t.node.args.posonlyargs + t.node.args.args]
            b = {}
            if t.cls is not None and not t.is_staticmethod:
                if ctor is None and owner is None and isinstance(f, ast.Attribute) and not t.is_classmethod:
                    if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                        recv = {("param", self.selfname)} if self.selfname else NONE
                    b[ps[0]] = recv
                # Cls.method(obj, ...) keeps self among the arguments
                if ctor is not None or owner is None or t.is_classmethod:
                    ps = ps[1:]
            for p, o in zip(ps, args):
                b[p] = o
            for k, o in kws.items():
                if k:
                    b[k] = o
            binding[t.full] = b
        out = self.result(ts, binding, e)
        return NONE if ctor is not None else out

    def result(self, ts, binding, node):
        out = set()
        for t in ts:
            s = self.sh.sum[t.full]
            b = binding.get(t.full, {})

            def inst(o):
                return b.get(o[1], NONE) if o[0] == "param" else {o}

            for o in list(s.ret):
                out |= inst(o)
            if t.full in self.sh.caches:
                out.add(("shared", f"the cached result of {t.qual}"))
            for p, (n, what) in list(s.mutates.items()):
                for o in b.get(p, NONE):
                    if o[0] == "shared":
                        self.sh.report(self.fi, node, f"{t.qual}() ({what}) changes {o[1]}")
                    else:
                        self.s.mutates.setdefault(o[1], (node, f"{t.qual}(): {what}"))
            for full, attr, p in list(s.stores):
                o = b.get(p, NONE)
                sh = {x for x in o if x[0] == "shared"}
                if sh:
                    self.sh.store((full, attr), sh)
                for x in o:
                    if x[0] == "param":
                        self.s.stores.add((full, attr, x[1]))
        return out
