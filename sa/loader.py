"""Program loader: parses every module of /repo/mau and resolves names.

Nothing here imports or runs the analysed code; everything is read from the
syntax trees of the current working tree.
"""

from __future__ import annotations

import ast
import os
import builtins


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (an anchor vanished, ...)."""


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.bindings = {}  # name -> ('func',FuncInfo)|('class',ClassInfo)|('import',mod,attr|None)|('assign',expr)

    def __repr__(self):
        return f"<module {self.name}>"


class FuncInfo:
    def __init__(self, name, module, node, cls=None, outer=None):
        self.name = name
        self.module = module
        self.node = node
        self.cls = cls
        self.outer = outer
        if cls is not None:
            self.qual = f"{cls.name}.{name}"
        elif outer is not None:
            self.qual = f"{outer.qual}.<locals>.{name}"
        else:
            self.qual = name
        self.full = f"{module.name}:{self.qual}"
        decs = [] if isinstance(node, ast.Lambda) else node.decorator_list
        self.decorators = [ast.unparse(d) for d in decs]
        self.is_property = any(
            d in ("property", "cached_property", "functools.cached_property") for d in self.decorators
        )
        self.is_classmethod = "classmethod" in self.decorators
        self.is_staticmethod = "staticmethod" in self.decorators
        self._assigned = None

    def __repr__(self):
        return f"<fn {self.full}>"


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.full = f"{module.name}:{name}"
        self.methods = {}
        self.attrs = {}  # class-level assignments: name -> expr
        self.annotations = {}  # class-level annotations: name -> annotation ast
        self.base_exprs = node.bases
        self.bases = []  # ClassInfo or str (external dotted)
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_dataclass = any(d.split("(")[0].split(".")[-1] == "dataclass" for d in self.decorators)
        self.is_enum = False
        self._mro = None
        self._attr_types = None

    def __repr__(self):
        return f"<class {self.full}>"


class Program:
    def __init__(self, root="/repo", package="mau"):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}  # full -> ClassInfo
        self.functions = {}  # full -> FuncInfo
        self._load()
        self._link()

    # ------------------------------------------------------------------ load
    def _load(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"{base} not found")
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as exc:
                    raise AnalysisBroken(f"cannot parse {path}: {exc}")
                m = Module(name, rel, tree, is_pkg)
                self.modules[name] = m
        for m in self.modules.values():
            self._bind_body(m, m.tree.body)

    def _bind_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st.name, m, st)
                self.functions[fi.full] = fi
                m.bindings[st.name] = ("func", fi)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(st.name, m, st)
                self.classes[ci.full] = ci
                m.bindings[st.name] = ("class", ci)
                for s in st.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        fi = FuncInfo(s.name, m, s, cls=ci)
                        if s.name in ci.methods and any(
                            d.endswith(".setter") for d in fi.decorators
                        ):
                            continue
                        ci.methods[s.name] = fi
                        self.functions[fi.full] = fi
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                ci.attrs[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        ci.annotations[s.target.id] = s.annotation
                        if s.value is not None:
                            ci.attrs[s.target.id] = s.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.bindings[a.asname] = ("import", a.name, None)
                    else:
                        m.bindings[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                mod = self._abs_module(m, st)
                for a in st.names:
                    m.bindings[a.asname or a.name] = ("import", mod, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.bindings[t.id] = ("assign", st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.bindings[st.target.id] = ("assign", st.value)
            elif isinstance(st, ast.If):
                self._bind_body(m, st.body)
                self._bind_body(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._bind_body(m, st.body)

    def _abs_module(self, m, st):
        if not st.level:
            return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        drop = st.level - 1
        if drop:
            parts = parts[:-drop]
        if st.module:
            parts += st.module.split(".")
        return ".".join(parts)

    def _link(self):
        for ci in self.classes.values():
            for b in ci.base_exprs:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = self.resolve_expr(ci.module, b)
                if r and r[0] == "class":
                    ci.bases.append(r[1])
                elif r and r[0] == "ext":
                    ci.bases.append(r[1])
                else:
                    ci.bases.append(ast.unparse(b))
        for ci in self.classes.values():
            ci.is_enum = any(
                isinstance(b, str) and b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum")
                for c in self.mro(ci)
                if isinstance(c, ClassInfo)
                for b in c.bases
            )
        self.subclasses = {}
        for ci in self.classes.values():
            for c in self.mro(ci):
                if isinstance(c, ClassInfo) and c is not ci:
                    self.subclasses.setdefault(c.full, []).append(ci)

    # --------------------------------------------------------------- resolve
    def resolve(self, module, name, _depth=0):
        """Resolve a module-level name to
        ('func',fi) ('class',ci) ('module',m) ('ext',dotted) ('assign',expr,module)."""
        if _depth > 12:
            return None
        b = module.bindings.get(name)
        if b is None:
            if hasattr(builtins, name):
                return ("ext", "builtins." + name)
            return None
        if b[0] == "func" or b[0] == "class":
            return b
        if b[0] == "assign":
            return ("assign", b[1], module)
        _, mod, attr = b
        if attr is None:
            if mod in self.modules:
                return ("module", self.modules[mod])
            return ("ext", mod)
        if mod in self.modules:
            target = self.modules[mod]
            if attr in target.bindings and not (
                target is module and target.bindings[attr] is b
            ):
                return self.resolve(target, attr, _depth + 1)
            sub = f"{mod}.{attr}"
            if sub in self.modules:
                return ("module", self.modules[sub])
            return ("ext", f"{mod}.{attr}")
        return ("ext", f"{mod}.{attr}")

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value)
            if r is None:
                return None
            if r[0] == "module":
                return self.resolve(r[1], e.attr)
            if r[0] == "ext":
                return ("ext", r[1] + "." + e.attr)
        return None

    # ------------------------------------------------------------------- mro
    def mro(self, ci):
        if ci._mro is not None:
            return ci._mro
        seqs = []
        for b in ci.bases:
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b)))
            else:
                seqs.append([b])
        seqs.append(list(ci.bases))
        out = [ci]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        ci._mro = out
        return out

    def find_method(self, ci, name, after=None):
        seen = after is None
        for c in self.mro(ci):
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, ci, other):
        return other in self.mro(ci)

    # --------------------------------------------------------------- lookups
    def cls(self, name, module=None):
        hits = [c for c in self.classes.values() if c.name == name and (module is None or c.module.name == module)]
        if not hits:
            raise AnalysisBroken(f"anchor: class {name} not found")
        return hits[0]

    def maybe_cls(self, name):
        hits = [c for c in self.classes.values() if c.name == name]
        return hits[0] if hits else None

    def func(self, name):
        hits = [f for f in self.functions.values() if f.qual == name]
        if not hits:
            raise AnalysisBroken(f"anchor: function {name} not found")
        return hits[0]

    def method(self, cls_name, name):
        ci = self.cls(cls_name)
        fi = self.find_method(ci, name)
        if fi is None:
            raise AnalysisBroken(f"anchor: method {cls_name}.{name} not found")
        return fi

    # ------------------------------------------------------------ attr types
    def parse_type(self, module, a):
        """annotation -> type term (tuples)"""
        if a is None:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return ("none",)
            if isinstance(a.value, str):
                try:
                    return self.parse_type(module, ast.parse(a.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self._union(self.parse_type(module, a.left), self.parse_type(module, a.right))
        if isinstance(a, ast.Subscript):
            h = ast.unparse(a.value).split(".")[-1]
            sl = a.slice
            items = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if h in ("list", "List", "Sequence", "Iterable", "MutableSequence", "Iterator"):
                return ("list", self.parse_type(module, items[0]))
            if h in ("set", "Set", "frozenset"):
                return ("set", self.parse_type(module, items[0]))
            if h in ("dict", "Dict", "Mapping", "MutableMapping", "defaultdict"):
                return ("dict", self.parse_type(module, items[0]), self.parse_type(module, items[-1]))
            if h in ("tuple", "Tuple"):
                return ("tuple",) + tuple(self.parse_type(module, i) for i in items)
            if h in ("Type", "type"):
                return ("type", self.parse_type(module, items[0]))
            if h == "Optional":
                return self._union(self.parse_type(module, items[0]), ("none",))
            return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.resolve_expr(module, a)
            if r and r[0] == "class":
                return ("cls", r[1])
            if r and r[0] == "assign":
                return self.parse_type(r[2], r[1])
            n = ast.unparse(a).split(".")[-1]
            if n in ("str", "int", "bool", "float", "bytes"):
                return (n,)
            if n in ("list", "Sequence", "List"):
                return ("list", None)
            if n in ("dict", "Mapping", "MutableMapping"):
                return ("dict", None, None)
            if n == "set":
                return ("set", None)
            if n == "Callable":
                return ("callable",)
        return None

    def _union(self, a, b):
        if a == ("none",) and b is not None:
            return b if b[0] == "opt" else ("opt", b)
        if b == ("none",) and a is not None:
            return a if a[0] == "opt" else ("opt", a)
        if a is None or b is None:
            return None
        if a == b:
            return a
        oa, ob = a[0] == "opt", b[0] == "opt"
        return ("opt", None) if (oa or ob) else None

    def attr_types(self, ci):
        """Declared/inferred types of instance attributes (flow-insensitive,
        from class annotations and assignments to self.X in any method)."""
        if ci._attr_types is not None:
            return ci._attr_types
        ci._attr_types = {}
        types = {}
        for c in reversed([c for c in self.mro(ci) if isinstance(c, ClassInfo)]):
            for n, a in c.annotations.items():
                types[n] = self.parse_type(c.module, a)
            for fi in sorted(c.methods.values(), key=lambda f: f.name != "__init__"):
                if not fi.node.args.args:
                    continue
                selfname = fi.node.args.args[0].arg
                params = {
                    p.arg: self.parse_type(c.module, p.annotation)
                    for p in fi.node.args.args + fi.node.args.kwonlyargs
                }
                for n in ast.walk(fi.node):
                    tgt = None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val, ann = n.targets[0], n.value, None
                    if not (
                        isinstance(tgt, ast.Attribute)
                        and isinstance(tgt.value, ast.Name)
                        and tgt.value.id == selfname
                    ):
                        continue
                    if tgt.attr in types and fi.name != "__init__":
                        continue
                    t = self.parse_type(c.module, ann) if ann is not None else None
                    if t is None:
                        t = self.infer_expr_type(c.module, val, params)
                    if t is None and tgt.attr in types:
                        continue
                    types[tgt.attr] = t
        ci._attr_types = types
        return types

    def infer_expr_type(self, module, e, params):
        if e is None:
            return None
        if isinstance(e, ast.Call):
            r = self.resolve_expr(module, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "class":
                return ("cls", r[1])
            if r and r[0] == "ext":
                n = r[1].split(".")[-1]
                if n in ("dict", "defaultdict", "OrderedDict"):
                    return ("dict", None, None)
                if n in ("list", "sorted"):
                    return ("list", None)
                if n == "set":
                    return ("set", None)
            return None
        if isinstance(e, ast.Name):
            return params.get(e.id)
        if isinstance(e, ast.BoolOp):
            ts = [self.infer_expr_type(module, v, params) for v in e.values]
            ts = [(t[1] if t and t[0] == "opt" else t) for t in ts]
            for t in ts:
                if t is not None:
                    return t
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return None
            return (type(e.value).__name__,)
        if isinstance(e, (ast.List, ast.ListComp)):
            return ("list", None)
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("dict", None, None)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ("set", None)
        return None


def assigned_names(nodes):
    """Names assigned by the statements (not descending into nested scopes)."""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in nodes:
        visit(n)
    return out
