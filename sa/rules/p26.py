import ast

from ..absint import NONE, R, S, State, Tup
from ..model import client
from ..pool import spread
from ..shared import FILES, Shared
from . import trees
from .lexing import text
from .doctable import DOCS
from .documents import Unclear

PROPERTY = {
    "id": "P26",
    "title": "Documents do not influence the documents processed after them",
    "statement": "What a document contains, or the error it ends with, has no effect on the documents processed later in the same process with an environment of their own: their nodes, identifiers, numbers, arguments, aliases and errors are those they have when they are processed alone. No function changes or keeps data in an object that outlives the call: a variable of a module, an attribute of a class, the default of a parameter, the cached result of a function, or the state of the process.",
    "quantifier": {"over": ["inputs", "histories"], "text": "every sequence of documents and every function of the package"},
    "why_tests_cant": "Each test uses new objects and looks at one document; a leak shows only in a particular sequence of documents.",
    "anchors": {
        "files": ["mau/__init__.py", "mau/parsers/document_parser.py", "mau/parsers/arguments_parser.py", "mau/visitors/jinja_visitor.py", "mau/environment/environment.py"],
        "state": [{"name": "DEFAULT_ARGUMENT_ALIASES, default_templates", "meaning": "objects shared by all the documents", "where": "mau/parsers/document_parser.py, mau/visitors/jinja_visitor.py"}],
        "mechanism": [{"name": "DocumentParser.__init__", "where": "mau/parsers/document_parser.py"}, {"name": "JinjaVisitor.__init__", "where": "mau/visitors/jinja_visitor.py"}],
        "observe_at": ["DocumentParser.nodes", "objects of modules and classes"],
        "hook_needed": None,
    },
}
TECHNIQUE = "effect analysis of objects that outlive a call (interprocedural origins with function summaries), and abstract interpretation of chains of documents over one heap"
LEVEL_NOTE = "Calls whose receiver cannot be typed are not followed by the effect analysis; the chains cover every ordered pair of documents inside of groups of seven, with texts that end with pending elements or with errors in front of them."
EXPLANATION = "The effect analysis computes, for each function, which parameters it changes, stores and returns, and reports any path by which a variable of a module, a class attribute, a default or a cached result is changed, and any global or class attribute that is given a value computed by a call. The chains parse documents with unknown words one after the other, with the same heap, and then again in the opposite order: each must give the tree it gives alone."
ASSUMPTIONS = ["the functions given in the environment keep no state", "the caller gives a new environment to each document (the variables a document defines are stored in it)"]

SKIP = {"mau.test_helpers"}

# Texts that leave something pending, or end with an error.
UNFINISHED = [
    ("[@source, language=abc, callouts=\"|\", highlight_marker=\"^\"]\n----\n<plain:2>\n----\n\n[@source, abc, def, #tag]\n----\n<plain:2>\n----\n\n[@source, language=abc]\n. <plain:2>\n", {}),
    ("[abc, def, #tag, *sub, k=v]\n. <plain:2>\n.role <plain:2>\n@if a==1\n", {"a": "2"}),
    ("[footnote=abc]\n----\n<plain:2>\n----\n\n[group=abc, position=abc]\n----\n= <plain:1>\n----\n\n[name=abc, isolate=false]\n----\n[name=hd]\n= <plain:2>\n[k=v]\n----\n\n# <plain:1>\n# <plain:1>\n\n[@source, python]\n----\n<plain:2>\n----\n", {}),
    ("= <plain:2>\n[abc, k=v]\n. <plain:2>\n----\n# <plain:2>\n", {}),
    ("[footnote](nope) [header](nope)\n", {}),
    ("----\n[abc]\n@if a==1\n<plain:1>\n\n<plain:1> [link]()\n----\n", {"a": "1"}),
]
SIZE = 7

HEAD = """
from mau.parsers.document_parser import DocumentParser
from mau.message import BaseMessageHandler, MauException
from mau.environment.environment import Environment

def release():
    pass

"""


def groups():
    names = list(DOCS)
    for i in range(0, len(names), SIZE):
        g = names[i:i + SIZE]
        yield [None] + g + [None] + g[::-1]


def program(seq):
    out = []
    for k in seq:
        if k is None:
            for t, env in UNFINISHED:
                out.append(("-", text(t), env))
        else:
            out.append((k, text(DOCS[k][0]), DOCS[k][1]))
    return out


def source(i, texts):
    lines = [f"def client_{i}(handler: BaseMessageHandler):", "    trees = []"]
    for k, t, env in texts:
        lines += [
            "    release()",
            "    environment = Environment()",
            f"    environment.dupdate({ascii(env)})" if env else "    pass",
            "    try:",
            f"        parser = DocumentParser.lex_and_parse({ascii(t)}, handler, environment, source_filename={trees.SOURCE!r})",
            "        trees.append(parser.nodes)",
            "    except MauException:",
            "        trees.append(None)",
        ]
    return "\n".join(lines + ["    return trees", ""])


def release(I, st, fi, args, kwargs, node):
    I.collect(st)
    return [(st, NONE)]


def check(ctx):
    effects(ctx)
    chains(ctx)


def chains(ctx):
    progs = [program(g) for g in groups()]
    fs = client(ctx.prog, HEAD + "\n\n".join(source(i, p) for i, p in enumerate(progs)), "chains")

    def one(sub, i):
        texts = progs[i]
        ip, outs = trees.explore(sub, fs[f"client_{i}"], extra={"chains:release": release}, max_steps=8000000, max_cpu=60)
        if outs is None:
            sub.check("chain", str(i), None, "out of budget")
            return
        sub.need("coverage", f"chain {i}", bool(outs), "no outcome")
        for o in outs:
            if o.exc is not None:
                sub.check("chain", str(i), None, o.exc_name, o.exc_where, o.path_text)
                continue
            got = o.items(o.value)
            done = set()
            for (k, t, env), g in zip(texts, got if got is not None and len(got) == len(texts) else [None] * len(texts)):
                if k == "-":
                    continue
                turn = "again, " if k in done else ""
                done.add(k)
                ok, why = True, ""
                try:
                    if g is None:
                        raise Unclear("a chain")
                    v = trees.view(o, g)
                    if v is None:
                        raise trees.Mismatch("it is refused")
                    trees.match(DOCS[k][2], v, t, "the result")
                except trees.Mismatch as e:
                    ok, why = False, f"after other documents: {e}"
                except Unclear as e:
                    ok, why = None, str(e)
                sub.check("document in a chain", f"{turn}{k}", ok if ok or len(outs) == 1 else None, why, o.where(), o.path_text)

            for what, same in outliving(sub.prog, ip, o):
                sub.check("object that outlives the documents", f"{what} after chain {i}", same, "it does not have the value it had before the documents", o.where(), o.path_text)

    spread(ctx, range(len(progs)), one)


def outliving(prog, ip, o):
    """The variables of modules and classes, and the defaults, that the paths
    have used: do they still have the value their definition gives?"""
    by_id = {}
    for m in prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                by_id[id(n.value)] = (m, ast.unparse(t), n.value)
    for key, v in o.st.memo.items():
        if isinstance(key, S) and key.op == "default":
            name, line, col = key.args
            m = prog.modules.get(name)
            e = next((n for n in ast.walk(m.tree) if isinstance(n, ast.expr) and (n.lineno, n.col_offset) == (line, col)), None) if m else None
            what = f"the default on line {line} of {name}"
        elif isinstance(key, tuple) and key[0] == "modvar":
            m, what, e = by_id.get(key[2], (None, None, None))
        elif isinstance(key, tuple) and len(key) == 2 and key[0] in prog.classes:
            ci = prog.classes[key[0]]
            ca = prog.find_class_attr(ci, key[1])
            m, what, e = ci.module, f"{ci.name}.{key[1]}", ca[1] if ca else None
        else:
            continue
        if m is None or e is None:
            continue
        v = R(v) if isinstance(v, int) and not isinstance(v, bool) else v
        st = State()
        new = ip.eval_module_expr(st, e, m)
        old, new = canon(o.st, v), canon(st, new)
        yield what, True if old == new else False if "?" not in repr(old) + repr(new) else None


def canon(st, v, seen=None):
    """The value as text, equal for equal graphs of objects."""
    seen = {} if seen is None else seen
    if isinstance(v, R):
        if v.oid in seen:
            return ("seen", seen[v.oid])
        ob = st.heap.get(v.oid)
        if ob is None or ob.lazy or len(seen) > 500:
            return "?"
        seen[v.oid] = len(seen)
        return (ob.kind, getattr(ob.cls, "full", None), [(k, canon(st, x, seen)) for k, x in sorted(ob.attrs, key=lambda a: a[0])], [canon(st, x, seen) for x in ob.parts])
    if isinstance(v, tuple):
        return tuple(canon(st, x, seen) for x in v)
    if isinstance(v, Tup):
        return ("tuple", [canon(st, x, seen) for x in v.items])
    if isinstance(v, S):
        return "?"
    return repr(v)


# ----------------------------------------------------------------- effects
def effects(ctx):
    prog = ctx.prog
    sh = Shared(prog, SKIP)
    ctx.need("anchor", "shared objects", len(sh.sources) >= 4, "the objects shared by the documents are not found")
    ctx.need("anchor", "calls", sh.calls > 1000, "the calls are not found")
    found = {}
    for fi, node, what, sure in sh.bad.values():
        found.setdefault(fi.full, []).append((node, what, sure))
    for fi in sh.fns:
        ctx.saw_func(fi)
        hits = found.get(fi.full, [])
        sure = [h for h in hits if h[2]]
        node, what, _ = (sure or hits or [(fi.node, "", True)])[0]
        ctx.check("effect", fi.full, False if sure else None if hits else True, what, (f"{fi.module.path}:{node.lineno}", fi.qual))
    caches(ctx, sh)
    ctx.notes.append("shared objects: " + "; ".join(sorted(sh.sources)))


def caches(ctx, sh):
    """A cached function reads no file and depends on nothing that changes."""
    from .p23 import targets

    prog = ctx.prog
    reads = set()
    calls = {fi.full: [c for c in ast.walk(fi.node) if isinstance(c, ast.Call)] for fi in sh.fns}
    for fi in sh.fns:
        for c in calls[fi.full]:
            n = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""
            if n in FILES:
                reads.add(fi.full)
    changed = True
    while changed:
        changed = False
        for fi in sh.fns:
            if fi.full not in reads and any(t.full in reads for c in calls[fi.full] for t in targets(prog, fi, c, {})[0]):
                reads.add(fi.full)
                changed = True
    for fi in sh.fns:
        if fi.full in sh.caches:
            ctx.check("cache", fi.full, fi.full not in reads, "the files that are read when the result is cached may have changed", (f"{fi.module.path}:{fi.node.lineno}", fi.qual))
