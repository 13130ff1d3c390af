"""P20: semantics of the environment."""

from __future__ import annotations

from ..absint import K, LoopEv, NONE, R, S
from ..model import attr, client, depends, interp, run, short, var
from .clients import V, judge
from .common import over

PROPERTY = {
    "id": "P20",
    "title": "An environment is one flat map of dotted names, merged by precedence",
    "statement": "Storing a nested dictionary in an environment (created from it, updated with it or assigned to a name, with or without a namespace) stores each of its values, of any type and empty dictionaries included, under the names of the keys that lead to it joined by dots, replaces the variables with the same names and changes no other. A name gives the variable with exactly that name, otherwise `get` gives a new environment with all and only the variables under the name followed by a dot, that prefix removed, otherwise the default, while indexing raises KeyError; `asdict` nests all the variables again. Updating from another environment adds all its variables and only when asked keeps those already there, and neither the update nor a copy leaves a link between the two environments.",
    "quantifier": {"over": ["inputs", "histories"], "text": "every nested dictionary, every sequence of updates"},
    "why_tests_cant": "Tests flatten a few dictionaries; that no value of any depth or type gets lost, that lookups never mix names with the same beginning and that environments never share their map is a claim on all values and histories.",
    "anchors": {
        "files": ["mau/environment/environment.py", "mau/environment/helpers.py"],
        "state": [{"name": "_variables", "meaning": "flat map of the variables", "where": "mau/environment/environment.py Environment"}],
        "mechanism": [{"name": "dupdate, update, get, asdict", "where": "mau/environment/environment.py"}, {"name": "flatten_nested_dict, nest_flattened_dict", "where": "mau/environment/helpers.py"}],
        "observe_at": ["asflatdict, get, [] of an environment"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of client programs of Environment on nested dictionaries of known shape with symbolic values, plus coverage of the loops over dictionaries of unknown content"
LEVEL_NOTE = "The nested dictionaries have known keys (up to four levels) and symbolic values; for unknown dictionaries the rule proves that every element is stored and that the order of precedence is right. A variable that is also a namespace cannot be nested by asdict: that case is not claimed."
EXPLANATION = "Each client builds, queries or merges environments through the public interface; the abstract result must be the flat or nested dictionary the statement calls for. Loops over unknown dictionaries must range over all their elements and store something for each."
ASSUMPTIONS = ["dict, str and isinstance(MutableMapping) behave as in Python"]

HEAD = """
from mau.environment.environment import Environment
"""

a, b, c = V("a"), V("b"), V("c")

CLIENTS = [
    ("flatten", "deep", """
    env = Environment()
    env.dupdate({"x": {"y": {"z": {"u": a}}, "w": b}, "v": c})
    return env.asflatdict()""", {"x.y.z.u": a, "x.w": b, "v": c}),
    ("flatten", "empty dictionaries", """
    env = Environment()
    env.dupdate({"e": {}, "n": {"e": {}, "m": {"f": {}}}})
    return env.asflatdict()""", {"e": {}, "n.e": {}, "n.m.f": {}}),
    ("flatten", "values of any type", """
    env = Environment()
    env.dupdate({"a": None, "b": {"n": None, "i": 0, "s": ""}, "c": False, "l": [a], "d": {"l": [], "t": (b, c)}, "f": 1.5})
    return env.asflatdict()""", {"a": None, "b.n": None, "b.i": 0, "b.s": "", "c": False, "l": [a], "d.l": [], "d.t": [b, c], "f": 1.5}),
    ("flatten", "names", """
    env = Environment()
    env.dupdate({"Upper": {"with-dash": a, "with_under": {"with space": b}}, "dot.ted": {"in.ner": c}})
    return env.asflatdict()""", {"Upper.with-dash": a, "Upper.with_under.with space": b, "dot.ted.in.ner": c}),
    ("flatten", "namespace", """
    env = Environment()
    env.dupdate({"x": {"y": a}, "v": b}, "ns")
    return env.asflatdict()""", {"ns.x.y": a, "ns.v": b}),
    ("flatten", "dotted namespace", """
    env = Environment()
    env.dupdate({"x": {"y": a}, "v": b}, namespace="one.two")
    return env.asflatdict()""", {"one.two.x.y": a, "one.two.v": b}),
    ("flatten", "from_dict", """
    env = Environment.from_dict({"x": {"y": a}, "v": b})
    return env.asflatdict()""", {"x.y": a, "v": b}),
    ("flatten", "from_dict in a namespace", """
    env = Environment.from_dict({"x": {"y": a}, "v": b}, "ns")
    return env.asflatdict()""", {"ns.x.y": a, "ns.v": b}),
    ("flatten", "assignment", """
    env = Environment()
    env["x"] = {"y": {"z": a}}
    env["p.q"] = b
    env["l"] = [c]
    env["e"] = {}
    return env.asflatdict()""", {"x.y.z": a, "p.q": b, "l": [c], "e": {}}),
    ("replace", "dupdate", """
    env = Environment.from_dict({"x": {"y": a, "z": a}, "v": a})
    env.dupdate({"x": {"y": b}, "n": c})
    return env.asflatdict()""", {"x.y": b, "x.z": a, "v": a, "n": c}),
    ("replace", "dupdate in a namespace", """
    env = Environment.from_dict({"x": {"y": a, "z": a}, "y": a})
    env.dupdate({"y": b}, "x")
    return env.asflatdict()""", {"x.y": b, "x.z": a, "y": a}),
    ("replace", "assignment", """
    env = Environment.from_dict({"x": {"y": a, "z": a}, "v": a})
    env["x.y"] = b
    env["x"] = {"w": c}
    return env.asflatdict()""", {"x.y": b, "x.z": a, "x.w": c, "v": a}),
    ("replace", "twice", """
    env = Environment()
    env["x"] = a
    env["x"] = b
    env.dupdate({"x": c})
    return env.asflatdict()""", {"x": c}),
    ("lookup", "index", """
    env = Environment.from_dict({"x": {"y": {"z": a}}, "v": b})
    return env["x.y.z"], env["v"]""", [a, b]),
    ("lookup", "get", """
    env = Environment.from_dict({"x": {"y": {"z": a}}, "v": b, "n": None, "e": "", "zero": 0})
    return env.get("x.y.z"), env.get("v", "d"), env.get("n", "d"), env.get("e", "d"), env.get("zero", "d")""", [a, b, None, "", 0]),
    ("lookup", "index, missing", """
    env = Environment.from_dict({"x": {"y": {"z": a}}, "vv": b})
    res = []
    try:
        res.append(env["v"])
    except KeyError:
        res.append("missing")
    try:
        res.append(env["x.y.z.w"])
    except KeyError:
        res.append("missing")
    try:
        res.append(env["x.y"])
    except KeyError:
        res.append("missing")
    return res""", ["missing", "missing", "missing"]),
    ("lookup", "get, missing", """
    env = Environment.from_dict({"x": {"y": {"z": a}}, "vv": b, "v-v": b})
    return env.get("v"), env.get("v", c), env.get("z", c), env.get("y", c), env.get("x.y.z.w", c), env.get("x.yy", c), env.get("V", c)""", [None, c, c, c, c, c, c]),
    ("lookup", "empty environment", """
    env = Environment()
    return env.get("v"), env.get("v", c), env.asflatdict(), env.asdict()""", [None, c, {}, {}]),
    ("namespace", "content", """
    env = Environment.from_dict({"x": {"y": {"z": a, "x": b}, "w": c}, "xx": {"y": a}, "ax": {"y": b}, "v": {"x": {"y": b}}, "x1": c})
    return env.get("x").asflatdict()""", {"y.z": a, "y.x": b, "w": c}),
    ("namespace", "nested", """
    env = Environment.from_dict({"x": {"y": {"z": a, "x": {"y": b}}, "w": c}, "y": {"q": b}})
    return env.get("x.y").asflatdict(), env.get("x").get("y").asflatdict(), env.get("x").get("y.z"), env.get("x")["w"]""", [{"z": a, "x.y": b}, {"z": a, "x.y": b}, a, c]),
    ("namespace", "repeated name", """
    env = Environment.from_dict({"x": {"x": {"x": a, "y": b}}})
    return env.get("x").asflatdict(), env.get("x.x").asflatdict()""", [{"x.x": a, "x.y": b}, {"x": a, "y": b}]),
    ("namespace", "before the default", """
    env = Environment.from_dict({"x": {"y": a}})
    return env.get("x", c).asflatdict()""", {"y": a}),
    ("namespace", "variable first", """
    env = Environment()
    env["x.y"] = a
    env["x"] = b
    return env.get("x"), env.get("x.y")""", [b, a]),
    ("namespace", "independent", """
    env = Environment.from_dict({"x": {"y": a, "z": a}})
    sub = env.get("x")
    sub["y"] = b
    sub["n"] = c
    return env.asflatdict(), sub.asflatdict()""", [{"x.y": a, "x.z": a}, {"y": b, "z": a, "n": c}]),
    ("asdict", "nested", """
    env = Environment.from_dict({"x": {"y": {"z": {"u": a}}, "w": b}, "v": c, "e": {}, "n": None})
    return env.asdict()""", {"x": {"y": {"z": {"u": a}}, "w": b}, "v": c, "e": {}, "n": None}),
    ("asdict", "names given flat", """
    env = Environment()
    env["x.y.z"] = a
    env["x.w"] = b
    env["x.y.u"] = c
    return env.asdict()""", {"x": {"y": {"z": a, "u": c}, "w": b}}),
    ("asdict", "independent", """
    env = Environment.from_dict({"x": {"y": a}, "v": b})
    d = env.asdict()
    d["v"] = c
    d["x"]["y"] = c
    return env.asflatdict()""", {"x.y": a, "v": b}),
    ("update", "overwrite", """
    env = Environment.from_dict({"x": {"y": a, "z": a}, "v": a})
    other = Environment.from_dict({"x": {"y": b, "w": b}, "n": b})
    env.update(other)
    return env.asflatdict(), other.asflatdict()""", [{"x.y": b, "x.z": a, "x.w": b, "v": a, "n": b}, {"x.y": b, "x.w": b, "n": b}]),
    ("update", "overwrite asked", """
    env = Environment.from_dict({"x": a, "v": a})
    other = Environment.from_dict({"x": b, "n": b})
    env.update(other, overwrite=True)
    return env.asflatdict(), other.asflatdict()""", [{"x": b, "v": a, "n": b}, {"x": b, "n": b}]),
    ("update", "keep", """
    env = Environment.from_dict({"x": {"y": a, "z": a}, "v": a})
    other = Environment.from_dict({"x": {"y": b, "w": b}, "n": b})
    env.update(other, overwrite=False)
    return env.asflatdict(), other.asflatdict()""", [{"x.y": a, "x.z": a, "x.w": b, "v": a, "n": b}, {"x.y": b, "x.w": b, "n": b}]),
    ("update", "namespace", """
    env = Environment.from_dict({"ns": {"y": a, "z": a}, "y": a})
    other = Environment.from_dict({"y": b, "w": {"u": b}})
    env.update(other, "ns")
    return env.asflatdict(), other.asflatdict()""", [{"ns.y": b, "ns.z": a, "ns.w.u": b, "y": a}, {"y": b, "w.u": b}]),
    ("update", "namespace, keep", """
    env = Environment.from_dict({"ns": {"y": a, "z": a}, "y": a})
    other = Environment.from_dict({"y": b, "w": {"u": b}})
    env.update(other, namespace="ns", overwrite=False)
    return env.asflatdict(), other.asflatdict()""", [{"ns.y": a, "ns.z": a, "ns.w.u": b, "y": a}, {"y": b, "w.u": b}]),
    ("update", "empty values kept", """
    env = Environment.from_dict({"x": None, "y": "", "z": 0})
    env.update(Environment.from_dict({"x": b, "y": b, "z": b}), overwrite=False)
    return env.asflatdict()""", {"x": None, "y": "", "z": 0}),
    ("update", "empty values given", """
    env = Environment.from_dict({"x": a, "y": a, "z": a})
    env.update(Environment.from_dict({"x": None, "y": "", "z": 0}))
    return env.asflatdict()""", {"x": None, "y": "", "z": 0}),
    ("link", "update", """
    env = Environment.from_dict({"x": a})
    other = Environment.from_dict({"y": b})
    env.update(other)
    env["y"] = c
    env["n"] = c
    other["o"] = c
    return env.asflatdict(), other.asflatdict()""", [{"x": a, "y": c, "n": c}, {"y": b, "o": c}]),
    ("link", "update, keep", """
    env = Environment.from_dict({"x": a})
    other = Environment.from_dict({"y": b})
    env.update(other, overwrite=False)
    env["y"] = c
    env["n"] = c
    other["o"] = c
    return env.asflatdict(), other.asflatdict()""", [{"x": a, "y": c, "n": c}, {"y": b, "o": c}]),
    ("link", "update of an empty environment", """
    env = Environment()
    other = Environment.from_dict({"y": b})
    env.update(other)
    env["n"] = c
    other["o"] = c
    return env.asflatdict(), other.asflatdict()""", [{"y": b, "n": c}, {"y": b, "o": c}]),
    ("link", "update with an empty environment", """
    env = Environment.from_dict({"y": b})
    other = Environment()
    env.update(other, overwrite=False)
    env["n"] = c
    other["o"] = c
    return env.asflatdict(), other.asflatdict()""", [{"y": b, "n": c}, {"o": c}]),
    ("link", "from_environment", """
    env = Environment.from_dict({"x": {"y": a}, "v": b})
    other = Environment.from_environment(env)
    other["x.y"] = c
    other["n"] = c
    env["o"] = c
    return env.asflatdict(), other.asflatdict()""", [{"x.y": a, "v": b, "o": c}, {"x.y": c, "v": b, "n": c}]),
    ("link", "from_environment in a namespace", """
    env = Environment.from_dict({"x": {"y": a}, "v": b})
    other = Environment.from_environment(env, "ns")
    other["n"] = c
    return env.asflatdict(), other.asflatdict()""", [{"x.y": a, "v": b}, {"ns.x.y": a, "ns.v": b, "n": c}]),
    ("link", "from_dict", """
    d = {"x": a}
    env = Environment.from_dict(d)
    env["x"] = b
    env["n"] = c
    d["o"] = c
    return env.asflatdict(), d""", [{"x": b, "n": c}, {"x": a, "o": c}]),
    ("link", "dupdate", """
    d = {"x": {"y": a}, "v": a}
    env = Environment()
    env.dupdate(d, "ns")
    env["ns.x.y"] = b
    env["ns.v"] = b
    return d""", {"x": {"y": a}, "v": a}),
    ("link", "environments", """
    one = Environment()
    two = Environment()
    one["x"] = a
    return two.asflatdict(), Environment().asflatdict()""", [{}, {}]),
    ("clone", "variable and namespace", """
    env = Environment()
    env["x"] = a
    env["x.y"] = b
    other = Environment.from_environment(env)
    return other.asflatdict(), env.asflatdict()""", [{"x": a, "x.y": b}, {"x": a, "x.y": b}]),
]


def check(ctx):
    prog = ctx.prog
    ci = prog.cls("Environment")
    src = HEAD
    for i, (rule, name, body, _) in enumerate(CLIENTS):
        src += f"\ndef client_{i}(a: str, b: str, c: str):{body}\n"
    fs = client(prog, src)
    for i, (rule, name, _, expected) in enumerate(CLIENTS):
        judge(ctx, rule, name, fs[f"client_{i}"], expected)
    whole(ctx)


WHOLE = HEAD + """
def dupdate(env: Environment, d: dict):
    env.dupdate(d)
    return env.asflatdict()

def update(env: Environment, other: Environment):
    env.update(other)
    return env.asflatdict()

def keep(env: Environment, other: Environment):
    env.update(other, overwrite=False)
    return env.asflatdict()

def nested(env: Environment):
    return env.asdict()

def copy(other: Environment):
    return Environment.from_environment(other).asflatdict()
"""


def sources(parts):
    """Sources the parts of a dictionary range over, in order."""
    res = []
    for q in parts or ():
        if q[0] == "rest":
            res.append((q[1], None))
        elif q[0] == "each":
            res.append((q[1], q[2]))
    return res


def whole(ctx):
    """Dictionaries of unknown content: every element is stored."""
    prog = ctx.prog
    fs = client(prog, WHOLE, "whole")
    for name, first, then in (
        ("dupdate", "env", "d"),
        ("update", "env", "other"),
        ("keep", "other", "env"),
        ("copy", None, "other"),
        ("nested", None, "env"),
    ):
        ip = interp(prog, base={}, unroll=1)
        outs = run(ip, fs[name])
        ctx.saw(ip)
        ctx.paths += len(outs)
        for o in outs:
            if o.exc is not None:
                continue
            srcs = sources(o.parts(o.value))
            whole_of(ctx, name, o, srcs, first, then)
            early(ctx, name, o, [x for x in (first, then) if x])


def base_of(src):
    """env / other / d: the collection a source comes from."""
    t = src
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "rest":
        t = t[1]
    while isinstance(t, S) and t.op in ("itemsof", "keysof", "valuesof", "list", "sorted", "reversed") and t.args:
        t = t.args[0]
        if isinstance(t, tuple) and len(t) == 2:
            t = t[1]
    while isinstance(t, S) and t.op == "attr":
        t = t.args[0]
    return t.args[0] if isinstance(t, S) and t.op == "var" else None


def whole_of(ctx, name, o, srcs, first, then):
    got = [base_of(s) for s, _ in srcs]
    if None in got or not got:
        ctx.check("every variable", name, None, "", o.where())
        return
    exp = [x for x in (first, then) if x]
    if set(got) != set(exp):
        ctx.check("every variable", name, False, f"variables of {got} are stored instead of {exp}", o.where(), o.path_text)
        return
    last = {}
    for i, g in enumerate(got):
        last[g] = i
    guarded = any(member(f) for _, alts in srcs for f, _ in alts or ())
    ok = len(exp) < 2 or last[then] > last[first] or (None if guarded else False)
    ctx.check("precedence", name, ok, f"the variables of `{first}` replace those of `{then}`", o.where(), o.path_text)
    for s, alts in srcs:
        if isinstance(s, S) and s.op == "slice":
            ctx.check("every variable", name, False, f"only {short(s)} is stored", o.where(), o.path_text)
        if name == "nested":
            # what is stored ends up in a nested dictionary
            continue
        for facts, ps in alts or ():
            ctx.check("every variable", name, bool(ps) or (None if member(facts) else False), f"nothing is stored for an element when {short(facts)}", o.where(), o.path_text)


def member(facts):
    """Does the alternative depend on the presence of a name?"""
    return any(isinstance(t, S) and t.op == "in" for t, _ in facts)


def early(ctx, name, o, bases):
    """No loop over the elements is left before its end."""
    for e in o.st.trace:
        if isinstance(e, LoopEv) and e.partial and base_of(e.src) in bases:
            ctx.check("every variable", name, False, "the loop over the elements stops before its end", o.where(), o.path_text)
