"""P18: the outcome of any text."""

from __future__ import annotations

import re

from ..chars import text
from ..pool import spread
from . import included, trees
from .doctable import DOCS, TEXTS
from .included import place, wrong

PROPERTY = {
    "id": "P18",
    "title": "A wrong text gives an error located at the fault, never another failure",
    "statement": "Whatever the text, also cut at any point, lexing and parsing it end with a tree or with a MauException; no other exception (IndexError, KeyError, AttributeError, ValueError...) comes out. Blocks and comments that are not closed, unknown engines, operators, variables, aliases, footnotes, headers and groups, values that are missing or given twice, unnamed arguments after named ones and macros or includes without their mandatory arguments are always errors. The error carries the name of the source and the line and column where the element or inline construct at fault begins, also when it is inside blocks, lists, headers, titles or macros.",
    "quantifier": {"over": ["inputs"], "text": "every text, in particular every prefix of a correct document and every word in a wrong one"},
    "why_tests_cant": "Tests contain some wrong texts; that no text makes the program fail in another way, or blame another place, must hold for all of them.",
    "anchors": {
        "files": ["mau/parsers", "mau/lexers", "mau/message.py"],
        "state": [],
        "mechanism": [{"name": "create_parser_exception", "where": "mau/parsers/base_parser.py"}, {"name": "create_lexer_exception", "where": "mau/lexers/base_lexer.py"}],
        "observe_at": ["MauException.message"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of lexers and parsers together on texts with unknown characters: wrong texts with the place of the fault, and every prefix of correct documents"
LEVEL_NOTE = "91 wrong texts with the place of the fault, 14 with included files, 78 texts in a header, and every prefix of 162 correct texts, with words of unknown characters that are in no mark-up; the column is not decided for faults in the condition of a macro."
EXPLANATION = "Every path of the interpretation ends with a tree or with a MauException whose message has the source and, for each wrong text, the place of the fault."
ASSUMPTIONS = ["the outcome does not depend on how long a word of characters without mark-up is"]

ERRORS = {
    'comment not closed': ('<plain:3>\n\n////\n<plain:2>\n', {}, (2, 0)),
    'block not closed': ('<plain:3>\n\n----\n<plain:2>\n', {}, (2, 0)),
    'block closed by another delimiter': ('----\n<plain:3>\n++++\n', {}, (0, 0)),
    'inner block not closed': ('----\n<plain:3>\n\n++++\n<plain:2>\n----\n', {}, (3, 0)),
    'unknown engine': ('<plain:3>\n\n[engine=nope]\n----\n<plain:2>\n----\n', {}, (3, 0)),
    'unknown engine after a label': ('[engine=nope]\n. <plain:2>\n\n----\n<plain:2>\n----\n', {}, (3, 0)),
    'empty marker delimiter': ('[engine=source,marker_delimiter=]\n----\n<plain:3>\n<plain:2>\n----\n', {}, (2, 0)),
    'list item without marker': ('* <plain:3>\n<plain:2>\n', {}, (1, 0)),
    'list start': ('[start=one]\n# <plain:2>\n\n', {}, (1, 0)),
    'list in a block': ('----\n* <plain:3>\n<plain:2>\n----\n', {}, (2, 0)),
    'variable': ('<plain:3> {<plain:2>} <plain:1>\n', {}, (0, 4)),
    'variable on the second line': ('<plain:3>\n<plain:2> <plain:1> {<plain:2>}\n', {}, (1, 5)),
    'variable in a header': ('<plain:3>\n\n== <plain:2> {<plain:2>}\n', {}, (2, 6)),
    'variable in a list item': ('* <plain:3>\n** <plain:2> {<plain:2>}\n\n', {}, (1, 6)),
    'variable in a title': ('\n. <plain:2> {<plain:2>}\n<plain:2>\n', {}, (1, 5)),
    'variable in arguments': ('<plain:3>\n\n[<plain:2>, {<plain:2>}]\n<plain:2>\n', {}, (2, 5)),
    'variable in a block': ('<plain:2>\n\n----\n<plain:3>\n\n<plain:2> {<plain:2>}\n----\n', {}, (5, 3)),
    'variable in a nested block': ('----\n<plain:1>\n++++\n<plain:3>\n<plain:2> {<plain:2>}\n++++\n----\n', {}, (4, 3)),
    'variable in a macro': ('<plain:3> [link]("<plain:2>", "{<plain:2>}")\n', {}, (0, 18)),
    'definition name': ('<plain:3>\n\n:nope', {}, (2, 0)),
    'definition without value': ('<plain:3>\n\n:nope:\n<plain:2>\n', {}, (2, 0)),
    'definition without value, end': ('<plain:3>\n\n:nope:\n', {}, (2, 0)),
    'definition with flag and no value': ('<plain:3>\n\n:no.pe:\n\n', {}, (2, 0)),
    'control operator': ('<plain:3>\n\n@unless a==1\n<plain:2>\n', {}, (2, 0)),
    'control variable': ('<plain:3>\n\n@if nope==1\n<plain:2>\n', {}, (2, 0)),
    'control empty': ('<plain:3>\n\n@if\n<plain:2>\n', {}, (2, None)),
    'control comparison': ('\n@if a\n<plain:2>\n', {'a': '1'}, (1, None)),
    'control comparison symbol': ('\n@if a=1\n<plain:2>\n', {'a': '1'}, (1, None)),
    'control missing variable': ('<plain:3>\n\n@if {nope}==1\n<plain:2>\n', {}, (2, 4)),
    'control open variable': ('<plain:3>\n\n@if a {nope\n<plain:2>\n', {}, (2, None)),
    'control open verbatim': ('<plain:3>\n\n@if `a==1\n<plain:2>\n', {}, (2, None)),
    'control comparison after variable': ('<plain:3>\n\n@if {b}=1\n<plain:2>\n', {'b': 'a'}, (2, None)),
    'control in block': ('----\n<plain:1>\n\n@if {nope}==1\n<plain:2>\n----\n', {}, (3, 4)),
    'macro condition missing variable': ('<plain:3>\n<plain:3> [if:{nope}==1](<plain:1>)\n', {}, (1, 8)),
    'macro condition comparison': ('<plain:3>\n<plain:3> [if:a=1](<plain:1>)\n', {'a': '1'}, (1, None)),
    'macro condition in block': ('----\n<plain:1>\n\n<plain:3> [if:nope==1](<plain:1>)\n----\n', {}, (3, None)),
    'control spaces': ('<plain:3>\n\n@if    \n<plain:2>\n', {}, (2, None)),
    'arguments missing variable': ('<plain:3>\n\n[a, {nope}]\n<plain:2>\n', {}, (2, 4)),
    'header missing variable': ('<plain:3>\n\n== <plain:2> {nope}\n', {}, (2, 6)),
    'label missing variable': ('<plain:3>\n\n. <plain:2> {nope}\n<plain:2>\n', {}, (2, 5)),
    'list missing variable': ('<plain:3>\n\n* <plain:2>\n** <plain:2> {nope}\n', {}, (3, 6)),
    'include missing variable': ('<plain:3>\n\n<< image:<plain:2>,{nope}\n', {}, (2, 12)),
    'second line missing variable': ('<plain:3>\n<plain:2> {nope}\n', {}, (1, 3)),
    'variable in brackets': ('<plain:3>\n\n<plain:2> {{a} <plain:2>\n', {}, (2, None)),
    'definition missing variable': ('<plain:3>\n\n:a:<plain:1> {nope}\n', {}, (2, 5)),
    'unnamed after named': ('<plain:3>\n\n[k=<plain:2>, <plain:2>]\n<plain:2>\n', {}, (2, 1)),
    'two subtypes': ('<plain:3>\n\n[*<plain:1>, *<plain:2>]\n<plain:2>\n', {}, (2, 1)),
    'two aliases': ('<plain:3>\n\n[@<plain:1>, @<plain:2>]\n<plain:2>\n', {}, (2, 1)),
    'unknown alias': ('<plain:3>\n\n[@<plain:1>]\n<plain:2>\n', {}, (2, 1)),
    'unnamed quotes not closed': ('<plain:3>\n\n["<plain:2>]\n<plain:2>\n', {}, (2, 1)),
    'inline unnamed after named': ('<plain:3>\n\n<< nope:k=<plain:2>, <plain:2>\n', {}, (2, 8)),
    'include both': ('[<plain:1>]\n<< toc:<plain:1>\n', {}, (1, 0)),
    'include empty inline': ('<plain:3>\n<< toc:\n', {}, (1, 0)),
    'image': ('<plain:3>\n\n<< image\n', {}, (2, 0)),
    'raw': ('<plain:3>\n\n<< raw\n', {}, (2, 0)),
    'mau': ('<plain:3>\n\n<< mau\n', {}, (2, 0)),
    'blockgroup': ('<plain:3>\n\n<< blockgroup\n', {}, (2, 0)),
    'group without blocks': ('<plain:3>\n\n<< blockgroup:<plain:2>\n\n<plain:2>\n', {}, (2, 0)),
    'group position': ('[group=gr,position=ps]\n----\n<plain:2>\n----\n\n[group=gr,position=ps]\n----\n<plain:1>\n----\n', {}, (6, 0)),
    'footnote not defined': ('<plain:3>\n<plain:3> [footnote](<plain:2>) <plain:1>\n', {}, (1, 4)),
    'footnote not defined in a list': ('* <plain:3>\n* <plain:3> [footnote](<plain:2>) <plain:1>\n', {}, (1, 6)),
    'footnote not defined in a block': ('<plain:2>\n\n----\n<plain:3> [footnote](<plain:2>) <plain:1>\n----\n', {}, (3, 4)),
    'footnote twice': ('[footnote=fn]\n----\n<plain:2>\n----\n\n[footnote=fn]\n----\n<plain:2>\n<plain:1>\n----\n', {}, (6, 0)),
    'footnote twice in a block': ('[footnote=fn]\n----\n<plain:2>\n----\n\n[isolate=false]\n++++\n[footnote=fn]\n----\n<plain:2>\n<plain:1>\n----\n++++\n', {}, (8, 0)),
    'header not defined': ('<plain:3>\n<plain:3> [header](<plain:2>) <plain:1>\n', {}, (1, 4)),
    'header not defined in a title': ('. <plain:3> [header](<plain:2>) <plain:1>\n<plain:2>\n', {}, (0, 6)),
    'header twice': ('[name=hd]\n= <plain:2>\n\n[name=hd]\n== <plain:3>\n', {}, (4, 0)),
    'macro link': ('<plain:3> [link]() <plain:2>\n', {}, (0, 4)),
    'macro header': ('<plain:3>\n<plain:2> [header]() <plain:2>\n', {}, (1, 3)),
    'macro mailto': ('<plain:3> [mailto]()\n', {}, (0, 4)),
    'macro class': ('<plain:3> [class]()\n', {}, (0, 4)),
    'macro unicode': ('<plain:3> [unicode]()\n', {}, (0, 4)),
    'macro raw': ('<plain:3> [raw]()\n', {}, (0, 4)),
    'macro image': ('<plain:3> [image]()\n', {}, (0, 4)),
    'macro footnote': ('<plain:3> [footnote]()\n', {}, (0, 4)),
    'macro arguments': ('<plain:3> [link](k=<plain:1>, <plain:2>) <plain:2>\n', {}, (0, 11)),
    'macro two subtypes': ('<plain:3>\n<plain:2> [link](<plain:1>, *<plain:2>, *<plain:1>) <plain:2>\n', {}, (1, 10)),
    'macro in text of a macro': ('<plain:3> [link](<plain:1>, "<plain:2> [header]()") <plain:2>\n', {}, (0, None)),
    'macro condition': ('<plain:3> [if:<plain:2>](<plain:1>)\n', {}, (0, None)),
    'macro condition empty': ('<plain:3> [if:](<plain:1>)\n', {}, (0, None)),
    'macro condition variable': ('<plain:3> [if:nope==1](<plain:1>)\n', {}, (0, 5)),
    'macro condition true case': ('<plain:3> [if:a==1]()\n', {'a': '1'}, (0, 4)),
    'macro ifeval false case': ('<plain:3> [ifeval:a==2](<plain:1>)\n', {'a': '1'}, (0, 4)),
    'macro ifeval variable': ('<plain:3> [ifeval:a==1](nope)\n', {'a': '1'}, (0, 4)),
    'macro in style': ('<plain:3> *<plain:2> [link]()* <plain:2>\n', {}, (0, 8)),
    'macro in value of a variable': ('<plain:3>\n<plain:3> {a}\n', {'a': '[link]()'}, (1, 4)),
}

# Texts at the limits of the syntax: the outcome is not specified.
MARKS = [
    "= {a}", "* {a}\n", "# {a}\n", ". {a}\n<plain:1>", "[{a}]\n<plain:1>", "{a}", "<< image:{a}", "<< {a}", "@if {a}", "@if {a}==1\n<plain:1>", ":x:{a}", "----\n{a}\n----", "= [if:b==1](<plain:1>)", "* [if:b==1](<plain:1>)\n",
    "[engine=raw]\n----\n----", "[engine=source]\n----\n----", "----\n----", "[engine=source]\n----\n\n----", "[engine=source]\n----\n:\n::\n:<plain:1>:\n----", "[engine=source,marker_delimiter=<plain:1>]\n----\n<plain:1>\n----", "[engine=]\n----\n----", "[isolate=]\n----\n<plain:1>\n----", "[isolate=false]\n----\n----", "[footnote=]\n----\n----", "[footnote=fn]\n----\n----", "[group=,position=]\n----\n----", "[group=gr]\n----\n----", "[position=ps]\n----\n----", "[classes=]\n----\n----", '[classes=","]\n----\n----',
    "[*]\n<plain:1>", "[#]\n<plain:1>", "[@]\n<plain:1>", "[,]\n<plain:1>", "[=]\n<plain:1>", "[=<plain:1>]\n<plain:1>", "[k=]\n<plain:1>", '[""]\n<plain:1>', '[k=""]\n<plain:1>', "[ ]\n<plain:1>", "[]\n<plain:1>", "[#<plain:1>", "[k=v]", "[k=v]\n\n", "[name=]\n= <plain:1>", "[name=nm]\n=", "[internal=]\n<plain:1>", "[#*@]\n<plain:1>",
    ".", ". ", ".\n<plain:1>", ".role", ".role \n<plain:1>", ".role <plain:1>\n", ". <plain:1>\n. <plain:2>\n<plain:1>", "@", "@if", "@if ", "@if ==", "@if ==1\n<plain:1>", "@if a==\n<plain:1>", "@if a==1", "@ <plain:1>", "<<", "<< ", "<<<", "<< :", "<< toc:", "<< toc: ", "<< image:,", "<< image:=", "<< blockgroup:,",
    ":", "::", ":::", ":a:", "::b", ":+:", ":-:", ":+a", ":+a:", ":-a:b", ":a.b:1", ":.:1", ":a.:1", ":.a:1", "*", "* ", "**", "*\n*", "* <plain:1>\n*** <plain:1>\n", "*** <plain:1>\n* <plain:1>\n", "# <plain:1>\n* <plain:1>\n", "#", "# ", "[start=]\n# <plain:1>\n", "[start=auto]\n# <plain:1>\n", "[start=auto]\n* <plain:1>\n", "[start=1.5]\n# <plain:1>\n", "=", "= ", "==", "== ", "---", "----", "--", "//", "/", "///", "////", "////\n////", " ", "\n ", "\t", "\n\n\n",
]
INLINE = [
    "[](<plain:1>)", "[]()", "[link]", "[link](", "[link](<plain:1>", "[link](,)", "[link](=)", "[link](k=v)", '[link]("<plain:1>)', '[link](<plain:1>, "")', "[header](,)", "[header](=)", '[header](hd, "")', "[footnote](,)", "[footnote](=)", "[mailto](,)", '[mailto](<plain:1>, "")', "[class](,)", '[class]("")', "[class](<plain:1>, ,)", "[unicode](<plain:2>)", "[unicode](,)", "[raw](,)", "[image](,)", "[image](<plain:1>, <plain:1>, <plain:1>)", "[<plain:2>](<plain:1>)", "[<plain:2>](*)", "[<plain:2>](#)",
    "[if](<plain:1>)", "[if:a](<plain:1>)", "[if:a==](<plain:1>)", "[if:==](<plain:1>)", "[if:==1](<plain:1>)", "[if:a==1:b](<plain:1>)", "[if:a==1](,)", "[if:a==1](=)", "[if:b==1]()", "[ifeval:a==1](a)", "[ifeval:a==1](b)", "[ifeval:b==1](a)", "[ifeval:a==1](n)", "[ifeval:a==1]()", "[:](<plain:1>)", "[::](<plain:1>)", "[:a==1](<plain:1>)", "[unless:a==1](<plain:1>)",
    "*", "**", "_", "*_*_", "*_<plain:1>*_", "`", "``", "`*`", "$", "$$", "%%", "%", "$%$", "\\", "\\\\", "<plain:1>\\", "\\*", "\\[link](<plain:1>)", "~", "~~", "^^", "^*^", "]", ")", "](", "{", "}", "{}", "{a", "{a}", "{{a}}", "{{", "}}", "{a}}", "{a.b}", "{.}", "{ a }", "{n}", "{b}{b}",
]
VARIABLES = {"a": "", "b": "2", "n": 3}


def sound(o, doc, want):
    """A tree, or an error that is inside the text."""
    if o.exc is None:
        return
    if o.exc_name != "MauException":
        raise trees.Mismatch(f"the text ends with {o.exc_name}")
    line, column, source = place(o)
    if source != trees.SOURCE:
        raise trees.Mismatch(f"the source of the error is {source!r}")
    if not 0 <= line <= doc.count("\n") + 1 or not 0 <= column <= max(map(len, doc.split("\n"))):
        raise trees.Mismatch(f"the error is located at {line}:{column}, out of the text")


def prefixes(t):
    """The prefixes of a text with words of unknown characters. Names are cut
    only after the first letter."""
    words = re.findall(r"<\w+:\d+>|.", t, re.S)
    return ["".join(words[:n]) for n in range(1, len(words)) if not (words[n].isalnum() and words[n - 1].isalnum() and n > 1 and words[n - 2].isalnum())]


def check(ctx):
    work = []
    cases = {}

    def add(rule, name, t, env, parser, want, compare):
        k = (rule, name)
        cases.setdefault(parser, {})[k] = (text(t), env, 0, 0)
        work.append((parser, k, want, compare))

    for k, (t, env, at) in ERRORS.items():
        add("fault", k, t, env, "DocumentParser", at, wrong)
    for i, t in enumerate(MARKS):
        for end in ("", "\n<plain:1>\n"):
            add("limit of a document", f"{i} {len(end)}", t + end, VARIABLES, "DocumentParser", None, sound)
    for i, t in enumerate(INLINE):
        add("limit of a text", f"{i}", t, VARIABLES, "TextParser", None, sound)
        add("limit in a document", f"{i}", f"<plain:2> {t} <plain:1>\n", VARIABLES, "DocumentParser", None, sound)
    for k, (t, env, nodes) in TEXTS.items():
        if "\n" not in t:
            add("text in a header", k, f"= {t} <plain:1>\n", env, "DocumentParser", None, sound)
    seen = set()
    for table, parser in ((DOCS, "DocumentParser"), (TEXTS, "TextParser")):
        for k, entry in table.items():
            for i, t in enumerate(prefixes(entry[0])):
                if (parser, t) not in seen:
                    seen.add((parser, t))
                    add("prefix of a text" if parser == "TextParser" else "prefix of a document", f"{k} {i}", t, entry[1], parser, None, sound)
    fs = {p: trees.programs(ctx.prog, c, p) for p, c in cases.items()}

    def one(sub, item):
        parser, k, want, compare = item
        doc = cases[parser][k][0]
        ip = trees.judge(sub, k[0], k[1], fs[parser][k], doc, want, compare)
        for exc, desc, f, node, where, stack, facts in ip.partials if ip else ():
            if exc == "KeyError" or desc.startswith("int('"):
                sub.check("no other failure", f"{k[1]} ({trees.brief(doc)})", False, f"{exc} may come out: {desc}", where)

    spread(ctx, work, one)
    included.analyse(ctx, included.refused("fault in an included file", included.at))
