from ..absint import K, NONE, R, Tup
from ..chars import text
from ..model import short
from ..pool import spread
from . import trees
from .doctable import DOCS
from .documents import Unclear
from .included import FILES
from .trees import Tree, view

PROPERTY = {
    "id": "P27",
    "title": "Every node of a document has the parent it belongs to",
    "statement": "In the result of the parser the elements of a document have the document node as parent and that node contains them, in order; the elements of a block have the block, labels the element they are given to, the text of headers, labels, styles and macros that very node, the lines of a paragraph, raw block, source block or raw file that element, and the marker of a source line its line. The text of the lines of a paragraph has the paragraph as parent, and the items of a list, the lists in it and the text of the items have the main list; entries of a table of contents have its node, the entries of a list of footnotes that list, the items of a block group the group, the block of an item the item, and included content the footnote. No node keeps the parent of another place of the document, whatever else is around it.",
    "quantifier": {"over": ["inputs"], "text": "every node of every document"},
    "why_tests_cant": "Tests look at the parents of one or two nodes of some documents; templates and visitors rely on the parents of all of them.",
    "anchors": {
        "files": ["mau/parsers/document_parser.py", "mau/parsers/text_parser.py", "mau/parsers/base_parser.py", "mau/parsers/document_processors", "mau/parsers/managers"],
        "state": ["Node.parent"],
        "mechanism": [{"name": "BaseParser._save", "where": "mau/parsers/base_parser.py"}, {"name": "DocumentParser._parse_text", "where": "mau/parsers/document_parser.py"}],
        "observe_at": ["Node.parent", "the field `parent` of the data of a visitor"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation of lexers and parsers from texts with unknown characters; identity of the abstract object that each node has as parent"
LEVEL_NOTE = "The documents of the tables of P13 and P37 and some with deeper nesting; the content of documents included with `<< mau` is not covered (its nodes keep the node of the document they come from)."
EXPLANATION = "The package is interpreted on texts whose words are unknown characters; on every path, every node that is reached from the document must have as parent the very object that the statement says."
ASSUMPTIONS = ["the parents do not depend on how long a word of characters without mark-up is"]

# Fields that mention a node of another place.
MENTIONS = {("MacroFootnote", "footnote"), ("MacroHeader", "header"), ("TocItem", "header"), ("FootnotesItem", "footnote"), ("IncludeMau", "content")}

MORE = {
    "macros in macros": '[class]("[link](uri, <plain:2>) _<plain:2>_ <plain:1>", one) <plain:1>',
    "macros in styles": "_<plain:1> *[link](uri, <plain:2>)* [unicode](a)_ <plain:1>",
    "control macro": ':+flag:\n\n<plain:1> [if:flag==true]("<plain:2> _<plain:1>_ [raw](a)") <plain:1>',
    "control macro in a style": ':+flag:\n\n_<plain:1> [if:flag==true]("<plain:2> [link](uri)")_ <plain:1>',
    "mailto and class": "[mailto](abc) [mailto](abc, <plain:2>) [class](_<plain:1>_ <plain:1>, one)",
    "image and verbatim": "[image](uri) `<plain:2>` $<plain:2>$ [unicode](a)[raw](b)",
    "list": "* <plain:1> _<plain:1>_ [link](uri)\n** <plain:1> `<plain:1>`\n*** _<plain:1>_ <plain:2>\n** <plain:1>\n* <plain:1>\n",
    "lists": "* <plain:1>\n** <plain:1>\n\n# _<plain:1>_\n## <plain:1>\n",
    "headers": "= _<plain:1>_ <plain:1>\n\n== <plain:1> [link](uri)\n\n= `<plain:1>`\n",
    "labels": ".one _<plain:1>_ <plain:1>\n.two <plain:1> [link](uri, <plain:2>)\n<plain:2>\n\n.one <plain:1>\n* <plain:1>\n\n.one <plain:2>\n= <plain:1>\n\n.one <plain:2>\n---\n",
    "labels of blocks": ".one _<plain:1>_\n----\n.two <plain:2>\n<plain:1>\n----\n\n.one <plain:1>\n<< image:abc\n",
    "nested blocks": "----\n<plain:1>\n++++\n<plain:2>\n\n****\n= <plain:1>\n\n* <plain:1>\n** <plain:1>\n****\n\n<plain:2>\n++++\n---\n----\n\n<plain:2>\n",
    "isolated block": "[isolate=true]\n----\n= <plain:1>\n\n_<plain:1>_\n\n<< toc\n----\n\n= <plain:2>\n\n<< toc\n",
    "not isolated block": "[isolate=false]\n----\n= <plain:1>\n\n_<plain:1>_ <plain:1>\n----\n\n== <plain:2>\n\n<< toc\n",
    "engines": "[engine=raw]\n----\n<plain:1>\n<plain:2>\n----\n\n[engine=source]\n----\n<plain:1>\n<plain:2>\n----\n",
    "markers": "[engine=source]\n----\n<plain:1>:1:\n<plain:2>:2:\n<plain:2>\n----\n",
    "groups": "[group=one, position=a]\n----\n<plain:1>\n----\n\n[group=one, position=b]\n----\n_<plain:2>_\n----\n\n[group=two, position=a]\n----\n* <plain:2>\n----\n\n<< blockgroup:one\n<< blockgroup:two\n",
    "groups first": "<< blockgroup:one\n\n[group=one, position=a]\n----\n<plain:1>\n----\n\n<plain:2>\n",
    "footnotes": "<plain:1>[footnote](abc) _<plain:1>[footnote](def)_\n\n[footnote=abc]\n----\n_<plain:1>_ <plain:1>\n\n* <plain:1>\n----\n\n[footnote=def]\n----\n<plain:2>\n----\n\n<< footnotes\n",
    "table of contents": "<< toc\n\n= <plain:1>\n\n== _<plain:1>_\n\n=== <plain:1>\n\n== <plain:2>\n\n= <plain:2>\n\n<< toc\n",
    "header links": "[header](abc) [header](def, _<plain:1>_ <plain:1>)\n\n[name=abc]\n= _<plain:1>_ <plain:2>\n\n[name=def]\n= <plain:1>\n\n_[header](abc)_\n",
    "alias": "[*note]\n----\n<plain:2>\n----\n",
    "after conditions": ":+flag:\n\n@if flag==true\n= <plain:1>\n\n@if flag==false\n* <plain:1>\n\n@if flag==true\n* <plain:1>\n",
}


def check(ctx):
    docs = {k: (text(t), env, 0, 0) for k, (t, env, nodes) in DOCS.items()}
    docs.update({f"more: {k}": (text(t), None, 0, 0) for k, t in MORE.items()})
    fs = trees.programs(ctx.prog, docs, returns="(parser.nodes, parser.output.document)")
    # (the nodes of a file belong to the document of the file)
    files = {f"file: {k}": FILES[k][2] for k in FILES if k.startswith("raw") or k == "empty files"}
    fs.update(trees.programs(ctx.prog, {k: (text(FILES[k[6:]][0]), FILES[k[6:]][1], 0, 0) for k in files}, returns="(parser.nodes, parser.output.document)"))
    docs.update({k: (text(FILES[k[6:]][0]),) for k in files})
    names = list(docs)

    def one(ctx, k):
        document(ctx, k, fs[k], docs[k][0], files.get(k))
    spread(ctx, names, one)
    ctx.need("coverage", "parents", len(ctx.obligations) > len(names), "no node was found")


def document(ctx, name, fi, doc, files=None):
    ip, outs = trees.explore(ctx, fi, files=files)
    subject = f"{name} ({trees.brief(doc)})"
    if outs is None:
        ctx.check("parents", subject, None, "out of budget")
        return
    ctx.need("coverage", subject, bool(outs), "no outcome")
    good = 0
    found = {}
    for o in outs:
        if o.exc is not None:
            continue
        good += 1
        try:
            walk(o, found)
        except Unclear as e:
            found.setdefault(("", "", ""), []).append((None, str(e), o))
    for (owner, field, child), rs in sorted(found.items()):
        for ok, why, o in rs:
            ctx.check("parents", f"{owner}.{field} {child}: {subject}" if owner else subject, ok, why, o.where(), o.path_text)
    ctx.check("parents", f"result: {subject}", True if good else None, "no path without an error")


def nodes_of(x):
    if isinstance(x, Tree):
        yield x
    elif isinstance(x, list):
        for y in x:
            yield from nodes_of(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from nodes_of(y)


def children(t):
    for k, f in t.fields.items():
        if k in ("parent", "info", "arguments") or (t.cls, k) in MENTIONS:
            continue
        try:
            x = f()
        except Unclear:
            # (a text that is not known)
            if not isinstance(t.o.get(t.ref, k), R):
                continue
            raise
        for c in nodes_of(x):
            yield k, c


def expected(chain, field, child):
    """The nodes that may be the parent of a child of the last node of the
    chain: more than one when both readings are right."""
    owner = chain[-1]
    copied = any(c.cls in ("Footnotes", "Footnote", "MacroFootnote") for c in chain)
    if owner.cls == "ParagraphLine":
        return [chain[-2]] + ([owner] if copied else [])
    if field == "labels":
        return [owner]
    if owner.cls in ("List", "ListItem"):
        main = [c for c in chain if c.cls == "List" and main_node(c)]
        return main[-1:] + ([owner] if copied else [])
    if owner.cls == "TocItem" and field == "entries":
        return [c for c in chain if c.cls == "Toc"][-1:]
    return [owner]


def main_node(t):
    return t.fields["main_node"]() is True


def parent(t):
    return t.o.get(t.ref, "parent")


def name_of(o, v):
    if v == NONE or v == K(None):
        return "nothing"
    if isinstance(v, R) and hasattr(o.st.heap[v.oid].cls, "name"):
        return f"a {o.st.heap[v.oid].cls.name}"
    return short(o.snap(v))


def walk(o, found):
    v = o.value
    items = list(v.items) if isinstance(v, Tup) else None
    if not items or len(items) != 2:
        raise Unclear(short(o.snap(v)))
    root = items[1]
    if not isinstance(root, R) and view(o, items[0]) == []:
        return
    if not isinstance(root, R):
        found.setdefault(("Document", "", ""), []).append((False if root in (NONE, K(None)) else None, "the parser gives no document", o))
        return
    top = view(o, items[0])
    doc = view(o, root)

    def put(owner, field, child, ok, why):
        found.setdefault((owner, field, child), []).append((ok, why, o))

    inside = list(nodes_of(doc.fields["content"]()))
    ok = [c.ref for c in inside] == [c.ref for c in nodes_of(top)]
    put("Document", "content", "nodes", ok, "the document node does not contain the nodes of the document")
    seen = set()

    def visit(t, chain):
        if t.ref in seen:
            return
        seen.add(t.ref)
        chain = chain + [t]
        for field, c in children(t):
            want = [w.ref for w in expected(chain, field, c)]
            got = parent(c)
            ok = got in want if isinstance(got, R) or got in (NONE, K(None)) else None
            put(t.cls, field, c.cls, ok, f"the parent of the {c.cls} is {name_of(o, got)}" + (" of another place" if isinstance(got, R) and not ok else ""))
            visit(c, chain)
        if (t.cls, "footnote") in MENTIONS:
            for f in nodes_of(t.fields["footnote"]()):
                visit(f, [])

    visit(doc, [])
