from ..absint import K, LoopEv, NONE, R, S
from ..model import attr, depends, short
from .common import SELF, alts, at_path, early_exit, elem_obj, mau_error, mentions, method_outs, over
from .elements import Elements, PARSER
from .p05 import append_node, same, touches

PROPERTY = {
    "id": "P08",
    "title": "Grouped blocks are shown by their group, and only there",
    "statement": "A block with both group and position leaves the normal flow and is stored in that group at that position; every blockgroup node that names the group receives all the blocks of the group under their positions, and they become its children. A position taken twice and a blockgroup naming an unknown group are errors located at the block or at the blockgroup. A block without a group (or without a position) stays in the normal flow.",
    "quantifier": {
        "over": ["inputs", "histories"],
        "text": "every document: any number of groups, positions and blockgroup nodes, in any order",
    },
    "why_tests_cant": "Tests define two positions of one group; the claim covers any number of groups and nodes in any order, and every path of the block processor.",
    "anchors": {
        "files": ["mau/parsers/managers/blockgroup_manager.py", "mau/parsers/document_processors/block.py", "mau/parsers/document_processors/include.py"],
        "state": [{"name": "BlockGroupManager.items / groups", "meaning": "blocks by group and position, group nodes", "where": "mau/parsers/managers/blockgroup_manager.py"}],
        "mechanism": [{"name": "BlockGroupManager.process", "where": "mau/parsers/managers/blockgroup_manager.py"}],
        "observe_at": ["BlockGroupNode.items"],
        "hook_needed": None,
    },
}
TECHNIQUE = "abstract interpretation: for-all-elements effects of the block group manager; exclusive sink of grouped blocks on all paths"
LEVEL_NOTE = "Loops are decided on a generic element."
EXPLANATION = "BlockGroupManager.add_block/process are evaluated abstractly from an arbitrary state; every outcome of the document processors that builds a block or a blockgroup node is compared with the facts known on that path about its group and position."
ASSUMPTIONS = []

GROUPS = attr(SELF, "groups")
ITEMS = attr(SELF, "items")


def check(ctx):
    add(ctx)
    process(ctx)
    append_node(ctx, "BlockGroupManager", "add_group", "groups")
    blocks(ctx)


def add(ctx):
    p = "BlockGroupManager.add_block"
    outs = method_outs(ctx, "BlockGroupManager", "add_block")
    ctx.check("position-taken", p, any(o.exc for o in outs), "a position taken twice is silently accepted: one of the blocks is lost")
    g, pos, node = (S("var", (n,)) for n in [a.arg for a in ctx.prog.method("BlockGroupManager", "add_block").node.args.args][1:4])
    for o in outs:
        if o.exc:
            mau_error(ctx, "position-taken", p + ":error", o, lambda t: depends(t, node), p)
            # the error is raised only when the position is taken
            taken = [v for k, v in o.st.facts.items() if depends(k, ITEMS) and depends(k, pos)]
            ctx.check("position-free", p, bool(taken), "a free position is refused", o.exc_where, o.path_text)
            continue
        stored = None
        for oid, h in o.st.heap.items():
            if h.kind == "dict":
                for q in h.parts:
                    if q[0] == "kv" and o.is_a(q[2], "BlockGroupItemNode"):
                        stored = (R(oid), q[1], q[2])
        if stored is None:
            ctx.check("stored", p, False, "the block is not stored in its group", o.where(), o.path_text)
            continue
        d, k, it = stored
        # the table of the group is the one kept by the manager
        dp = o.obj(d).path
        own = dp is not None and depends(dp, ITEMS) and depends(dp, g)
        if dp is None:
            own = any(q[0] == "kv" and q[2] == d and o.snap(q[1]) == g for _, h in o.st.heap.items() if h.kind == "dict" for q in h.parts)
        ctx.check("stored", p + ":group", own, f"the block is stored in {short(dp)} and not in its group", o.where(), o.path_text)
        ctx.check("stored", p + ":position", o.snap(k) == pos, f"the block is stored at {short(o.snap(k))} and not at its position", o.where(), o.path_text)
        ctx.check("item", p + ":group", o.snap(o.get(it, "group")) == g, f"the item has group {short(o.snap(o.get(it, 'group')))}", o.where(), o.path_text)
        ctx.check("item", p + ":position", o.snap(o.get(it, "position")) == pos, f"the item has position {short(o.snap(o.get(it, 'position')))}", o.where(), o.path_text)
        ctx.check("item", p + ":block", o.snap(o.get(it, "block")) == node, "the item does not contain the block", o.where(), o.path_text)
        r = at_path(o, node)
        ctx.check("item", p + ":parent", r is not None and same(o, o.get(r, "parent"), it), "the block does not become a child of the item", o.where(), o.path_text)
        # a position that is taken is never replaced
        for kf, v in o.st.facts.items():
            if isinstance(kf, S) and kf.op == "in" and depends(kf.args[1], ITEMS) and kf.args[0] == pos and v:
                ctx.check("position-taken", p, False, "a position that is taken is replaced", o.where(), o.path_text)
            if isinstance(kf, S) and kf.op == "isnone" and depends(kf, ITEMS) and depends(kf, pos) and not v:
                ctx.check("position-taken", p, False, "a position that is taken is replaced", o.where(), o.path_text)
        tested = [kf for kf in o.st.facts if depends(kf, ITEMS) and depends(kf, pos)]
        ctx.check("position-taken", p + ":tested", bool(tested), "the block is stored without checking its position", o.where(), o.path_text)


def process(ctx):
    p = "BlockGroupManager.process"
    outs = method_outs(ctx, "BlockGroupManager", "process")
    e = S("elem", (GROUPS,))
    errs = [o for o in outs if o.exc]
    ctx.check("unknown-group", p, bool(errs), "a blockgroup that names an unknown group is not an error")
    for o in errs:
        mau_error(ctx, "unknown-group", p + ":error", o, lambda t: depends(t, e) and mentions(t, "info"), p)
    for o in outs:
        if o.exc:
            continue
        ctx.check("all-processed", p, not early_exit(o, GROUPS), "processing stops before the last blockgroup", o.where(), o.path_text)
        r, whole = elem_obj(o, GROUPS)
        if whole is False:
            ctx.check("populated", p, False, "only some of the blockgroups are populated", o.where(), o.path_text)
            continue
        if r is None:
            ctx.check("populated", p, None if touches(o, GROUPS) else False, "blockgroups are never populated", o.where(), o.path_text)
            continue
        v = o.get(r, "items")
        for a in alts(o.snap(v)):
            if a == attr(e, "items"):
                ctx.check("populated", p, False, "a blockgroup may be left without blocks", o.where(), o.path_text)
        ps = o.parts(v)
        t = o.deep(v, 4)
        ctx.check("populated", p, depends(t, ITEMS) and depends(t, attr(e, "name")), f"a blockgroup receives {short(t)} and not the blocks of its group", o.where(), o.path_text)
        for q in ps or ():
            if q[0] == "each":
                for facts, sub in q[2]:
                    kv = [x for x in sub if x[0] == "kv"]
                    whole = any(x[0] == "rest" and depends(x[1], ITEMS) for x in ps)
                    ctx.check("populated", p + ":all", len(kv) == 1 or whole, "some blocks of the group are skipped", o.where(), o.path_text)
                    for x in kv:
                        kk = o.snap(x[1])
                        vv = o.snap(x[2])
                        src = q[1]
                        ctx.check("populated", p + ":position", isinstance(kk, S) and kk.op == "key" or mentions(kk, "position"), f"a block is shown at {short(kk)}", o.where(), o.path_text)
                        ctx.check("populated", p + ":item", isinstance(vv, S) and (vv.op == "val" and vv.args == kk.args or not kk.op == "key"), f"position and block do not match ({short(kk)}, {short(vv)})", o.where(), o.path_text)
        early = [x for x in o.events("iter") if depends(x.data[0], ITEMS)]
        ctx.check("populated", p + ":complete", not early, "filling a blockgroup stops before the last block", o.where(), o.path_text)
        # items are children of the blockgroup
        its = [R(oid) for oid, h in o.st.heap.items() if h.path is not None and isinstance(h.path, S) and h.path.op in ("val", "elem") and depends(h.path, ITEMS) and h.kind == "obj" and o.is_a(R(oid), "BlockGroupItemNode")]
        if not its:
            ctx.check("children", p, False, "the blocks do not become children of the blockgroup", o.where(), o.path_text)
        for it in its:
            for a in alts(o.snap(o.get(it, "parent"))):
                ctx.check("children", p, a == e, f"the parent of a block of the group may be {short(a)}", o.where(), o.path_text)


def blocks(ctx):
    el = Elements(ctx)
    seen = {"group": 0, "flow": 0, "node": 0}
    for i, name, outs in el:
        for o in outs:
            if o.exc:
                continue
            s = el.sinks(o)
            kinds = [k for k, _ in s]
            if "group" in kinds:
                seen["group"] += 1
                ctx.check("exclusive", name, kinds.count("group") == 1 and "nodes" not in kinds, "a grouped block also appears in the normal flow", o.where(), o.path_text)
                from .common import objs
                for it in objs(o, "BlockGroupItemNode"):
                    if o.obj(it).path is not None:
                        continue
                    for f, other in (("group", "position"), ("position", "group")):
                        t = o.deep(o.get(it, f), 3)
                        ctx.check("right-argument", f"{name}:{f}", depends(t, K(f)) and not depends(t, K(other)), f"the {f} of the item is {short(t)}", o.where(), o.path_text)
                for gk, gi in group_facts(o, el):
                    ctx.check("both-given", f"{name}:{gk}", gi, f"a block is put in a group although it has no {gk}", o.where(), o.path_text)
            for k, v in s:
                if k == "nodes" and o.is_a(v, "BlockNode"):
                    seen["flow"] += 1
                    gf = dict(group_facts(o, el))
                    if gf:
                        ctx.check("grouped", name, not (gf.get("group") is True and gf.get("position") is True), "a block with group and position stays in the normal flow", o.where(), o.path_text)
                if k == "nodes" and o.is_a(v, "BlockGroupNode"):
                    seen["node"] += 1
                    added = o.added(o.get(o.parser, el.a_group, "groups"), attr(PARSER, el.a_group, "groups"))
                    ok = None if added is None else any(q[0] == "item" and q[1] == v for q in added)
                    ctx.check("registered", name, ok, "a blockgroup node is added to the document but never registered: it stays empty", o.where(), o.path_text)
    for k, n in seen.items():
        ctx.check("coverage", k, n > 0, f"no processor outcome of kind '{k}'")


def group_facts(o, el):
    """Facts known about the group and position arguments of the block."""
    res = []
    for name in ("group", "position"):
        known = None
        for k, v in o.st.facts.items():
            if not isinstance(k, S) or k.op not in ("truth", "isnone", "in"):
                continue
            if depends(k, K(name)) and (depends(k, el.args0) or depends(k, lambda t: isinstance(t, S) and t.op == "parsed")):
                if k.op == "truth":
                    known = v
                elif k.op == "isnone":
                    known = (not v) if known is None else known
                elif k.op == "in":
                    known = v if known is None else known
        if known is not None:
            res.append((name, known))
    return res
