""" C09 -- navigation in a local text """
from hypothesis import strategies as st

from .. import texts
from ..engine import Sub, check, check_eq, raises
from ..texts import ref


def none_or_str(r):
    return None if r is None else str(r)


def same_ref(got, paths, what):
    """ got is None, the only one of paths, or the range from the first to the last of paths """
    if not paths:
        check(got is None, "{}: expected None, got {!r}", what, got)
        return
    accepted = ["{}-{}".format(ref(paths[0]), ref(paths[-1]))]
    if len(paths) == 1:
        accepted.append(ref(paths[0]))
    check(got is not None and str(got) in accepted, "{}: expected {}, got {!r}", what, accepted[-1], got)
    check_eq(got.start.list, list(paths[0]), what + ": start")
    if got.is_range():
        check_eq(got.end.list, list(paths[-1]), what + ": end")


def content(doc, passage, path, what):
    """ The passage is the unit at path (whatever the form of the retrieval) """
    check_eq(str(passage.reference), ref(path), what + ": reference")
    check_eq(passage.export("text/plain", exclude=[]).split(), texts.plain_canon(doc.canon(doc.by_path[path])).split(), what + ": text")


def check_children(doc, node, expected, what, lazy):
    def ids():
        try:
            return [str(c) for c in node.childIds]
        except KeyError:
            if not expected:
                return []
            raise
    exp = [ref(p) for p in expected]
    if lazy:
        # The children before their identifiers
        if exp:
            check_eq(none_or_str(node.lastId), exp[-1], what + ": lastId")
            check_eq([str(c.reference) for c in node.children], exp, what + ": children")
    check_eq(ids(), exp, what + ": childIds")
    if exp:
        check_eq(none_or_str(node.firstId), exp[0], what + ": firstId")
        check_eq(none_or_str(node.lastId), exp[-1], what + ": lastId")
        content(doc, node.first, expected[0], what + ": first")
        content(doc, node.last, expected[-1], what + ": last")
        kids = list(node.children)
        check_eq(len(kids), len(exp), what + ": children")
        for kid, p in zip(kids, expected):
            content(doc, kid, p, what + ": child " + ref(p))
    check_eq(ids(), exp, what + ": childIds again")


def run_single(case, ctx):
    from MyCapytain.common.reference import CtsReference
    doc = texts.Document(case["doc"])
    text = doc.text(urn=texts.urn_of(case))
    start = case["from"] % len(doc.units)
    chosen = [p for p, _ in (doc.units[start:] + doc.units[:start])[:6]]
    for i, path in enumerate(chosen):
        same = doc.level(len(path))
        at = same.index(path)
        prev = same[at - 1] if at > 0 else None
        nxt = same[at + 1] if at + 1 < len(same) else None
        for simple in (False, True):
            what = ref(path) + (" (simple)" if simple else "")
            passage = text.getTextualNode(CtsReference(ref(path)), simple=simple)
            if (i + case["from"]) % 2:
                check_eq(none_or_str(passage.nextId), ref(nxt) if nxt else None, what + ": nextId")
                check_eq(none_or_str(passage.prevId), ref(prev) if prev else None, what + ": prevId")
            got = passage.siblingsId
            check_eq((none_or_str(got[0]), none_or_str(got[1])), (ref(prev) if prev else None, ref(nxt) if nxt else None), what + ": siblingsId")
            check_eq(none_or_str(passage.prevId), ref(prev) if prev else None, what + ": prevId")
            check_eq(none_or_str(passage.nextId), ref(nxt) if nxt else None, what + ": nextId")
            for name, p in (("prev", prev), ("next", nxt)):
                node = getattr(passage, name)
                if p is None:
                    check(node is None, "{}: {} is {!r} at the end of the text", what, name, node)
                else:
                    content(doc, node, p, what + ": " + name)
            parent = path[:-1]
            check_eq(none_or_str(passage.parentId), ref(parent) if parent else None, what + ": parentId")
            if parent:
                content(doc, passage.parent, parent, what + ": parent")
            else:
                check(passage.parent is None, "{}: parent of the first level", what)
            check_children(doc, passage, doc.below(path, len(path) + 1), what, lazy=bool(case["from"] % 3))
    check_children(doc, text, doc.level(1), "text", lazy=True)
    check_children(doc, text.getTextualNode(), doc.level(1), "whole text", lazy=False)
    doc.check_unchanged(text)
    ctx.label("depth{}".format(doc.depth))
    ctx.nontrivial(doc.depth > 1 and len(doc.units) > 4)


def run_ranges(case, ctx):
    from MyCapytain.common.reference import CtsReference
    from MyCapytain.errors import InvalidSiblingRequest
    doc = texts.Document(case["doc"])
    text = doc.text(urn=texts.urn_of(case))
    for a, b in case["ranges"]:
        lvl = len(doc.units[a % len(doc.units)][0])
        same = doc.level(lvl)
        s = a % len(same)
        e = s + b % (len(same) - s)
        r = "{}-{}".format(ref(same[s]), ref(same[e]))
        size = e - s + 1
        passage = text.getTextualNode(CtsReference(r))
        prev, nxt = same[max(0, s - size):s], same[e + 1:e + 1 + size]
        same_ref(passage.prevId, prev, r + ": prevId")
        same_ref(passage.nextId, nxt, r + ": nextId")
        got = passage.siblingsId
        same_ref(got[0], prev, r + ": siblingsId[0]")
        same_ref(got[1], nxt, r + ": siblingsId[1]")
        for name, paths in (("prev", prev), ("next", nxt)):
            node = getattr(passage, name)
            if not paths:
                check(node is None, "{}: {} is {!r} at the end of the text", r, name, node)
            else:
                same_ref(node.reference, paths, "{}: reference of {}".format(r, name))
                if node.reference.is_range():
                    check_eq([str(x) for x in node.getReffs(level=0)], [ref(p) for p in paths], "{}: units of {}".format(r, name))
        below = doc.between(same[s], same[e], lvl + 1) if lvl < doc.depth else []
        check_children(doc, passage, below, r, lazy=bool(a % 2))
        ctx.label("size{}".format(min(size, 6)), "clipped" if (prev and len(prev) < size) or (nxt and len(nxt) < size) else "full windows")
        ctx.nontrivial(size > 1 and (prev or nxt))
    # Different levels
    a, b = case["ranges"][0]
    start, end = doc.pick_range(a, b)
    if len(start) != len(end):
        r = "{}-{}".format(ref(start), ref(end))
        passage = text.getTextualNode(r)
        for name in ("prevId", "nextId", "siblingsId", "prev", "next", "childIds", "firstId", "lastId", "first", "last"):
            raises(InvalidSiblingRequest, "{} of {}".format(name, r), lambda: getattr(passage, name))
        ctx.label("mixed levels")
    doc.check_unchanged(text)


def run_walks(case, ctx):
    doc = texts.Document(case["doc"])
    text = doc.text(urn=texts.urn_of(case))
    levels = [i for i in range(1, doc.depth + 1) if doc.level(i)]
    lvl = levels[case["level"] % len(levels)]
    same = doc.level(lvl)
    simple = case["simple"]
    # forward
    node, got = text.getTextualNode(ref(same[0]), simple=simple), []
    while node is not None and len(got) <= len(same):
        got.append(str(node.reference))
        if case["by_id"]:
            node = text.getTextualNode(node.nextId, simple=simple) if node.nextId is not None else None
        else:
            node = node.next
    check_eq(got, [ref(p) for p in same], "walk with next over level {}".format(lvl))
    # backward
    node, got = text.getTextualNode(ref(same[-1]), simple=simple), []
    while node is not None and len(got) <= len(same):
        got.append(str(node.reference))
        node = node.prev
    check_eq(got, [ref(p) for p in reversed(same)], "walk with prev over level {}".format(lvl))
    # windows
    size = 1 + case["size"] % len(same)
    node, got = text.getTextualNode("{}-{}".format(ref(same[0]), ref(same[size - 1]))), []
    while node is not None and len(got) <= len(same):
        units = [str(x) for x in node.getReffs(level=0)] if node.reference.is_range() else [str(node.reference)]
        got.append(units)
        node = node.next
    exp = [[ref(p) for p in same[i:i + size]] for i in range(0, len(same), size)]
    check_eq(got, exp, "walk with windows of {} over level {}".format(size, lvl))
    # down to the first and to the last unit
    for side in ("first", "last"):
        node, path = text, ()
        while True:
            below = doc.below(path, len(path) + 1) if len(path) < doc.depth else []
            if not below:
                break
            path = below[0 if side == "first" else -1]
            node = getattr(node, side)
            check_eq(str(node.reference), ref(path), "going down by " + side)
        # and back to the top
        while len(path) > 1:
            node, path = node.parent, path[:-1]
            check_eq(str(node.reference), ref(path), "going up by parent")
        check(node.parent is None, "the first level has a parent")
    doc.check_unchanged(text)
    ctx.label("level{}of{}".format(lvl, doc.depth), "units{}".format(min(8, len(same))), "simple" if simple else "full")
    ctx.nontrivial(len(same) > 3 and lvl > 1)


def _single():
    return st.fixed_dictionaries({"doc": texts.documents(), "from": st.integers(0, 40), "urn": texts.urns()})


def _ranges():
    return st.fixed_dictionaries({"doc": texts.documents(), "urn": texts.urns(), "ranges": st.lists(
        st.tuples(st.integers(0, 50), st.integers(0, 50)), min_size=1, max_size=3)})


def _walks():
    return st.fixed_dictionaries({"doc": texts.documents(), "urn": texts.urns(), "level": st.integers(0, 3), "size": st.integers(0, 5),
                                  "simple": st.booleans(), "by_id": st.booleans()})


SUBS = [
    Sub("single", _single, run_single, quick=500, thorough=10000, rule="two levels or more and more than four units"),
    Sub("ranges", _ranges, run_ranges, quick=700, thorough=14000, rule="a range of two units or more which has neighbours"),
    Sub("walks", _walks, run_walks, quick=500, thorough=10000, rule="more than three units at the second level or below"),
]
