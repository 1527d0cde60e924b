""" C22 -- the local resolver serves texts as the texts themselves would """
from collections import Counter

from hypothesis import strategies as st

from .. import corpora, inventories as inv
from ..common import LANGS
from ..engine import CaseTimeout, Sub, check, check_eq, raises
from ..texts import canon_any, ref

DC = "http://purl.org/dc/elements/1.1/"


def outcome(fn, *args, **kwargs):
    """ ("returned", value) or ("raised", exception) """
    try:
        return "returned", fn(*args, **kwargs)
    except CaseTimeout:
        raise
    except BaseException as E:
        return "raised", type(E).__name__


def facts(document, passage):
    """ What there is to compare in a passage """
    def ask(name, show):
        kind, value = outcome(lambda: show(getattr(passage, name)))
        return name, kind, value
    plain = lambda x: None if x is None else str(x)
    several = lambda x: tuple(plain(i) for i in x) if x is not None else None
    return [
        ("type", type(passage).__name__),
        ("xml", document.canon(passage.export("python/lxml"))),
        ("plain text", passage.export("text/plain")),
        ask("urn", plain), ask("reference", plain), ask("citation", lambda c: (c.name, [x.name for x in c.root])),
        ask("siblingsId", several), ask("prevId", plain), ask("nextId", plain), ask("parentId", plain), ask("childIds", several), ask("depth", plain),
        ask("firstId", plain), ask("lastId", plain)]


def references(value):
    return [str(r) for r in value], value.level, value.citation.name


def same(got, expected, what, show):
    check_eq(got[0], expected[0], "{}: got {!r} and the text itself {!r}".format(what, got[1], expected[1]))
    if got[0] == "returned":
        check_eq(show(got[1]), show(expected[1]), what)
    else:
        check_eq(got[1], expected[1], what + ": exception")


def check_metadata(passage, g, w, t, what):
    from rdflib import URIRef
    values = [("groupname", g["groupname"], "creator"), ("title", w["title"], "title"), ("label", t["label"], "subject"), ("description", t["description"], "description")]
    for prop, expected, dc in values:
        exp = Counter((text, lang) for lang, text in expected)
        for uri in (inv.CTS + prop, DC + dc):
            got = Counter((str(v), v.language) for v in passage.metadata.get(URIRef(uri)))
            check_eq(got, exp, "{}: {} of the passage".format(what, uri))
        for lang in LANGS:
            one = passage.get_cts_metadata(prop, lang)
            check(inv.one_of_language(one, lang, expected), "{}: {} in {} is {!r}, out of {!r}", what, prop, lang, one, expected)
            if prop == "title" and str(one or ""):
                check(inv.one_of_language(passage.get_title(lang), lang, expected), "{}: title in {} is {!r}", what, lang, passage.get_title(lang))


def named(graph):
    from rdflib import BNode
    return {x for x in graph if not isinstance(x[0], BNode)}


def run(case, ctx):
    from MyCapytain.common.reference import CtsReference, URN
    from MyCapytain.errors import InvalidURN, UnknownObjectError
    corpus = corpora.Corpus(case, ctx.tmpdir())
    resolver = corpus.resolver()
    usable = {x[3]: x for x in corpus.usable()}
    works = {}
    for g, w, t, urn in corpus.all():
        works.setdefault(inv.work_urn(g, w), []).append((t, urn))
    everything = list(corpus.all())
    before = named(resolver.inventory.graph)
    asked = set()
    for n, op in enumerate(case["ops"]):
        g, w, t, urn = everything[op["text"] % len(everything)]
        if usable and op["usable"]:
            g, w, t, urn = usable[sorted(usable)[op["text"] % len(usable)]]
        target = urn
        if op["target"] == "work":
            target = inv.work_urn(g, w)
            editions = [u for x, u in works[target] if x["kind"] == "edition" and u in usable]
            if not editions:
                raises(UnknownObjectError, "asking for a text of {}, which has no edition".format(target), resolver.getTextualNode, target)
                raises(UnknownObjectError, "asking for references of {}, which has no edition".format(target), resolver.getReffs, target)
                ctx.label("work without edition")
                continue
            # Any of them, always the same
            got = resolver.getTextualNode(target)
            check(str(got.urn) in editions, "{}: text {!r} is not one of {!r}", target, str(got.urn), editions)
            urn = str(got.urn)
            g, w, t, urn = usable[urn]
            ctx.label("work")
        elif op["target"] == "unknown":
            for bad, kinds in ((urn + "x", KeyError), (urn.rpartition(".")[0] + "x.y", KeyError), (inv.tg_urn(g), InvalidURN), (inv.work_urn(g, w) + "0", UnknownObjectError),
                               ("urn:cts:nothing:a.b.c", KeyError), ("urn:cts:" + g["id"].split(":")[0], InvalidURN)):
                if bad in works or bad in [e[3] for e in everything]:
                    continue
                raises(kinds, "text of " + bad, resolver.getTextualNode, bad)
                raises(kinds, "references of " + bad, resolver.getReffs, bad)
                raises(kinds, "siblings in " + bad, resolver.getSiblings, bad, "1")
            ctx.label("unknown")
            continue
        if urn not in usable:
            raises(Exception, "text of the unusable " + urn, resolver.getTextualNode, urn)
            raises(Exception, "references of the unusable " + urn, resolver.getReffs, urn)
            ctx.label("unusable")
            continue
        document = corpus.served(urn, resolver.inventory[urn].path)[1]
        direct = document.text(URN(urn), "string")
        given = URN(target) if op["urn"] else target
        paths = [p for p, _ in document.units]
        start, end = document.pick_range(op["a"], op["b"])
        kind = op["reference"]
        reference = None if kind == "none" else ref(start) if kind == "single" else "{}-{}".format(ref(start), ref(end)) if kind == "range" \
            else ref(start) + ".zzz" if kind == "deep" else "nowhere"
        as_object = None if reference is None else CtsReference(reference)
        passed = reference if op["string"] else as_object
        what = "step {} ({}, {})".format(n, target, reference)
        if op["do"] == "passage":
            kwargs = {k: True for k in ("metadata", "prevnext") if op[k]}
            got = outcome(resolver.getTextualNode, given, passed, **kwargs) if op["positional"] else outcome(resolver.getTextualNode, textId=given, subreference=passed, **kwargs)
            expected = outcome(direct.getTextualNode, as_object)
            same(got, expected, what, lambda p: facts(document, p))
            if got[0] == "returned" and op["metadata"]:
                check_metadata(got[1], g, w, t, what)
                ctx.label("metadata")
            if got[0] == "returned" and kind == "none":
                check_eq(document.canon(got[1].export("python/lxml")), document.canon(document.root), what + ": whole text")
            if got[0] == "returned" and op["follow"] and reference is not None:
                for name in ("prev", "next", "parent", "first", "last"):
                    a, b = outcome(getattr, got[1], name), outcome(getattr, expected[1], name)
                    if a[1] is None or b[1] is None:
                        check(a == b, "{}: {} is {!r} and not {!r}", what, name, a, b)
                    else:
                        same(a, b, what + ": " + name, lambda p: facts(document, p))
        elif op["do"] == "siblings":
            if reference is None:
                reference, passed, as_object = ref(start), ref(start), CtsReference(ref(start))
            got = outcome(resolver.getSiblings, given, passed)
            expected = outcome(lambda: direct.getTextualNode(as_object).siblingsId)
            same(got, expected, what + ": siblings", lambda s: tuple(None if x is None else str(x) for x in s))
        else:
            kwargs = {} if op["level"] == 1 and op["positional"] else {"level": op["level"]}
            got = outcome(resolver.getReffs, given, subreference=passed, **kwargs)
            expected = outcome(direct.getReffs, level=op["level"], subreference=as_object)
            if reference is None and op["level"] <= document.depth and document.level(op["level"]):
                check_eq(got[0], "returned", what + ": references {!r}".format(got[1]))
                check_eq([str(r) for r in got[1]], [ref(p) for p in document.level(op["level"])], what + ": references")
            if kind not in ("deep", "nowhere"):
                same(got, expected, what + ": references", references)
            else:
                check_eq(got[0], "raised", "{}: references of a passage which does not exist: {!r}".format(what, got[1]))
        asked.add((urn, op["do"], reference))
        ctx.label(op["do"] + " " + kind)
        ctx.label("several units" if len(paths) > 3 else "few units")
    check_eq(named(resolver.inventory.graph) ^ before, set(), "statements about named things which changed while serving texts")
    for g in corpus.model["textgroups"]:
        for w in g["works"]:
            check_eq({x.id for x in resolver.inventory[inv.work_urn(g, w)].members}, {u for _, u in works[inv.work_urn(g, w)]}, "texts of the work at the end")
    ctx.nontrivial(len({a[0] for a in asked}) > 1 or len(asked) > 3)


def _cases():
    op = st.fixed_dictionaries({
        "do": st.sampled_from(["passage", "passage", "reffs", "siblings"]), "text": st.integers(0, 11), "usable": st.sampled_from([True] * 6 + [False]),
        "target": st.sampled_from(["version"] * 6 + ["work", "work", "unknown"]), "urn": st.booleans(), "a": st.integers(0, 40), "b": st.integers(0, 40),
        "reference": st.sampled_from(["none", "single", "single", "single", "range", "range", "deep", "nowhere"]), "string": st.booleans(), "level": st.integers(1, 3),
        "metadata": st.booleans(), "prevnext": st.booleans(), "positional": st.booleans(), "follow": st.booleans()})
    return st.builds(lambda c, ops: dict(c, ops=ops), corpora.corpora(max_dirs=2, big=True), st.lists(op, min_size=4, max_size=10))


SUBS = [
    Sub("serve", _cases, run, quick=500, thorough=8000, rule="several texts or more than three different requests"),
]
