""" C05 -- DTS citation structures and DTS references """
import copy
import json
import pickle

from hypothesis import strategies as st

from ..common import _COMPONENTS
from ..engine import Sub, check, check_eq, raises

DTS = "https://w3id.org/dts/api#"
_NAMES = st.sampled_from(["book", "poem", "line", "front", "paragraph", "word", "chapter", "section", "κῶλον", "a & b", "act"])


@st.composite
def _forest(draw, depth=4, min_size=0):
    size = draw(st.integers(min_size, 3))
    out = []
    for _ in range(size):
        node = {"name": draw(_NAMES), "children": []}
        if depth > 1 and draw(st.booleans()):
            node["children"] = draw(_FORESTS[depth - 1])
        out.append(node)
    return out


_FORESTS = {}
for _d in range(1, 5):
    _FORESTS[_d] = _forest(_d)


@st.composite
def _deep_forest(draw):
    """ A forest, one in five times held under a chain of more levels """
    forest = draw(_FORESTS[4])
    if draw(st.integers(0, 4)) == 4:
        for name in draw(st.lists(_NAMES, min_size=1, max_size=5)):
            forest = [{"name": name, "children": forest}] + draw(st.sampled_from([[], [], [{"name": "appendix", "children": []}]]))
    return forest


def walk(forest):
    for node in forest:
        yield node
        for sub in walk(node["children"]):
            yield sub


def depth(forest):
    return 0 if not forest else 1 + max(depth(n["children"]) for n in forest)


def level(forest, i):
    if i == 0:
        return [n["name"] for n in forest]
    out = []
    for n in forest:
        out.extend(level(n["children"], i - 1))
    return out


def compact(forest, singles, prefix):
    out = []
    for n in forest:
        d = {prefix + "citeType": n["name"]}
        if n["children"]:
            d[prefix + "citeStructure"] = compact(n["children"], singles, prefix)
        out.append(d)
    if singles and len(out) == 1:
        return out[0]
    return out


def expanded(forest):
    return [
        dict([(DTS + "citeType", [{"@value": n["name"]}])] +
             ([(DTS + "citeStructure", expanded(n["children"]))] if n["children"] else []))
        for n in forest]


def check_citations(cset, forest, where, root=None, announced=None):
    """ :param announced: depth which the endpoint announced """
    from MyCapytain.common.reference import DtsCitation
    from MyCapytain.errors import CitationDepthError
    root = root if root is not None else cset
    nodes = list(walk(forest))
    got = list(cset)
    check_eq([c.name for c in got], [n["name"] for n in nodes], where + ": iteration (document order)")
    check_eq(len(cset), len(nodes), where + ": len")
    check_eq(cset.depth, announced or depth(forest), where + ": depth")
    check_eq(bool(cset.is_empty()), not forest, where + ": is_empty")
    check(bool(cset.is_root()), "{}: the set is not the root", where)
    check_eq([c.name for c in cset.children], [n["name"] for n in forest], where + ": children")
    d = depth(forest)
    for i in range(d + 2):
        check_eq([c.name for c in cset[i]], level(forest, i), "{}: level {}".format(where, i))
    for i in range(1, d + 1):
        check_eq([c.name for c in cset[-i]], level(forest, d - i), "{}: level -{}".format(where, i))
    raises(CitationDepthError, where + ": negative level out of bound", lambda: list(cset[-d - 1]))
    for c, n in zip(got, nodes):
        w = where + ": citation " + n["name"]
        check(isinstance(c, DtsCitation), "{} is a {}", w, type(c))
        check(c.root is root, "{}: root is {!r}", w, c.root)
        check(not c.is_root() and c.is_set(), "{}: is_root / is_set", w)
        check_eq(bool(c.is_empty()), not n["children"], w + ": is_empty")
        check_eq([x.name for x in c.children], [x["name"] for x in n["children"]], w + ": children")
        check_eq(c.depth, 1 + depth(n["children"]), w + ": depth")
        check_eq(len(c), len(list(walk(n["children"]))), w + ": len")
        check_eq([x.name for x in c], [n["name"]] + [x["name"] for x in walk(n["children"])], w + ": iteration")
        for i in range(depth(n["children"]) + 1):
            check_eq([x.name for x in c[i]], level(n["children"], i), "{}: level {}".format(w, i))
        below = depth(n["children"])
        for i in range(1, below + 1):
            check_eq([x.name for x in c[-i]], level(n["children"], below - i), "{}: level -{}".format(w, i))
        raises(CitationDepthError, w + ": negative level out of bound", lambda: list(c[-below - 1]))


def construct(forest):
    from MyCapytain.common.reference import DtsCitation
    return [DtsCitation(name=n["name"], children=construct(n["children"])) for n in forest]


def run_citations(case, ctx):
    from pyld import jsonld
    from MyCapytain.common.constants import Mimetypes, get_graph
    from MyCapytain.common.reference import DtsCitationSet
    forest = case["forest"]
    # expanded JSON-LD
    check_citations(DtsCitationSet.ingest(expanded(forest)), forest, "ingested")
    # compact JSON-LD, as endpoints send it
    if forest:
        doc = {"@context": {"dts": DTS}, "dts:citeStructure": compact(forest, case["singles"], "dts:")}
        exp = jsonld.expand(doc)[0][DTS + "citeStructure"]
        cset = DtsCitationSet.ingest(exp)
        check_citations(cset, forest, "ingested after expansion")
    else:
        cset = DtsCitationSet.ingest([])
    # built by hand
    check_citations(DtsCitationSet(children=construct(forest)), forest, "built")
    # exported
    prefix = str(get_graph().namespace_manager.qname(DTS + "citeType")).split(":")[0] + ":"
    out = cset.export(Mimetypes.JSON.DTS.Std)
    check_eq(json.loads(json.dumps(out)), compact(forest, False, prefix), "DTS JSON export")
    if forest:
        out = cset.export(Mimetypes.JSON.DTS.Std, context=True)
        exp = jsonld.expand(json.loads(json.dumps(out)))
        check_eq(exp, [{DTS + "citeStructure": expanded(forest)}], "DTS JSON export, expanded")
        check_citations(DtsCitationSet.ingest(exp[0][DTS + "citeStructure"]), forest, "exported and ingested again")
        for c, n in zip(cset, walk(forest)):
            check_eq(c.export(Mimetypes.JSON.DTS.Std), compact([n], True, prefix) if not n["children"] else
                     dict(compact([dict(n, children=[])], True, prefix),
                          **{prefix + "citeStructure": compact(n["children"], False, prefix)}), "export of one citation")
    # with the prefixes of somebody else
    if forest:
        from rdflib import Graph
        from rdflib.namespace import NamespaceManager
        nsm = NamespaceManager(Graph())
        nsm.bind(case["prefix"], DTS, override=True, replace=True)
        for what, out, exp in [("set", cset.export(Mimetypes.JSON.DTS.Std, context=True, namespace_manager=nsm), {DTS + "citeStructure": expanded(forest)})] + [
                ("citation", c.export(Mimetypes.JSON.DTS.Std, context=True, namespace_manager=nsm), expanded([n])[0]) for c, n in zip(cset, walk(forest))]:
            check_eq(jsonld.expand(json.loads(json.dumps(out))), [exp], "DTS JSON export of a {} with its own prefixes".format(what))
        check_eq(cset.export(Mimetypes.JSON.DTS.Std, namespace_manager=nsm), compact(forest, False, case["prefix"] + ":"), "DTS JSON export with its own prefixes")
    # copies are complete structures of their own
    for kind, clone in (("pickle", pickle.loads(pickle.dumps(cset))), ("deepcopy", copy.deepcopy(cset))):
        check_citations(clone, forest, kind)
        check(not {id(c) for c in clone} & {id(c) for c in cset}, "{}: shares citations", kind)
        clone.children = []
    check_citations(cset, forest, "after its copies were changed")
    if case["depth"] is not None:
        cset.depth = case["depth"]
        check_eq(cset.depth, case["depth"], "depth as given by the endpoint")
    ctx.label("nodes{}".format(min(10, len(list(walk(forest))))), "depth{}".format(depth(forest)))
    ctx.nontrivial(depth(forest) > 1)


def run_assembly(case, ctx):
    """ Citations put together, in any order and with any of the ways to do so, and moved from one set to another """
    from MyCapytain.common.reference import DtsCitation, DtsCitationSet
    sets = [DtsCitationSet() for _ in range(2)]
    models = [[], []]
    nodes = []  # (object, model)
    place = {}  # index of a node -> ("set", i) or ("node", j)
    for name, how in case["nodes"]:
        root = None if how is None else sets[how]
        nodes.append((DtsCitation(name) if root is None else DtsCitation(name=name, root=root), {"name": name, "children": []}))

    def target(where):
        return (sets[where[1]], models[where[1]]) if where[0] == "set" else (nodes[where[1]][0], nodes[where[1]][1]["children"])

    def top(where):
        while where is not None and where[0] == "node" and place.get(where[1]) is not None:
            where = place[where[1]]
        return where

    def inside(i, where):
        """ Is this place the node i, or in it? """
        while where is not None and where[0] == "node":
            if where[1] == i:
                return True
            where = place.get(where[1])
        return False

    moved = False
    for i, where, way in case["steps"]:
        where = tuple(where)
        if inside(i, where):
            continue
        obj, model = nodes[i]
        if place.get(i) is not None:
            old, siblings = target(place[i])
            siblings[:] = [m for m in siblings if m is not model]
            old.children = [c for c in old.children if c is not obj]
            moved = True
        new, siblings = target(where)
        if way == "add":
            new.add_child(obj)
        else:
            new.children = list(new.children) + ([None] if way == "none" else []) + [obj]
        siblings.append(model)
        place[i] = where
        # all of what is in the tree where the node is now
        at = top(where)
        if at[0] == "set":
            check_citations(sets[at[1]], models[at[1]], "assembled")
        else:
            tree = nodes[at[1]][0]
            check_eq([c.name for c in tree], [n["name"] for n in walk([nodes[at[1]][1]])], "assembled: iteration of a citation")
            if case["nodes"][at[1]][1] is None and not moved:
                check(all(c.root is tree for c in tree), "assembled: roots {!r}", [c.root for c in tree])
    if case["wrap"]:
        # all of what is left alone, in a set
        left = [n for i, n in enumerate(nodes) if place.get(i) is None]
        check_citations(DtsCitationSet(children=[o for o, _ in left]), [m for _, m in left], "assembled, all in a set")
    for cset, model in zip(sets, models):
        check_citations(cset, model, "assembled, in the end")
    ctx.label("moved" if moved else "built")
    ctx.nontrivial(max(depth(m) for m in models) > 1)


def run_equality(case, ctx):
    from MyCapytain.common.reference import DtsCitation, DtsCitationSet
    a, b = case["a"], case["b"]
    ca, cb = construct([a])[0], construct([b])[0]
    check_eq(ca == cb, a == b, "equality of two citations")
    check_eq(cb == ca, a == b, "equality of two citations (reversed)")
    check_eq(ca != cb, a != b, "inequality of two citations")
    check(ca == ca, "a citation equals itself")
    check(not (ca == a["name"]), "a citation is not a string")
    cset = DtsCitationSet(children=construct([a, b]))
    x, y = cset.children
    check_eq(x == y, a == b, "equality of two citations of one set")
    # below a citation: the structures to which they belong count
    top = {"name": case["top"], "children": [a, b]}
    for other in (top, {"name": case["top2"], "children": [a, b]}, {"name": case["top"], "children": [b, a]}, {"name": case["top"], "children": [a, b, a]}):
        for below, model in zip(construct([top])[0].children, top["children"]):
            for one, its in zip(construct([other])[0].children, other["children"]):
                check_eq(below == one, model == its and other == top, "equality of citations below {} and {}".format(top, other))
            check(not (below == construct([model])[0]), "a citation below another one equals one which is alone")
            check(not (construct([model])[0] == below), "a citation which is alone equals one below another one")
    ctx.label("equal" if a == b else "different")
    ctx.nontrivial(len(a["children"]) > 0)


def run_references(case, ctx):
    from rdflib import URIRef
    from MyCapytain.common.reference import DtsReference, DtsReferenceSet, DtsCitation
    from MyCapytain.common.metadata import Metadata
    dct = URIRef("http://purl.org/dc/terms/title")
    specs = []
    for r in case["refs"]:
        if r not in specs:
            specs.append(r)

    def make(r):
        args = [r["start"]] if r["end"] is None else [r["start"], r["end"]]
        kw = {}
        if r["title"] is not None:
            m = Metadata()
            m.add(dct, r["title"])
            kw["metadata"] = m
        return DtsReference(*args, type_=r["type"], **kw)

    refs = [make(r) for r in specs]
    for ref, r in zip(refs, specs):
        check_eq(ref.start, r["start"], "start")
        check_eq(ref.end, r["end"], "end")
        check_eq(bool(ref.is_range()), r["end"] is not None, "is_range")
        check_eq(None if ref.type is None else str(ref.type), r["type"], "type")
        got = ref.metadata.get_single(dct)
        check_eq(None if got is None else str(got), r["title"], "metadata")
    # references do not share their metadata
    key = [(r["start"], r["end"], r["type"]) for r in specs]
    for i, a in enumerate(refs):
        for j, b in enumerate(refs):
            check_eq(a == b, key[i] == key[j], "equality of {} and {}".format(key[i], key[j]))
            check_eq(a != b, key[i] != key[j], "inequality of {} and {}".format(key[i], key[j]))
        for other in (specs[i]["start"], (specs[i]["start"], specs[i]["end"]), None):
            check(not (a == other) and a != other, "a reference equals {!r}", other)
    check_eq(make(specs[0]), refs[0], "an identical reference")
    citation = DtsCitation("poem")
    for how in ("star", "list"):
        if how == "star":
            rset = DtsReferenceSet(*refs, citation=citation, level=case["level"])
        else:
            rset = DtsReferenceSet(list(refs), citation=citation, level=case["level"])
        check_eq(len(rset), len(refs), how + ": size")
        check_eq([tuple(x) for x in rset], [(r["start"], r["end"]) for r in specs], how + ": members")
        check(rset.citation is citation, "{}: citation", how)
        check_eq(rset.level, case["level"], how + ": level")
        for r, ref in zip(specs, refs):
            check(make(r) in rset, "{}: member not found {}", how, r)
            if r["type"] is None and r["end"] is None:
                check(r["start"] in rset, "{}: identifier {} not found", how, r["start"])
        absent = case["absent"]
        if absent not in [r["start"] for r in specs]:
            check(absent not in rset, "{}: {} found", how, absent)
        same = DtsReferenceSet(*[make(r) for r in specs], citation=DtsCitation("poem"), level=case["level"])
        check(rset == same and not (rset != same), "{}: equal sets differ", how)
        for name, other in (("level", DtsReferenceSet(*refs, citation=citation, level=case["level"] + 1)),
                            ("citation", DtsReferenceSet(*refs, citation=DtsCitation("line"), level=case["level"])),
                            ("member", DtsReferenceSet(*(refs + [DtsReference("zzz")]), citation=citation, level=case["level"])),
                            ("class", tuple(refs)), ("class", str(rset)), ("class", None)):
            check(not (rset == other) and rset != other, "{}: a set equals another one, whose {} is different", how, name)
    ctx.label("size{}".format(len(refs)))
    ctx.nontrivial(any(r["end"] or r["type"] for r in specs))


def _citations():
    return st.fixed_dictionaries({"forest": _deep_forest(), "singles": st.booleans(),
                                  "depth": st.sampled_from([None, 1, 4]), "prefix": st.sampled_from(["dts", "d", "x"])})


@st.composite
def _equality(draw):
    def one():
        return {"name": draw(_NAMES), "children": draw(_FORESTS[3])}
    a = one()
    kind = draw(st.sampled_from(["same", "name", "other", "children"]))
    if kind == "same":
        b = a
    elif kind == "name":
        b = dict(a, name=draw(_NAMES))
    elif kind == "children":
        b = dict(a, children=draw(_FORESTS[2]))
    else:
        b = one()
    return {"a": a, "b": b, "top": draw(_NAMES), "top2": draw(_NAMES)}


def _references():
    ref = st.fixed_dictionaries({
        "start": _COMPONENTS, "end": st.one_of(st.none(), st.none(), _COMPONENTS),
        "type": st.one_of(st.none(), st.sampled_from(["poem", "line", "letter"])),
        "title": st.one_of(st.none(), st.sampled_from(["T1", "T2"]))})
    return st.fixed_dictionaries({"refs": st.lists(ref, min_size=1, max_size=5), "level": st.integers(1, 4),
                                  "absent": _COMPONENTS})


def _assembly():
    nodes = st.integers(2, 6).flatmap(lambda n: st.lists(st.tuples(_NAMES, st.sampled_from([None, None, None, 0, 1])), min_size=n, max_size=n))

    def steps(nodes):
        n = len(nodes)
        where = st.one_of(st.integers(0, 1).map(lambda i: ("set", i)), st.integers(0, n - 1).map(lambda i: ("node", i)))
        step = st.tuples(st.integers(0, n - 1), where, st.sampled_from(["add", "children", "none"]))
        return st.fixed_dictionaries({"nodes": st.just(nodes), "wrap": st.booleans(),
                                      "steps": st.integers(3, 10).flatmap(lambda k: st.lists(step, min_size=k, max_size=k))})
    return nodes.flatmap(steps)


SUBS = [
    Sub("assembly", _assembly, run_assembly, quick=500, rule="citations of two levels in a set"),
    Sub("citations", _citations, run_citations, quick=700, rule="two levels of citation or more"),
    Sub("equality", _equality, run_equality, quick=500, rule="the first citation has children"),
    Sub("references", _references, run_references, quick=500, rule="a range or a typed reference"),
]
