""" C20 -- parsing a DTS collection yields exactly what the document says """
import copy

from hypothesis import strategies as st

from .. import dts
from ..engine import Sub, check, check_eq, raises


def run(case, ctx):
    from MyCapytain.errors import JsonLdCollectionMissing
    from MyCapytain.resources.collections.dts import DtsCollection

    class Own(DtsCollection):
        """ members are of the class which parses """

    cls = Own if case["subclass"] else DtsCollection
    model = dts.name_ids(case["collection"])
    doc = dts.Writer(case["style"]).document(model)
    before = copy.deepcopy(doc)
    direction = case["direction"]
    if direction == "parents":
        obj = cls.parse(doc, direction="parents")
    elif direction == "children":
        obj = cls.parse(doc, direction="children")
    else:
        obj = cls.parse(doc)
    check_eq(doc, before, "the document has changed")
    where = model["id"]
    if direction == "parents":
        dts.check_collection(obj, model, where, cls, members=False)
        check_eq(obj.members, [], where + ": members")
        check_eq(sorted(p.id for p in obj.parents), sorted(m["id"] for m in model["members"]), where + ": parents")
        by_id = {p.id: p for p in obj.parents}
        for m in model["members"]:
            dts.check_collection(by_id[m["id"]], m, "parent " + m["id"], cls)
            check_eq(len(by_id[m["id"]].parents), 0, "parents of the parent")
    else:
        dts.check_collection(obj, model, where, cls)
        check_eq(len(obj.parents), 0, where + ": parents")
        raises(NotImplementedError, "parent", lambda: obj.parent)
        check(obj.retrieve() is True, "retrieve()")
        if case["delete"] and len(model["members"]):
            victim = model["members"][case["delete"] % len(model["members"])]
            del obj[victim["id"]]
            model["members"].remove(victim)
            check(victim["id"] not in obj, "{} has been removed", victim["id"])
            dts.check_collection(obj, model, where + " (after removal)", cls)
            ctx.label("removal")
    raises(JsonLdCollectionMissing, "empty document", cls.parse, {})
    ctx.label(direction or "default direction", "hydra " + case["style"]["hydra"], "dts " + case["style"]["dts"])
    n = len(list(dts.walk(model)))
    ctx.label("members" if n > 1 else "no member")
    if case["style"]["ids"]:
        ctx.label("compact identifiers")
    ctx.nontrivial(n > 1 or len(model["dublincore"]) > 0 or len(model["cite"]) > 0)


def run_forms(case, ctx):
    """ two forms of the same document are the same collection """
    from rdflib.compare import isomorphic
    from pyld import jsonld
    from MyCapytain.common.constants import set_graph, bind_graph, get_graph
    from MyCapytain.resources.collections.dts import DtsCollection
    model = dts.name_ids(case["collection"])
    graphs, objs = [], []
    for style in case["styles"]:
        set_graph(bind_graph())
        doc = dts.Writer(style).document(model)
        if case["expand"]:
            doc = jsonld.expand(doc)[0]
        objs.append(DtsCollection.parse(doc))
        graphs.append(get_graph())
    check(isomorphic(graphs[0], graphs[1]), "two forms of a document: statements {!r}\n and {!r}", sorted(graphs[0]), sorted(graphs[1]))
    check_eq(*[[(c.name, c.depth) for c in o.citation] for o in objs], "two forms of a document: citations")
    ctx.nontrivial(case["styles"][0] != case["styles"][1])


def _cases():
    return st.fixed_dictionaries({
        "collection": dts.collections(3), "style": dts.styles(), "direction": st.sampled_from([None, "children", "children", "parents"]),
        "subclass": st.booleans(), "delete": st.integers(0, 3)})


def _forms():
    # without titles in a language: those are told apart by their form
    return st.fixed_dictionaries({"collection": dts.collections(2), "styles": st.lists(dts.styles(), min_size=2, max_size=2), "expand": st.booleans()})


def run_relative(case, ctx):
    """ known finding: the members of a document get a leading slash when their identifier is relative """
    from MyCapytain.resources.collections.dts import DtsCollection
    doc = {"@context": {"@vocab": dts.HYDRA}, "@id": "general", "@type": "Collection", "title": "T", "totalItems": 1,
           "member": [{"@id": case["id"], "@type": "Collection", "title": "T", "totalItems": 0}]}
    check_eq([m.id for m in DtsCollection.parse(doc).members], [case["id"]], "identifiers of the members")


PROBES = {"relative-members": run_relative}

SUBS = [
    Sub("parse", _cases, run, quick=700, thorough=14000, rule="members, dublincore or citation structure"),
    Sub("forms", _forms, run_forms, quick=240, thorough=5000, rule="the two forms differ"),
]
