""" C32 -- copies and pickles are equal to what they were made of, and independent of it """
import copy
import pickle

from hypothesis import strategies as st

from .. import dts, inventories as inv, support, texts
from ..common import LANGS
from ..engine import Sub, check, check_eq
from ..texts import ref
from .c11 import QUESTIONS, ask, attempt, move, plain_answer
from .c15 import build, classes

HOWS = {
    "pickle": lambda x: pickle.loads(pickle.dumps(x)),
    "protocol 2": lambda x: pickle.loads(pickle.dumps(x, 2)),
    "deepcopy": copy.deepcopy,
    "copy": copy.copy,
}
DEEP = ["pickle", "deepcopy", "protocol 2"]


# --- references and URNs -----------------------------------------------------------------------------------------

def make_reference(spec, kind):
    from MyCapytain.common.reference import BaseReference, CtsReference, DtsReference
    parts = [spec["a"]] + ([spec["b"]] if spec["b"] is not None else [])
    if kind == "cts":
        return CtsReference("-".join(parts))
    if kind == "base":
        return BaseReference(*parts)
    return DtsReference(*parts, **({"type_": spec["type"]} if spec["type"] is not None else {}))


def check_reference(got, spec, kind, what):
    """ A reference says what it was made with """
    check_eq(type(got).__name__, {"cts": "CtsReference", "base": "BaseReference", "dts": "DtsReference"}[kind], what + ": type")
    check_eq((got.start, got.end), (spec["a"], spec["b"]) if kind != "cts" else (got.start, got.end), what + ": start and end")
    check_eq(bool(got.is_range()), spec["b"] is not None, what + ": is_range")
    if kind == "cts":
        check_eq(str(got), "-".join([spec["a"]] + ([spec["b"]] if spec["b"] is not None else [])), what + ": as a string")
        check_eq((str(got.start), None if got.end is None else str(got.end)), (spec["a"], spec["b"]), what + ": start and end")
        check_eq(got.start.list, spec["a"].split("."), what + ": identifiers")
    if kind == "dts":
        check_eq(None if got.type is None else str(got.type), spec["type"], what + ": type of citation")


def run_references(case, ctx):
    from MyCapytain.common.reference import BaseReferenceSet, CtsReferenceSet, DtsCitation, DtsCitationSet, DtsReferenceSet, URN
    kind, how = case["kind"], case["how"]
    specs = case["refs"]
    refs = [make_reference(s, kind) for s in specs]
    clones = [HOWS[how](r) for r in refs]
    for s, r, c in zip(specs, refs, clones):
        what = "{} of {!r}".format(how, r)
        check_reference(c, s, kind, what)
        check(c == r and r == c and not c != r, "{}: {!r} is not equal", what, c)
        check_reference(HOWS[how](c), s, kind, what + " of a " + how)
    citation = DtsCitation(name="line") if kind == "dts" else None
    made = {"cts": CtsReferenceSet, "base": BaseReferenceSet, "dts": DtsReferenceSet}[kind](refs, level=case["level"], **({"citation": citation} if citation else {}))
    clone = HOWS[how](made)
    what = "{} of a set".format(how)
    check_eq(type(clone), type(made), what + ": type")
    check_eq(len(clone), len(specs), what + ": len")
    check_eq(clone.level, case["level"], what + ": level")
    check_eq(clone.citation.name if citation else clone.citation, "line" if citation else None, what + ": citation")
    for i, (s, c) in enumerate(zip(specs, clone)):
        check_reference(c, s, kind, "{}: member {}".format(what, i))
        check(c in made and refs[i] in clone, "{}: member {}", what, i)
    check(clone == made, "{}: not equal", what)
    if kind == "dts" and how != "copy":
        # what changes in the copies does not in the others
        for c in clones + list(clone):
            c.type = "changed"
        for i, (s, r, c) in enumerate(zip(specs, refs, clones)):
            check_reference(r, s, kind, "reference {} after its copies were changed".format(i))
            check_eq(str(c.type), "changed", "copy {} after it was changed".format(i))
    urn = URN(case["urn"])
    clone = HOWS[how](urn)
    check_eq(str(clone), case["urn"], "{} of a URN".format(how))
    check(clone == urn and not clone != urn, "{} of a URN: not equal", how)
    levels = [URN.NAMESPACE, URN.TEXTGROUP, URN.WORK, URN.VERSION, URN.PASSAGE_START, URN.PASSAGE_END, URN.NO_PASSAGE, URN.COMPLETE]

    def answers(u):
        return [plain_answer(attempt(lambda: u.upTo(level))) for level in levels] + [
            None if x is None else str(x) for x in (u.urn_namespace, u.namespace, u.textgroup, u.work, u.version, u.reference)] + [len(u)]
    check_eq(answers(clone), answers(URN(case["urn"])), "{} of {}".format(how, case["urn"]))
    if how != "copy":
        clone.namespace = "other"
        clone.textgroup = "changed"
        clone.reference = "9-10"
        check_eq((str(urn), answers(urn)), (case["urn"], answers(URN(case["urn"]))), "{} after its {} was changed".format(case["urn"], how))
    ctx.label(kind + " " + how)
    ctx.nontrivial(len(specs) > 1 and any(s["b"] is not None for s in specs))


# --- collections -------------------------------------------------------------------------------------------------

LABEL = "http://www.w3.org/2000/01/rdf-schema#label"


def nodes_of(top):
    return [top] + list(top.descendants)


def run_collections(case, ctx):
    from rdflib import URIRef
    from MyCapytain.common.constants import get_graph
    from MyCapytain.resources.collections.dts import DtsCollection
    how = case["how"]
    if case["dts"]:
        model = dts.name_ids(case["collection"])
        top = DtsCollection.parse(dts.Writer(case["style2"]).document(model))

        def verify(obj, what):
            dts.check_collection(obj, model, what)
    else:
        model = case["inventory"]
        writer = inv.Writer(case["style"])
        top = classes("xml")["inventory"].parse(writer.string(writer.inventory(model))) if case["made"] == "parse" else build(model, case["made"])

        def verify(obj, what):
            inv.check_inventory(obj, model, True)
    before = set(top.graph)
    everyone = nodes_of(top)
    origin = everyone[case["at"] % len(everyone)]
    if case["dts"]:
        # members of DTS collections may have several parents
        origin = top
    if case["reset"]:
        data = pickle.dumps(origin, 2 if how == "protocol 2" else pickle.DEFAULT_PROTOCOL) if how != "deepcopy" else None
        support.reset()
        clone = pickle.loads(data) if data is not None else copy.deepcopy(origin)
        check_eq(len(get_graph()), 0, "{}: the graph of the day has changed".format(how))
    else:
        clone = HOWS[how](origin)
    what = "{} of {!r}".format(how, origin)
    check_eq(type(clone), type(origin), what + ": type")
    check_eq(clone.id, origin.id, what + ": identifier")
    root = clone
    for _ in range(10):
        if case["dts"] or root.parent is None:
            break
        root = root.parent
    mine = nodes_of(root)
    check(not {id(x) for x in mine} & {id(x) for x in everyone}, "{}: shares collections with the original", what)
    check(not {id(x.metadata) for x in mine} & {id(x.metadata) for x in everyone}, "{}: shares metadata with the original", what)
    verify(root, what)
    check_eq(sum(x is clone for x in mine), 1, what + ": place in its tree")
    check_eq(set(top.graph), before, what + ": the original after it was copied")
    verify(top, what + ": the original after it was copied")
    # one of them changes
    one, other = (root, top) if case["which"] else (top, root)
    held = set(other.graph)
    same = one.graph is other.graph
    check(not same, "{}: shares the graph of the original", what)
    target = nodes_of(one)[case["edit"] % len(everyone)]
    lang, text = case["label"]
    target.set_label(text, lang)
    check(any(str(x) == text for x in target.graph.objects(target.asNode(), URIRef(LABEL))), "{}: label which was added", what)
    target.metadata.add(URIRef("http://ex.org/copied"), "1")
    if len(one.members) and case["drop"]:
        victim = one.members[case["edit"] % len(one.members)]
        del one[victim.id]
        check(victim.id not in one, "{}: {} has been removed", what, victim.id)
        ctx.label("removal")
    check_eq(set(other.graph), held, what + ": statements of the one, after the other was changed")
    verify(other, what + ": after the other was changed")
    ctx.label("DTS" if case["dts"] else "CTS", how, type(origin).__name__)
    ctx.nontrivial(len(everyone) > 1)


# --- texts -------------------------------------------------------------------------------------------------------

def run_texts(case, ctx):
    doc = texts.Document(case["doc"])
    urn = texts.urn_of(case)
    text = doc.text(urn=urn)
    paths = [p for p, _ in doc.units]

    def node_of(root):
        if case["node"] == "text":
            return root
        r = ref(paths[case["a"] % len(paths)])
        if case["node"] == "range":
            r = "{}-{}".format(*[ref(p) for p in doc.pick_range(case["a"], case["b"])])
        return move(root, {"do": "get", "ref": r, "how": case["node"]})

    def arg(q):
        return {"ref": ref(paths[q["a"] % len(paths)]) if q["ref"] else None, "level": q["level"]}

    def answers(node, questions):
        return [attempt(lambda: plain_answer(ask(node, q["question"], arg(q)))) for q in questions
                # the element of a simple passage sees the rest of its document, its copy does not
                if not (q["question"] == "whole" and case["node"] != "text" or q["question"] == "xpath" and case["node"] == "simple")]
    node = node_of(text)
    answers(node, case["before"])
    # trees of lxml.etree (the user's own) have no pickle, those of lxml.objectify (which the library parses) have, but for
    # elements which are followed by text
    how = case["how"] if case["node"] != "simple" and (hasattr(text.resource, "pyval") or hasattr(text.resource, "countchildren")) else "deepcopy"
    clone = HOWS[how](node)
    what = "{} of {} ({!r})".format(how, case["node"], node)
    check_eq(type(clone), type(node), what + ": type")
    asked = case["before"] + case["after"]
    expected = answers(node_of(doc.text(urn=urn)), asked)
    check_eq(answers(clone, asked), expected, what)
    check_eq(answers(node, asked), expected, what + ": the original")
    # all that the copy has is taken away
    root = clone.resource.getroot() if hasattr(clone.resource, "getroot") else clone.resource
    for child in list(root.iterchildren()):
        root.remove(child)
    check_eq(answers(node, asked), expected, what + ": the original after the copy was emptied")
    doc.check_unchanged(text)
    ctx.label(how, case["node"])
    ctx.nontrivial(doc.depth > 1 and len(doc.units) > 3)


# --- cases -------------------------------------------------------------------------------------------------------

def _references():
    ident = st.sampled_from(["1", "2", "1.1", "10.2", "1.2.3", "Av", "1.pr", "α.1"])
    spec = st.fixed_dictionaries({"a": ident, "b": st.one_of(st.none(), ident), "type": st.sampled_from([None, "line", "book", "Zeile"])})
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["dts", "dts", "cts", "base"]), "how": st.sampled_from(sorted(HOWS)), "level": st.integers(1, 3), "refs": st.integers(0, 5).flatmap(lambda n: st.lists(spec, min_size=n, max_size=n)),
        "urn": st.sampled_from(["urn:cts:greekLit", "urn:cts:greekLit:tlg0012", "urn:cts:greekLit:tlg0012.tlg001", "urn:cts:greekLit:tlg0012.tlg001.mth-01", "urn:cts:greekLit:tlg0012.tlg001.mth-01:1.1",
                                "urn:cts:greekLit:tlg0012.tlg001.mth-01:1.1@Achilles[1]-1.10@the[2]", "urn:cts:greekLit:tlg0012.tlg001:1-2"])})


def _collections():
    common = {"how": st.sampled_from(DEEP), "reset": st.booleans(), "at": st.integers(0, 20), "which": st.booleans(), "edit": st.integers(0, 20), "drop": st.booleans(),
              "label": st.tuples(st.sampled_from(LANGS[:3]), st.sampled_from(["Copy", "A & B"])).map(list)}
    return st.sampled_from([True, False, False]).flatmap(lambda is_dts: st.fixed_dictionaries(
        dict(common, dts=st.just(True), collection=dts.collections(2), style2=dts.styles()) if is_dts else
        dict(common, dts=st.just(False), inventory=inv.inventories(max_tg=2), style=inv.xml_style(), made=st.sampled_from(["parse", "xml", "proto"]))))


def _texts():
    question = st.fixed_dictionaries({"question": st.sampled_from(QUESTIONS), "level": st.sampled_from([1, 1, 2, 0]), "ref": st.booleans(), "a": st.integers(0, 40)})
    return st.fixed_dictionaries({
        "doc": texts.documents(max_depth=3), "urn": texts.urns(), "node": st.sampled_from(["text", "ref", "simple", "range", "none"]), "how": st.sampled_from(DEEP),
        "a": st.integers(0, 40), "b": st.integers(0, 40), "before": st.lists(question, max_size=3), "after": st.integers(1, 5).flatmap(lambda n: st.lists(question, min_size=n, max_size=n))})


SUBS = [
    Sub("references", _references, run_references, quick=500, thorough=20000, rule="two references or more, one of them a range"),
    Sub("collections", _collections, run_collections, quick=300, thorough=6000, rule="two collections or more"),
    Sub("texts", _texts, run_texts, quick=300, thorough=9000, rule="two levels or more and more than three units"),
]
