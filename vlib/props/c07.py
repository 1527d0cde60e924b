""" C07 -- retrieving one passage of a local text """
from hypothesis import strategies as st

from .. import texts
from ..engine import Sub, check, check_eq, raises
from ..texts import ref


def shell(doc, path, inner):
    """ Copies of the ancestors of a unit, with their attributes, around inner """
    out = inner
    for node in reversed(doc.chain(path)[:-1]):
        out = (node.tag, tuple(sorted(node.attrs.items())), (out,))
    return out


def check_passage(doc, passage, path, urn, what):
    unit = doc.canon(doc.by_path[path])
    check_eq(doc.canon(passage.resource), shell(doc, path, unit), what + ": tree of the passage")
    check_head(doc, passage, path, urn, what)
    check_eq(passage.export("text/plain", exclude=[]).split(), texts.plain_canon(unit).split(), what + ": plain text")


def check_head(doc, passage, path, urn, what):
    check_eq(str(passage.reference), ref(path), what + ": reference")
    check_eq(passage.depth, len(path), what + ": depth")
    check_eq(passage.citation.name, doc.levels[len(path) - 1]["name"], what + ": citation level")
    check_eq(None if passage.urn is None else str(passage.urn), "{}:{}".format(urn, ref(path)) if urn else None, what + ": URN")


def check_simple(doc, passage, path, urn, what):
    check_eq(doc.canon(passage.resource), doc.canon(doc.by_path[path]), what + ": content of the simple passage")
    check_head(doc, passage, path, urn, what)
    check_eq(passage.export("text/plain", exclude=[]).split(), texts.plain_canon(doc.canon(doc.by_path[path])).split(), what + ": plain text of the simple passage")


def run(case, ctx):
    from MyCapytain.common.reference import Citation, CtsReference
    from MyCapytain.errors import CitationDepthError, MyCapytainException, RefsDeclError
    from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
    doc = texts.Document(case["doc"])
    urn = texts.urn_of(case)
    text = doc.text(urn=urn)
    any_error = (Exception, MyCapytainException)
    start = case["from"] % len(doc.units)
    chosen = [p for p, _ in (doc.units[start:] + doc.units[:start])[:10]]
    last = None
    for i, path in enumerate(chosen):
        r = ref(path)
        passage = text.getTextualNode(CtsReference(r))
        check_passage(doc, passage, path, urn, r)
        check_simple(doc, text.getTextualNode(CtsReference(r), simple=True), path, urn, r + " (simple)")
        kind = case["kinds"][i % len(case["kinds"])]
        if kind == "string":
            check_passage(doc, text.getTextualNode(r), path, urn, r + " as a string")
            check_simple(doc, text.getTextualNode(r, simple=True), path, urn, r + " as a string, simple")
        elif kind == "list":
            given = list(path)
            check_passage(doc, text.getTextualNode(given), path, urn, r + " as a list")
            check_simple(doc, text.getTextualNode(given, simple=True), path, urn, r + " as a list, simple")
            check_eq(given, list(path), r + ": the list given")
        elif kind == "from passage" and last is not None:
            check_passage(doc, last.getTextualNode(CtsReference(r)), path, urn, r + " asked to the passage " + str(last.reference))
            check_passage(doc, last.getTextualNode(r), path, urn, r + " (string) asked to the passage " + str(last.reference))
        elif kind == "from simple":
            other = text.getTextualNode(CtsReference(ref(chosen[0])), simple=True)
            check_passage(doc, other.getTextualNode(CtsReference(r)), path, urn, r + " asked to the simple passage " + ref(chosen[0]))
        elif kind == "reparse":
            again = CapitainsCtsText(resource=passage.export("text/xml"), citation=text.citation, urn=urn)
            check_eq([str(x) for x in again.getReffs(level=len(path))], [r], r + ": references in the XML of the passage")
            for level in range(len(path) + 1, doc.depth + 1):
                below = doc.below(path, level)
                if below:
                    check_eq([str(x) for x in again.getReffs(level=level)], [ref(p) for p in below], r + ": references in the XML of the passage")
            simple = text.getTextualNode(CtsReference(r), simple=True).export("text/xml")
            got = texts.canon_lxml(texts.resource(simple, "etree"))
            unit = texts.canon_model(doc.by_path[path])
            check_eq(texts.drop_blanks(got), texts.drop_blanks(unit), r + ": XML of the simple passage")
        ctx.label(kind)
        last = passage
    # whole text
    whole = text.getTextualNode()
    check_eq(doc.canon(whole.resource), doc.canon(doc.root), "whole text")
    check_eq(None if whole.urn is None else str(whole.urn), urn, "URN of the whole text")
    # too deep
    path = chosen[0]
    deep = path + ("1",) * (doc.depth + 1 - len(path))
    raises(CitationDepthError, "too deep: " + ref(deep), text.getTextualNode, ref(deep))
    raises(CitationDepthError, "too deep, simple: " + ref(deep), text.getTextualNode, CtsReference(ref(deep)), simple=True)
    # unknown
    for i in range(len(path)):
        unknown = ref(path[:i] + ("zz9",) + path[i + 1:])
        raises(any_error, "unknown " + unknown, text.getTextualNode, CtsReference(unknown))
        raises(any_error, "unknown, simple " + unknown, text.getTextualNode, unknown, simple=True)
    doc.check_unchanged(text)
    # declarations which lead nowhere
    check_eq(text.test(), None, "test of a text with units")
    nowhere = Citation(name="x", refsDecl="#xpath(/tei:TEI/tei:nothing/tei:div[@n='$1'])")
    raises(RefsDeclError, "test of a text whose declaration leads nowhere", CapitainsCtsText(resource=doc.source(), citation=nowhere).test)
    check(chosen, "a text without unit")
    ctx.label("depth{}".format(doc.depth), case["doc"]["source"], "urn" if urn else "no urn", *(["urn of a work"] if urn == texts.URNS[2] else []))
    if any(lv["glue"] == "//" for lv in doc.levels):
        ctx.label("//")
    ctx.nontrivial(doc.depth > 1 and len(doc.units) > 4)


def _cases():
    return st.fixed_dictionaries({
        "doc": texts.documents(), "from": st.integers(0, 40), "urn": texts.urns(),
        "kinds": st.lists(st.sampled_from(["plain", "string", "list", "from passage", "from simple", "reparse"]), min_size=1, max_size=4)})


SUBS = [
    Sub("passages", _cases, run, quick=1000, thorough=20000, rule="two levels or more and more than four units"),
]
