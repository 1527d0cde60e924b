""" C08 -- retrieving a range of passages of a local text """
from hypothesis import strategies as st

from .. import texts
from ..engine import Sub, Violation, check_eq, raises
from ..texts import Node, ref


def match(doc, got, node, s, e, where):
    """ got (canonical) is the part of `node` which goes from the chain s to the chain e

    :param s: elements which lead to the start within node; None when the start lies before node
    :param e: elements which lead to the end within node; None when the end lies after node
    """
    if (s is not None and not s) or (e is not None and not e) or (s is None and e is None):
        check_eq(got, doc.canon(node), where + ": content of an element of the range")
        return
    check_eq(got[0], node.tag, where + ": tag of an ancestor")
    check_eq(got[1], tuple(sorted(node.attrs.items())), where + ": attributes of the ancestor " + node.tag)
    lo, hi = 0, len(node.content)
    if s is not None:
        lo = [i for i, c in enumerate(node.content) if c is s[0]][0]
    if e is not None:
        hi = [i for i, c in enumerate(node.content) if c is e[0]][0] + 1
    kept = node.content[lo:hi]
    elements = [c for c in kept if isinstance(c, Node) and c.tag[0] != "#"]
    got_elements = [c for c in got[2] if not isinstance(c, str) and c[0][0] != "#"]
    check_eq([(c[0], c[1]) for c in got_elements], [(c.tag, tuple(sorted(c.attrs.items()))) for c in elements],
             "{}: elements below {}".format(where, node.tag))
    for g, n in zip(got_elements, elements):
        match(doc, g, n, s[1:] if s is not None and n is s[0] else None, e[1:] if e is not None and n is e[0] else None, where)
    allowed = "".join(c for c in kept if isinstance(c, str)).split()
    for c in got[2]:
        if isinstance(c, str):
            for word in c.split():
                if word not in allowed:
                    raise Violation("{}: text {!r} which is not between the start and the end".format(where, c))


def run(case, ctx):
    from MyCapytain.common.reference import CtsReference
    from MyCapytain.errors import CitationDepthError, MyCapytainException
    from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
    doc = texts.Document(case["doc"])
    urn = texts.urn_of(case)
    text = doc.text(urn=urn)
    for i, (a, b) in enumerate(case["ranges"]):
        start, end = doc.pick_range(a, b)
        r = "{}-{}".format(ref(start), ref(end))
        kind = case["kinds"][i % len(case["kinds"])]
        if kind == "words":
            r = "{}@Arma[1]-{}@cano".format(ref(start), ref(end))
        if kind == "string":
            passage = text.getTextualNode(r)
        elif kind == "from passage":
            passage = text.getTextualNode(CtsReference(ref(doc.units[a % len(doc.units)][0]))).getTextualNode(CtsReference(r))
        elif kind == "from range":
            passage = text.getTextualNode(r).getTextualNode(r)
        else:
            passage = text.getTextualNode(CtsReference(r))
        match(doc, doc.canon(passage.resource), doc.root, doc.chain(start)[1:], doc.chain(end)[1:], r)
        check_eq(str(passage.reference), r, r + ": reference")
        check_eq(None if passage.urn is None else str(passage.urn), "{}:{}".format(urn, r) if urn else None, r + ": URN")
        check_eq(passage.depth, len(start), r + ": depth")
        # What a reader of the XML finds in there
        again = CapitainsCtsText(resource=texts.resource(passage.export("text/xml"), case["reader"]), citation=text.citation)
        for level in range(1, doc.depth + 1):
            exp = doc.between(start, end, level)
            try:
                got = [str(x) for x in again.getReffs(level=level)]
            except KeyError:
                got = []
            check_eq(got, [ref(p) for p in exp], "{}: references of level {} in the XML of the range".format(r, level))
        inside = doc.between(start, end, len(start))
        one = inside[b % len(inside)]
        if not (len(end) > len(one) and end[:len(one)] == one):
            got = texts.drop_blanks(texts.canon_lxml(again.getTextualNode(ref(one), simple=True).resource))
            check_eq(got, texts.drop_blanks(doc.canon(doc.by_path[one])), "{}: content of {} in the XML of the range".format(r, ref(one)))
        ctx.label(kind, "a-a" if start == end else ("same level" if len(start) == len(end) else "mixed levels"),
                  "size{}".format(min(8, len(doc.between(start, end, doc.depth)))),
                  "same parent" if start[:-1] == end[:-1] else "across parents")
        ctx.nontrivial(start != end and len(doc.units) > 4)
    # Ends which are deeper than the text
    a, b = case["ranges"][0]
    start, end = doc.pick_range(a, b)
    for one, other in ((start + ("1",) * (doc.depth + 1 - len(start)), end), (start, end + ("1",) * (doc.depth + 1 - len(end)))):
        r = "{}-{}".format(ref(one), ref(other))
        raises(CitationDepthError, "too deep: " + r, text.getTextualNode, CtsReference(r))
    # Unknown ends
    for one, other in ((start[:-1] + ("zz9",), end), (start, end[:-1] + ("zz9",))):
        r = "{}-{}".format(ref(one), ref(other))
        raises((Exception, MyCapytainException), "unknown: " + r, text.getTextualNode, r)
    doc.check_unchanged(text)
    ctx.label("depth{}".format(doc.depth), case["doc"]["source"])
    if any(lv["glue"] == "//" for lv in doc.levels):
        ctx.label("//")


def _cases():
    return st.fixed_dictionaries({
        "doc": texts.documents(), "urn": texts.urns(), "reader": st.sampled_from(["string", "etree"]),
        "ranges": st.lists(st.tuples(st.integers(0, 50), st.integers(0, 50)), min_size=2, max_size=5),
        "kinds": st.lists(st.sampled_from(["plain", "string", "words", "from passage", "from range"]), min_size=1, max_size=3)})


SUBS = [
    Sub("ranges", _cases, run, quick=1600, thorough=30000, rule="two different ends in a text of more than four units"),
]
