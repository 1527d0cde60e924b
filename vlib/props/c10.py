""" C10 -- exports of texts and passages """
from hypothesis import strategies as st

from .. import texts
from ..engine import Sub, check, check_eq, raises
from ..texts import ref

URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"

# --- richer leaves

_TEXT = st.sampled_from([
    "Arma", "virumque ", " cano", "a", "a", "  ", " ", "\n", "\n      ", "\t", "x  y", "x   y    z", "καὶ ", "1", "12", "a & b", "<x>", "]]>", "\u00a0", "'\"",
    "line\nline", "  lead", "trail  ", "é", "🙂", "&amp;"])
_TAG = st.sampled_from(["note", "hi", "note", "hi", "foreign", "sic", "c", "pb", "add", "del", "gap"])
_NODE_KIND = st.sampled_from(["el", "text", "text", "el", "text", "el", "comment", "pi"])
_MIX_ATTRS = st.sampled_from([{}, {}, {"n": "1"}, {"type": "x"}])


@st.composite
def _content(draw, depth):
    out = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 0, 4, 5]))):
        kind = draw(_NODE_KIND)
        if kind == "text" or (kind == "el" and depth == 0):
            out.append(draw(_TEXT))
        elif kind == "el":
            out.append([draw(_TAG), draw(_MIX_ATTRS), draw(_CONTENTS[depth - 1])])
        elif kind == "comment":
            out.append(["#c", draw(st.sampled_from(["comment", " ", "a b"]))])
        else:
            out.append(["#p", "pi data"])
    return out


_CONTENTS = {}
for _i in range(4):
    _CONTENTS[_i] = _content(_i)
_EXCLUDES = st.sampled_from([["note"], ["note", "hi"], [], ["note"], ["hi"], ["note", "foreign"], ["note", "hi", "sic", "c"], ["head"], ["note", "head"], ["gap"], ["add", "del"]])
_JOINS = st.sampled_from([" ", " ", "", "|", "\n", "  "])


def locate(canon, chain):
    """ Canonical form, in a whole canonical document, of the element at the end of a chain """
    for parent, node in zip(chain, chain[1:]):
        index = [c for c in parent.elements() if c.tag[0] != "#"].index(node)
        canon = [c for c in canon[2] if not isinstance(c, str) and c[0][0] != "#"][index]
    return canon


def check_exports(obj, canon, exclude, join, what):
    """ :param canon: what the resource of the object holds """
    from MyCapytain.common.constants import Mimetypes
    import lxml.etree as etree
    full = texts.plain_canon(canon)
    part = texts.plain_canon(canon, exclude)
    names = ["tei:" + e for e in exclude]
    check_eq(obj.export(Mimetypes.PLAINTEXT, exclude=names), part, "{}: plain text without {}".format(what, exclude))
    check_eq(obj.export(Mimetypes.PLAINTEXT, exclude=[]), full, what + ": plain text")
    check_eq(obj.export(Mimetypes.PLAINTEXT), full, what + ": plain text, default exclusion")
    check_eq(obj.export(), full, what + ": default export")
    check_eq(obj.text, full, what + ": text")
    obj.default_exclude = names
    check_eq(obj.text, part, "{}: text by default without {}".format(what, exclude))
    check_eq(obj.export(Mimetypes.PLAINTEXT), part, "{}: plain text by default without {}".format(what, exclude))
    obj.default_exclude = []
    before = obj.plaintext_string_join
    obj.plaintext_string_join = join
    check_eq(obj.export(Mimetypes.PLAINTEXT, exclude=names), texts.plain_canon(canon, exclude, join), "{}: plain text joined with {!r}".format(what, join))
    obj.plaintext_string_join = before
    check_eq(obj.text, full, what + ": text again")
    for fmt in (Mimetypes.XML.Std, Mimetypes.XML.TEI):
        xml = obj.export(fmt)
        check(isinstance(xml, str), "{}: the {} export is not a string", what, fmt)
        check_eq(texts.canon_lxml(etree.fromstring(xml)), canon, "{}: {} export".format(what, fmt))
        check_eq(obj.export(fmt, exclude=names), xml, "{}: {} export with exclusions".format(what, fmt))
    check_eq(names, ["tei:" + e for e in exclude], what + ": the exclusions given")
    check_eq(texts.canon_lxml(etree.fromstring(str(obj))), canon, what + ": str()")
    if hasattr(obj, "tostring"):
        # Texts and passages of files
        check_eq(texts.canon_lxml(etree.fromstring(obj.tostring())), canon, what + ": tostring()")
        written = obj.tostring(encoding=str)
        check(isinstance(written, str), "{}: tostring(encoding=str) gives {!r}", what, type(written))
        check_eq(texts.canon_lxml(etree.fromstring(written)), canon, what + ": tostring(encoding=str)")
        check(obj.tostring(encoding="UTF-16", xml_declaration=True).startswith(b"\xff\xfe"), "{}: tostring in UTF-16", what)
        check_eq([str(x) for x in obj.xpath(".//text()")], texts.texts_canon(canon), what + ": xpath of text nodes")
    tree = obj.export(Mimetypes.PYTHON.ETREE)
    check(tree is obj.resource and tree is obj.xml, "{}: the tree export is not the resource", what)
    check_eq(texts.canon_any(tree), canon, what + ": tree export")
    for fmt in (Mimetypes.JSON.DTS.Std, Mimetypes.XML.CTS, "text/x-unknown", "application/json"):
        raises(NotImplementedError, "{}: export to {}".format(what, fmt), obj.export, fmt)


def unnest(d, prefix=()):
    """ Pairs of a nested dictionary, in order """
    for k, v in d.items():
        if isinstance(v, dict):
            for x in unnest(v, prefix + (k,)):
                yield x
        else:
            yield prefix + (k,), v




def run_local(case, ctx):
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.common.reference import CtsReference
    doc = texts.Document(case["doc"])
    kind = case["doc"]["source"]
    text = doc.text(urn=URN)
    whole = texts.canon_any(texts.resource(doc.source(), "objectify" if kind in ("string", "file", "declared") else kind))
    exclude, join = case["exclude"], case["join"]
    check_exports(text, whole, exclude, join, "text")

    def unit_text(path, names=(), join=" "):
        return texts.plain_canon(locate(whole, doc.chain(path)), names, join)

    path = doc.units[case["pick"] % len(doc.units)][0]
    unit = locate(whole, doc.chain(path))
    simple = text.getTextualNode(CtsReference(ref(path)), simple=True)
    check_exports(simple, unit, exclude, join, "simple passage " + ref(path))
    passage = text.getTextualNode(CtsReference(ref(path)))
    out = unit
    for node in reversed(doc.chain(path)[:-1]):
        out = (node.tag, tuple(sorted(node.attrs.items())), (out,))
    check_exports(passage, out, exclude, join, "passage " + ref(path))
    start, end = doc.pick_range(case["pick"], case["pick2"])
    prange = text.getTextualNode("{}-{}".format(ref(start), ref(end)))
    check_exports(prange, texts.canon_any(prange.resource), exclude, join, "range {}-{}".format(ref(start), ref(end)))
    # Nested dictionaries
    names = ["tei:" + e for e in exclude]
    deepest = doc.level(doc.depth)
    todo = [("text", text, deepest), ("whole text", text.getTextualNode(), deepest)]
    todo.append(("passage " + ref(path), passage, doc.below(path, doc.depth)))
    todo.append(("simple passage " + ref(path), simple, doc.below(path, doc.depth)))
    todo.append(("range {}-{}".format(ref(start), ref(end)), prange, doc.between(start, end, doc.depth)))
    for what, obj, paths in todo:
        if not paths:
            continue
        got = list(unnest(obj.export(Mimetypes.PYTHON.NestedDict)))
        check_eq(got, [(p, unit_text(p)) for p in paths], what + ": nested dictionary")
        got = list(unnest(obj.export(Mimetypes.PYTHON.NestedDict, exclude=names)))
        check_eq(got, [(p, unit_text(p, exclude)) for p in paths], "{}: nested dictionary without {}".format(what, exclude))
        before, obj.plaintext_string_join = obj.plaintext_string_join, join
        got = list(unnest(obj.export(Mimetypes.PYTHON.NestedDict, exclude=names)))
        obj.plaintext_string_join = before
        check_eq(got, [(p, unit_text(p, exclude, join)) for p in paths], "{}: nested dictionary without {} joined with {!r}".format(what, exclude, join))
    check_eq(texts.canon_any(text.xml), whole, "XML of the text at the end")
    dropped = unit_text(path) != unit_text(path, exclude)
    ctx.label(kind, "excluded text" if dropped else "nothing excluded", "depth{}".format(doc.depth))
    ctx.nontrivial(len(texts.texts_canon(unit)) > 1)


GETPASSAGE = """<GetPassage xmlns="http://chs.harvard.edu/xmlns/cts" xmlns:tei="{tei}"><request><requestName>GetPassage</requestName>\
<requestUrn>{urn}</requestUrn></request><reply><urn>{urn}</urn><passage>{xml}</passage></reply></GetPassage>"""


class _Endpoint(object):
    """ Retriever which has one passage """
    def __init__(self, passage):
        self.passage = passage

    def getPassage(self, urn):
        return self.passage


def run_remote(case, ctx):
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.resources.texts.remote.cts import CtsPassage, CtsText
    import lxml.etree as etree
    node = texts.Node("TEI", {}, [texts.Node("text", {}, [texts.Node("body", {}, [
        texts.Node("div", {"type": "edition"}, [texts.Node("l", {"n": str(i + 1)}, [texts._inline(c) for c in content])
                                                for i, content in enumerate(case["leaves"])])])])])
    urn = URN + ":1"
    xml = GETPASSAGE.format(tei=texts.TEI, urn=urn, xml=texts.serialize(node))
    source = case["source"]
    canon = texts.canon_any(texts.resource(xml, source))
    # Elements which are not in the TEI namespace keep it in their name
    passage_canon = [c for c in canon[2] if c[0].endswith("reply")][0][2][1][2][0]
    obj = CtsPassage(urn, texts.resource(xml, source), retriever=object())
    check_exports(obj, passage_canon, case["exclude"], case["join"], "remote passage")
    check_eq(texts.drop_blanks(passage_canon), texts.drop_blanks(texts.canon_model(node)), "harness: passage of the reply")
    # The text which the endpoint has
    text = CtsText(URN, retriever=_Endpoint(texts.resource(xml, source)))
    names = ["tei:" + e for e in case["exclude"]]
    full, part = texts.plain_canon(passage_canon), texts.plain_canon(passage_canon, case["exclude"])
    check_eq(text.export(Mimetypes.PLAINTEXT, exclude=names), part, "remote text: plain text without {}".format(names))
    check_eq(text.export(exclude=names), part, "remote text: default export without {}".format(names))
    check_eq(text.export(Mimetypes.PLAINTEXT), full, "remote text: plain text")
    check_eq(text.export(), full, "remote text: default export")
    check_eq(text.text, full, "remote text: text")
    text.default_exclude = names
    check_eq(text.text, part, "remote text: text by default without {}".format(names))
    check_eq(text.export(), part, "remote text: default export by default without {}".format(names))
    check_eq(text.export(Mimetypes.PLAINTEXT, exclude=[]), full, "remote text: plain text without exclusions")
    check_eq(CtsText(URN, retriever=_Endpoint(texts.resource(xml, source))).text, full, "another remote text: text")
    for fmt in (Mimetypes.XML.Std, Mimetypes.XML.TEI):
        exported = text.export(fmt)
        check(isinstance(exported, str), "remote text: the {} export is not a string", fmt)
        check_eq(texts.canon_lxml(etree.fromstring(exported)), passage_canon, "remote text: {} export".format(fmt))
    check_eq(texts.canon_any(text.export(Mimetypes.PYTHON.ETREE)), passage_canon, "remote text: tree export")
    for fmt in (Mimetypes.JSON.DTS.Std, Mimetypes.XML.CTS, "text/x-unknown"):
        raises(NotImplementedError, "remote text: export to {}".format(fmt), text.export, fmt)
    ctx.label(source)
    ctx.nontrivial(len(texts.texts_canon(passage_canon)) > 1)


def _local():
    return st.fixed_dictionaries({
        "doc": texts.documents(max_depth=3, leaf=_CONTENTS[3]), "exclude": _EXCLUDES, "join": _JOINS,
        "pick": st.integers(0, 50), "pick2": st.integers(0, 50)})


def _remote():
    return st.fixed_dictionaries({"leaves": st.lists(_CONTENTS[3], min_size=1, max_size=3), "exclude": _EXCLUDES, "join": _JOINS,
                                  "source": st.sampled_from(["etree", "objectify"])})


SUBS = [
    Sub("local", _local, run_local, quick=1200, thorough=12000, rule="a unit with several text nodes"),
    Sub("remote", _remote, run_remote, quick=400, thorough=6000, rule="several text nodes"),
]
