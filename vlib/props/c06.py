""" C06 -- listing the valid references of a local text """
import warnings

from hypothesis import strategies as st

from .. import texts
from ..engine import Sub, Violation, check, check_eq, raises
from ..texts import ref

_ANY = (Exception,)


def members(refs):
    return [str(r) for r in refs]


def check_set(doc, got, level, expected, what):
    check_eq(members(got), [ref(p) for p in expected], what)
    check_eq(got.level, level, what + ": level of the set")
    check_eq(got.citation.name, doc.levels[level - 1]["name"], what + ": citation of the set")
    check(not any(r.is_range() for r in got), "{}: a range is listed", what)
    check_eq([r.start.list for r in got], [list(p) for p in expected], what + ": levels of the references")


def listing(doc, what, lvl_, expected, fn, *args, **kwargs):
    """ fn lists `expected`, at level `lvl_` """
    if lvl_ > doc.depth:
        from MyCapytain.errors import CitationDepthError
        raises(CitationDepthError, what + ": deeper than the scheme", fn, *args, **kwargs)
    elif not expected:
        # Nothing there (a unit which goes less deep than the others)
        try:
            got = fn(*args, **kwargs)
        except KeyError:
            return
        check_eq(members(got), [], what)
    else:
        check_set(doc, fn(*args, **kwargs), lvl_, expected, what)


def run_listing(case, ctx):
    from MyCapytain.common.reference import CtsReference
    from MyCapytain.errors import CitationDepthError
    doc = texts.Document(case["doc"])
    text = doc.text()
    for level in range(1, doc.depth + 2):
        listing(doc, "getReffs({})".format(level), level, doc.level(level), text.getReffs, level)
        listing(doc, "getValidReff({})".format(level), level, doc.level(level), text.getValidReff, level=level)
    listing(doc, "getReffs()", 1, doc.level(1), text.getReffs)
    everything = [p for i in range(1, doc.depth + 1) for p in doc.level(i)]
    if all(doc.level(i) for i in range(1, doc.depth + 1)):
        check_eq(members(text.reffs), [ref(p) for p in everything], "reffs")
    start = case["from"] % len(doc.units)
    chosen = [p for p, _ in (doc.units[start:] + doc.units[:start])[:14]]
    for path in chosen:
        for level in range(0, doc.depth + 2):
            lvl = max(level, len(path) + 1)
            exp = doc.below(path, lvl)
            what = "getReffs({}, {})".format(level, ref(path))
            listing(doc, what, lvl, exp, text.getReffs, level=level, subreference=CtsReference(ref(path)))
            listing(doc, what + " (string)", lvl, exp, text.getReffs, level=level, subreference=ref(path))
            listing(doc, "getValidReff({}, {})".format(level, ref(path)), lvl, exp, text.getValidReff, level=level, reference=CtsReference(ref(path)))
    for path in chosen[:4]:
        passage = text.getTextualNode(CtsReference(ref(path)))
        simple = text.getTextualNode(CtsReference(ref(path)), simple=True)
        for level in range(1, doc.depth + 2):
            lvl = max(level, len(path) + 1)
            listing(doc, "passage {} getReffs({})".format(ref(path), level), lvl, doc.below(path, lvl), passage.getReffs, level=level)
            lvl = len(path) + level
            listing(doc, "simple passage {} getReffs({})".format(ref(path), level), lvl, doc.below(path, lvl), simple.getReffs, level=level)
    whole = text.getTextualNode()
    for level in range(1, doc.depth + 1):
        listing(doc, "whole text getReffs({})".format(level), level, doc.level(level), whole.getReffs, level=level)
    # Unknown references
    for path in chosen[:3]:
        for i in range(len(path)):
            unknown = path[:i] + ("zz9",) + path[i + 1:]
            if len(unknown) < doc.depth:
                raises(KeyError, "getReffs of unknown {}".format(ref(unknown)), text.getReffs, level=1, subreference=CtsReference(ref(unknown)))
    raises(TypeError, "getValidReff of a list", text.getValidReff, level=1, reference=list(chosen[0]))
    doc.check_unchanged(text)
    ctx.label("depth{}".format(doc.depth), case["doc"]["source"])
    if any(lv["glue"] == "//" for lv in doc.levels):
        ctx.label("//")
    if any(lv["wrap"] for lv in doc.levels):
        ctx.label("wrapper")
    ctx.nontrivial(doc.depth > 1 and len(doc.units) > 4)


def run_ranges(case, ctx):
    from MyCapytain.common.reference import CtsReference
    doc = texts.Document(case["doc"])
    text = doc.text()
    for a, b in case["ranges"]:
        start, end = doc.pick_range(a, b)
        common = 0
        while common < min(len(start), len(end)) and start[common] == end[common]:
            common += 1
        if start == end:
            common -= 1
        r = "{}-{}".format(ref(start), ref(end))
        for level in range(0, doc.depth + 2):
            if level == 0:
                lvl = len(start)
            elif level == 1:
                lvl = len(start) + 1
            else:
                lvl = level
            if lvl <= common:
                lvl = common + 1
            exp = doc.between(start, end, lvl)
            what = "getReffs({}, {})".format(level, r)
            listing(doc, what, lvl, exp, text.getReffs, level=level, subreference=CtsReference(r))
            listing(doc, "getValidReff({}, {})".format(level, r), lvl, exp, text.getValidReff, level=level, reference=CtsReference(r))
            if level == 0 and start != end:
                ctx.label("{} levels".format("same" if len(start) == len(end) else "mixed"),
                          "common{}".format(common), "size{}".format(min(8, len(exp))))
                ctx.nontrivial(len(exp) > 2)
            if start == end:
                ctx.label("a-a")
    doc.check_unchanged(text)


def run_debug(case, ctx):
    """ Duplicates and empty identifiers are reported when _debug is set """
    from MyCapytain.errors import DuplicateReference, EmptyReference
    units = []
    for i, ids in enumerate(case["ids"]):
        units.append((str(i + 1), ids))
    inner = "".join("<div n=\"{}\">{}</div>".format(u, "".join("<l n=\"{}\">x</l>".format(i) for i in ids)) for u, ids in units)
    xml = ("<TEI xmlns=\"{}\"><teiHeader><refsDecl n=\"CTS\">"
           "<cRefPattern n=\"line\" matchPattern=\"(\\w+).(\\w+)\" replacementPattern=\"#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1']/tei:l[@n='$2'])\"/>"
           "<cRefPattern n=\"book\" matchPattern=\"(\\w+)\" replacementPattern=\"#xpath(/tei:TEI/tei:text/tei:body/tei:div[@n='$1'])\"/>"
           "</refsDecl></teiHeader><text><body>{}</body></text></TEI>").format(texts.TEI, inner)
    from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
    text = CapitainsCtsText(resource=texts.resource(xml, case["source"]))
    expected = ["{}.{}".format(u, i) for u, ids in units for i in ids]
    duplicates = set(e for e in expected if expected.count(e) > 1)
    empties = [e for e in expected if e.endswith(".")]
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        refs = text.getValidReff(level=2, _debug=True)
    dup = [str(w.message) for w in got if issubclass(w.category, DuplicateReference)]
    emp = [str(w.message) for w in got if issubclass(w.category, EmptyReference)]
    check_eq(sorted(dup[0].split(", ")) if dup else [], sorted(duplicates), "duplicates which are reported")
    check(len(dup) <= 1, "duplicates are reported twice")
    check_eq(len(emp), 1 if empties else 0, "empty references are reported")
    if empties:
        check(str(len(empties)) in emp[0].split(), "{} empty references, the warning says {}", len(empties), emp[0])
    check_eq(members(refs), expected, "references with duplicates")
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        text.getValidReff(level=2)
    check(not [w for w in got if issubclass(w.category, (DuplicateReference, EmptyReference))], "warnings without debug")
    from MyCapytain.errors import InvalidURN
    for one in sorted(set(expected)):
        if one in duplicates and not one.endswith("."):
            raises(InvalidURN, "simple passage of {}, of which there are several".format(one), text.getTextualNode, one, simple=True)
    ctx.label("duplicates" if duplicates else "no duplicate", "empty" if empties else "no empty")
    ctx.nontrivial(duplicates or empties)


def _listing():
    return st.fixed_dictionaries({"doc": texts.documents(), "from": st.integers(0, 40)})


def _ranges():
    return st.fixed_dictionaries({"doc": texts.documents(), "ranges": st.lists(
        st.tuples(st.integers(0, 50), st.integers(0, 50)), min_size=1, max_size=3)})


def _debug():
    one = st.sampled_from(["1", "2", "3", "a", "b", "A", "1a", "pr", "PR", ""])
    return st.fixed_dictionaries({
        "ids": st.lists(st.lists(one, min_size=1, max_size=5), min_size=1, max_size=3),
        "source": st.sampled_from(["string", "etree"])})


SUBS = [
    Sub("listing", _listing, run_listing, quick=800, thorough=16000, rule="two levels or more and more than four units"),
    Sub("ranges", _ranges, run_ranges, quick=1200, thorough=24000, rule="a range of three units or more"),
    Sub("debug", _debug, run_debug, quick=200, thorough=3000, rule="duplicates or empty identifiers"),
]
