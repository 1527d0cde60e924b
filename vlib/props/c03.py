""" C03 -- CTS citation schemes: reference declaration <-> scope/xpath, fill, match, hierarchy """
import copy
import pickle

from hypothesis import strategies as st

from ..common import _COMPONENTS
from ..citations import SCHEMES, refsdecl, template, filled, filled_xpath, segment, scope_xpath
from ..engine import Sub, check, check_eq, raises


def build(scheme, how, cls=None):
    """ Citation objects, highest first """
    from MyCapytain.common.reference import Citation
    cls = cls or Citation
    out = []
    n = len(scheme["levels"])
    if how == "nested":        # deepest first, child given at construction
        child = None
        for d in range(n, 0, -1):
            kw = {"refsDecl": refsdecl(scheme, d)}
            child = cls(name=scheme["levels"][d - 1]["name"], child=child, **kw)
            out.insert(0, child)
    elif how == "nested-scope":
        child = None
        for d in range(n, 0, -1):
            scope, xpath = template(scheme, d)
            child = cls(name=scheme["levels"][d - 1]["name"], child=child, scope=scope, xpath=xpath)
            out.insert(0, child)
    elif how == "setter-down":  # highest first, child assigned
        for d in range(1, n + 1):
            c = cls(name=scheme["levels"][d - 1]["name"], refsDecl=refsdecl(scheme, d))
            if out:
                out[-1].child = c
            out.append(c)
    else:                      # setter-up
        for d in range(n, 0, -1):
            c = cls(name=scheme["levels"][d - 1]["name"], refsDecl=refsdecl(scheme, d))
            if out:
                c.child = out[0]
            out.insert(0, c)
    return out


HOW = st.sampled_from(["nested", "nested-scope", "setter-down", "setter-up"])


def run_decl(case, ctx):
    from MyCapytain.common.reference import Citation
    scheme = case["scheme"]
    n = len(scheme["levels"])
    for d in range(1, n + 1):
        name = scheme["levels"][d - 1]["name"]
        decl = refsdecl(scheme, d)
        scope, xpath = template(scheme, d)
        a = Citation(name=name, refsDecl=decl)
        check_eq(a.refsDecl, decl, "refsDecl")
        check_eq(a.scope, scope, "scope of " + decl)
        check_eq(a.xpath, xpath, "xpath of " + decl)
        b = Citation(name=name, scope=scope, xpath=xpath)
        check_eq(b.refsDecl, decl, "refsDecl out of scope and xpath")
        check_eq((b.scope, b.xpath), (scope, xpath), "scope and xpath as given")
        check_eq(a.attribute, scheme["levels"][d - 1]["attr"][1:], "attribute holding the identifier")
        check_eq(a.name, name, "name")
        check(a.is_set() and b.is_set(), "is_set")
        # replacing one half keeps the other one
        other = segment(case["other"], scheme["quote"], "?")
        b.xpath = other
        check_eq(b.xpath, other, "xpath after it was replaced")
        check_eq(b.scope, scope, "scope after the xpath was replaced")
        b.xpath = xpath
        check_eq(b.refsDecl, decl, "refsDecl after the xpath was put back")
        newscope = scope_xpath(dict(scheme, pre="/tei:TEI/tei:text/tei:front"), d, ["?"] * d)[0]
        b.scope = newscope
        check_eq((b.scope, b.xpath), (newscope, xpath), "after the scope was replaced")
        b.scope = scope
        # at the top of the document: nothing above
        b.scope = ""
        check_eq((b.refsDecl, b.scope, b.xpath), (segment(scheme["levels"][d - 1], scheme["quote"], "$1"), "", xpath), "after the scope was emptied")
        b.scope = scope
        check_eq(b.refsDecl, decl, "refsDecl after the scope was put back")
    check(not Citation(name="x").is_set(), "a citation without declaration is not set")
    ctx.label("depth{}".format(n))
    ctx.nontrivial(n > 1)


def run_fill(case, ctx):
    from MyCapytain.common.reference import Citation, CtsReference
    scheme, values = case["scheme"], case["values"]
    n = len(scheme["levels"])
    how = case["how"]
    citations = build(scheme, how)
    for d, citation in enumerate(citations, start=1):
        vals = values[:d]
        given = list(vals)
        check_eq(citation.fill(given), filled(scheme, d, vals), "fill({})".format(vals))
        check_eq(given, list(vals), "identifiers given to fill")
        check_eq(citation.fill(None), filled(scheme, d, [None] * d), "fill(None)")
        if None not in vals:
            check_eq(citation.fill(CtsReference(".".join(vals))), filled(scheme, d, vals), "fill(reference)")
            check_eq(citation.fill(CtsReference(".".join(vals) + "-9.9")), filled(scheme, d, vals),
                     "fill(range) is about its start")
            for sub in ("@virum", "@arma[2]", "@a.b[1]"):
                check_eq(citation.fill(CtsReference(".".join(vals) + sub)), filled(scheme, d, vals), "fill(reference{})".format(sub))
                check_eq(citation.fill(CtsReference(".".join(vals) + sub + "-" + ".".join(["9"] * d) + sub)), filled(scheme, d, vals),
                         "fill(range, {})".format(sub))
            check_eq(citation.fill(vals[-1], xpath=True), filled_xpath(scheme, d, vals[-1]), "fill(xpath=True)")
        check_eq(citation.fill(None, xpath=True), filled_xpath(scheme, d, None), "fill(None, xpath=True)")
        # and the citation itself is untouched
        check_eq(citation.refsDecl, refsdecl(scheme, d), "refsDecl after fill")
    ctx.label("depth{}".format(n), how)
    if any("[@n=" in l["fixed"] for l in scheme["levels"]) or "[@n=" in scheme["pre"]:
        ctx.label("fixed-n")
    ctx.nontrivial(n > 1)


def check_hierarchy(citations, names, where):
    from MyCapytain.common.reference import CtsReference
    n = len(citations)
    top = citations[0]
    for i, c in enumerate(citations):
        w = "{} level {}".format(where, i + 1)
        check_eq(c.name, names[i], w + ": name")
        check_eq(len(c), n - i, w + ": len")
        check_eq(c.depth, n - i, w + ": depth")
        check(c.root is top, "{}: root is {!r} instead of {!r}", w, c.root, top)
        check_eq(bool(c.is_root()), i == 0, w + ": is_root")
        check_eq(bool(c.is_empty()), i == n - 1, w + ": is_empty")
        got = list(c)
        check(len(got) == n - i and all(x is y for x, y in zip(got, citations[i:])), "{}: iteration gives {!r}", w, got)
        for j in range(n - i):
            check(c[j] is citations[i + j], "{}: [{}] is {!r}", w, j, c[j])
        check(c[-1] is citations[-1], "{}: [-1]", w)
        raises(KeyError, w + ": index too big", c.__getitem__, n - i)
        raises(KeyError, w + ": index too big", c.__getitem__, n - i + 3)
        if i == n - 1:
            check(c.child is None and list(c.children) == [], "{}: has a child", w)
        else:
            check(c.child is citations[i + 1], "{}: child", w)
            check_eq(len(c.children), 1, w + ": children")
        for d in range(1, n + 1):
            ref = ".".join(["1"] * d)
            check(c.match(ref) is citations[d - 1], "{}: match({})", w, ref)
            check(c.match(CtsReference(ref)) is citations[d - 1], "{}: match(CtsReference({}))", w, ref)
            check(c.match(ref + "@virum[2]") is citations[d - 1], "{}: match({}@virum[2])", w, ref)
            if d > 1:
                check(c.match(ref + "-2") is citations[0], "{}: match of a range is about its highest end", w)
        raises(KeyError, w + ": match of a reference which is too deep", c.match, ".".join(["1"] * (n + 1)))


def run_hierarchy(case, ctx):
    scheme = case["scheme"]
    names = [l["name"] for l in scheme["levels"]]
    citations = build(scheme, case["how"])
    check_hierarchy(citations, names, case["how"])
    # a copy is a complete scheme of its own
    for kind, clone in (("pickle", pickle.loads(pickle.dumps(citations[0]))), ("deepcopy", copy.deepcopy(citations[0]))):
        cl = list(clone)
        check_hierarchy(cl, names, kind)
        check_eq([c.refsDecl for c in cl], [c.refsDecl for c in citations], kind + ": refsDecl")
    # cutting and grafting again
    n = len(citations)
    if n > 1:
        k = case["cut"] % (n - 1)
        citations[k].child = None
        check_eq(len(citations[0]), k + 1, "len after a cut")
        check_eq(list(citations[0])[-1].name, names[k], "last level after a cut")
        citations[k].child = citations[k + 1]
        check_hierarchy(citations, names, "grafted")
    ctx.label("depth{}".format(n), case["how"])
    ctx.nontrivial(n > 1)


@st.composite
def _decl(draw):
    scheme = draw(SCHEMES)
    return {"scheme": scheme, "other": dict(draw(SCHEMES)["levels"][0], glue=draw(st.sampled_from(["/", "//"])))}


_ODD = st.sampled_from(["1'", "l'un", "a\\b", "\\1", "\\g<0>"])


@st.composite
def _fill(draw):
    scheme = draw(SCHEMES)
    return {"scheme": scheme, "how": draw(HOW),
            "values": [draw(st.one_of(_COMPONENTS, _COMPONENTS, _COMPONENTS, _ODD, st.none())) for _ in scheme["levels"]]}


def _hier():
    return st.fixed_dictionaries({"scheme": SCHEMES, "how": HOW, "cut": st.integers(0, 9)})


SUBS = [
    Sub("decl", _decl, run_decl, quick=1200, graph=False, rule="two levels or more"),
    Sub("fill", _fill, run_fill, quick=1200, graph=False, rule="two levels or more"),
    Sub("hierarchy", _hier, run_hierarchy, quick=1000, graph=False, rule="two levels or more"),
]
