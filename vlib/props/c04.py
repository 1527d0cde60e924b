""" C04 -- a citation scheme survives export (CTS inventory XML, TEI refsDecl) and ingestion """
from hypothesis import strategies as st

from ..citations import SPECIAL_SCHEMES, refsdecl, template
from ..engine import Sub, check, check_eq
from .c03 import build, check_hierarchy, HOW

CTS_NS = "http://chs.harvard.edu/xmlns/cts"
TEI_NS = "http://www.tei-c.org/ns/1.0"


def _quoted(s):
    """ Quote style is not part of what survives: both sides are compared in one style """
    return s.replace("&quot;", "'").replace('"', "'") if s is not None else None


def _simple(scheme):
    """ The same scheme with simple quotes only """
    import json
    levels = [dict(l, fixed=_quoted(l["fixed"])) for l in scheme["levels"]]
    return dict(scheme, quote="'", levels=levels, pre=_quoted(scheme["pre"]))


def run_cts(case, ctx):
    from lxml import etree
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.common.utils.xml import xmlparser
    from MyCapytain.resources.collections.cts import XmlCtsCitation
    scheme = case["scheme"]
    n = len(scheme["levels"])
    names = [l["name"] for l in scheme["levels"]]
    citations = build(scheme, case["how"])
    for first in range(n):
        exported = citations[first].export(Mimetypes.XML.CTS)
        wrapped = '<online xmlns="{0}"><citationMapping>{1}</citationMapping></online>'.format(CTS_NS, exported)
        node = etree.fromstring(wrapped)
        # the document itself: one nested element per level
        current, depth = node[0], 0
        while len(current):
            check_eq(len(current), 1, "number of citation elements at a level")
            current = current[0]
            check_eq(current.tag, "{%s}citation" % CTS_NS, "element")
            scope, xpath = template(scheme, first + depth + 1)
            check_eq(current.get("label"), names[first + depth], "label")
            check_eq(_quoted(current.get("xpath")), _quoted(xpath), "xpath attribute")
            check_eq(_quoted(current.get("scope")), _quoted(scope), "scope attribute")
            depth += 1
        check_eq(depth, n - first, "levels exported from level {}".format(first + 1))
        # ... and back, with both kinds of parsers
        for objectify in (True, False):
            back = XmlCtsCitation.ingest(xmlparser(wrapped, objectify=objectify), xpath="ti:citationMapping/ti:citation")
            levels = list(back)
            check_eq(len(levels), n - first, "levels read back")
            for i, level in enumerate(levels):
                scope, xpath = template(scheme, first + i + 1)
                check_eq(level.name, names[first + i], "name read back")
                check_eq(_quoted(level.refsDecl), _quoted(refsdecl(scheme, first + i + 1)), "refsDecl read back")
                check_eq((_quoted(level.scope), _quoted(level.xpath)), (_quoted(scope), _quoted(xpath)), "scope/xpath read back")
                check(isinstance(level, XmlCtsCitation), "level is a {}", type(level))
            check_hierarchy(levels, names[first:], "read back")
            check_eq(_quoted(back.export(Mimetypes.XML.CTS)), _quoted(exported), "second export")
    ctx.label("depth{}".format(n))
    ctx.nontrivial(n > 1)


def run_tei(case, ctx):
    from lxml import etree
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.common.reference import Citation
    from MyCapytain.common.utils.xml import xmlparser
    scheme = _simple(case["scheme"])
    n = len(scheme["levels"])
    names = [l["name"] for l in scheme["levels"]]
    citations = build(scheme, case["how"])
    patterns = []
    for i, c in enumerate(citations):
        exported = c.export(Mimetypes.XML.TEI)
        node = etree.fromstring('<x xmlns:tei="{}">{}</x>'.format(TEI_NS, exported))
        check_eq(len(node), 1, "one cRefPattern per level")
        check_eq(node[0].tag, "{%s}cRefPattern" % TEI_NS, "element")
        check_eq(node[0].get("n"), names[i], "n")
        check_eq(node[0].get("replacementPattern"), "#xpath({})".format(refsdecl(scheme, i + 1)), "replacementPattern")
        import re
        groups = re.compile(node[0].get("matchPattern"))
        check_eq(groups.groups, i + 1, "groups of the matchPattern")
        match = groups.fullmatch(".".join(["a1"] * (i + 1)))
        check(match is not None, "the matchPattern does not match a reference of its level")
        patterns.insert(0, exported)
    wrapped = '<tei:TEI xmlns:tei="{}"><tei:refsDecl n="CTS">{}</tei:refsDecl></tei:TEI>'.format(
        TEI_NS, "\n".join(patterns))
    for objectify in (True, False):
        root = xmlparser(wrapped, objectify=objectify)
        for resource in (root, [root]):
            back = Citation.ingest(resource)
            levels = list(back)
            check_eq([l.refsDecl for l in levels], [refsdecl(scheme, i + 1) for i in range(n)], "refsDecl read back")
            check_hierarchy(levels, names, "read back")
    ctx.label("depth{}".format(n))
    ctx.nontrivial(n > 1)


def run_unset(case, ctx):
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.common.reference import Citation
    c = Citation(name=case["name"])
    check_eq(c.export(Mimetypes.XML.CTS), "", "export of an unset citation")
    check_eq(c.export(Mimetypes.XML.TEI), "", "export of an unset citation")
    ctx.nontrivial()


def probe_tei_quotes(case, ctx):
    """ known finding: double quotes in the exported cRefPattern """
    from lxml import etree
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.common.reference import Citation
    c = Citation(name="book", refsDecl=case["refsDecl"])
    etree.fromstring('<x xmlns:tei="{}">{}</x>'.format(TEI_NS, c.export(Mimetypes.XML.TEI)))


PROBES = {"tei-quotes": probe_tei_quotes}


def _cases():
    return st.fixed_dictionaries({"scheme": SPECIAL_SCHEMES, "how": HOW})


SUBS = [
    Sub("cts", _cases, run_cts, quick=500, rule="two levels or more"),
    Sub("tei", _cases, run_tei, quick=700, rule="two levels or more"),
    Sub("unset", lambda: st.fixed_dictionaries({"name": st.one_of(st.none(), st.sampled_from(["book", "a & b", ""]))}),
        run_unset, quick=20, rule="always"),
]
ASSUMPTIONS = ["TEI export is exercised with declarations which use simple quotes (double quotes: known finding)"]
