""" Generated CTS inventories: plain-data model, XML form, and comparison with the collections of MyCapytain """
import copy
from collections import Counter

from hypothesis import strategies as st
from lxml import etree

from . import citations
from .common import LANGS, labels
from .engine import check, check_eq, raises

TI = "http://chs.harvard.edu/xmlns/cts"
CTS = TI + "/"
CPT = "http://purl.org/capitains/ns/1.0#"
XSD = "http://www.w3.org/2001/XMLSchema#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XML_LANG = "{http://www.w3.org/XML/1998/namespace}lang"
DC = "http://purl.org/dc/elements/1.1/"
SM_NS = {"dc": DC, "dct": "http://purl.org/dc/terms/", "saws": "http://purl.org/saws/ontology#", "ex": "http://ex.org/ns/"}
#: statements which collections write for themselves
BOOKKEEPING = {RDF + "type", "https://w3id.org/dts/api#model", CPT + "parent", "http://www.w3.org/2000/01/rdf-schema#label",
               "http://www.w3.org/2004/02/skos/core#prefLabel", DC + "language"}

# ---------------------------------------------------------------------------------------------- strategies

_LANG = st.sampled_from(LANGS)
_TEXT = st.one_of(labels().filter(bool), st.sampled_from(["Epigrammata", " Iliad ", "two  words", "two\nlines", "1984", "007", "true", "None", "", "Iliad", "Ἰλιάς"]))


def values(languages, some, min_size, max_size):
    pairs = st.tuples(languages, some)
    once = st.lists(pairs, min_size=min_size, max_size=max_size, unique_by=lambda x: x[0])
    # several texts of a language, beside others or not
    more = st.builds(lambda drawn, lang, extra: [x for i, x in enumerate(drawn + [(lang, e) for e in extra]) if x not in (drawn + [(lang, e) for e in extra])[:i]],
                     once, languages, st.lists(some, min_size=2, max_size=3))
    return st.integers(0, 7).flatmap(lambda n: more if n == 5 else once).map(lambda drawn: [list(x) for x in drawn])


def by_language(pairs):
    """ The texts of each language """
    out = {}
    for lang, text in pairs:
        out.setdefault(lang, set()).add(text)
    return out


def one_of_language(got, lang, pairs):
    """ Whether a value is one of the language asked, or any if there is none (None if there is no value) """
    texts = by_language(pairs)
    if not texts:
        return got is None
    return got is not None and str(got) in (texts[lang] if lang in texts else set().union(*texts.values())) and \
        (lang not in texts or got.language == lang)


def _values(min_size, max_size):
    """ [[lang, text], ...], one text per language, or now and then several """
    return values(_LANG, _TEXT, min_size, max_size)


# Texts which begin like the URIs the parser recognizes (urn:, http:, https:, hdl:) or hold one, without being one
NEARLY_URIS = ["httpd manual", "http", "https handshake", "urnfield culture", "Urn: an ode", "see http://ex.org/x", "hdlc", "handle"]
_PLAIN = st.sampled_from(["Manfred Clauss", "Mau, August", "A & B <c>", "\"x\"", "été 12", "12 May", "x5", "v. 1.0", "l'un", "a > b",
                          *NEARLY_URIS])
_SM = st.one_of(
    st.fixed_dictionaries({"kind": st.just("lang"), "text": _TEXT, "lang": _LANG}),
    st.fixed_dictionaries({"kind": st.just("lang"), "text": st.sampled_from(["1984", "007", "1e3", "true", "nan", "Oxford", *NEARLY_URIS]), "lang": _LANG}),
    st.fixed_dictionaries({"kind": st.just("plain"), "text": _PLAIN}),
    st.fixed_dictionaries({"kind": st.just("int"), "text": st.sampled_from(["5", "-3", "0012", "2020", "0", "12345678901234567890"])}),
    st.fixed_dictionaries({"kind": st.just("float"), "text": st.sampled_from(["1.5", "-0.25", "10.0", "3.141592653589793", "0.1234567890123", "123456.789012"])}),
    st.fixed_dictionaries({"kind": st.just("typed"), "text": st.sampled_from(["1837", "0800", "2001"]), "type": st.just("gYear"), "full": st.booleans()}),
    st.fixed_dictionaries({"kind": st.just("typed"), "text": st.sampled_from(["007", "abc", "1.50", "true"]), "type": st.just("string"), "full": st.booleans()}),
    st.fixed_dictionaries({"kind": st.just("typed"), "text": st.sampled_from(["007", "hexameter", "12"]), "full": st.just(True),
                           "type": st.sampled_from(["http://example.org/types#verse", "https://w3id.org/dts/api#Kind"])}),
    st.fixed_dictionaries({"kind": st.just("uri"), "text": st.sampled_from(
        ["urn:cts:latinLit:phi1294", "http://ex.org/?a=b&c=d#e", "https://hdl.handle.net/1/2", "hdl:10/4"])}))


def datatype_of(s):
    return s["type"] if ":" in s["type"] else XSD + s["type"]


_SMS = st.lists(st.builds(lambda ns, name, v: dict(v, ns=ns, name=name), st.sampled_from(sorted(SM_NS)),
                          st.sampled_from(["creator", "date", "title", "relation", "x-y"]), _SM), max_size=4)
_ID = {
    "ns": st.sampled_from(["latinLit", "latinLit", "greekLit", "pdlrefwk"]),
    "tg": st.sampled_from(["phi1294", "phi129", "phi12945", "tlg0012", "stoa0045", "Stoa0045", "phi0001"]),
    "work": st.sampled_from(["phi002", "phi00", "phi0021", "tlg001", "stoa1", "Phi002", "phi001"]),
    "version": st.sampled_from(["perseus-lat2", "perseus-lat", "perseus-lat21", "perseus-eng2", "opp-grc1", "1st1K-Grc1", "x1"]),
}
CITATION = st.one_of(st.none(), citations.SPECIAL_SCHEMES, citations.SCHEMES)


_ABOUT_SOME = st.lists(st.sampled_from(["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:greekLit:tlg0012.tlg001.x1", "urn:cts:a:b.c.d",
                                        "urn:cts:latinLit:phi1294.phi002.perseus-lat21", "urn:cts:latinLit:phi1294.phi001.x1"]), max_size=4, unique=True)
_ABOUT = st.integers(0, 9).flatmap(lambda n: _ABOUT_SOME if n < 9 else st.integers(9, 30).map(lambda size: ["urn:cts:a:b.c.d{}".format(i) for i in range(size)]))


@st.composite
def texts(draw):
    kind = draw(st.sampled_from(["edition", "edition", "translation", "commentary"]))
    return {"kind": kind, "id": draw(_ID["version"]), "lang": draw(st.one_of(st.none(), _LANG)) if kind != "edition" else None,
            "label": draw(_values(0, 3)), "description": draw(_values(0, 2)),
            "about": draw(_ABOUT) if kind == "commentary" else [],
            "citation": draw(CITATION), "sm": draw(_SMS)}


def _some(strategy, max_size, key):
    """ often several """
    return st.one_of(st.lists(strategy, min_size=1, max_size=max_size, unique_by=key), st.lists(strategy, min_size=2, max_size=max_size, unique_by=key),
                     st.lists(strategy, max_size=max_size, unique_by=key))


def _longer(items, size):
    """ A list of texts or works made longer, with copies of the first one """
    return items + [dict(copy.deepcopy(items[0]), id="n{}-x{}".format(i, i % 3)) for i in range(size, len(items), -1)] if items else items


def works(max_texts=3):
    return st.builds(lambda i, lang, title, t, sm: {"id": i, "lang": lang, "title": title, "texts": t, "sm": sm},
                     _ID["work"], st.one_of(_LANG, _LANG, _LANG, st.none()), _values(0, 3),
                     st.builds(_longer, _some(texts(), max_texts, lambda t: t["id"]), st.sampled_from([0] * 60 + [11, 11, 13, 13, 45])), _SMS)


def textgroups(max_works=3):
    return st.builds(lambda ns, i, name, w, sm: {"id": ns + ":" + i, "groupname": name, "works": w, "sm": sm},
                     _ID["ns"], _ID["tg"], _values(0, 3), st.builds(_longer, _some(works(), max_works, lambda w: w["id"]), st.sampled_from([0] * 40 + [11])), _SMS)


def inventories(max_tg=3):
    return st.builds(lambda tiid, tgs: {"tiid": tiid, "textgroups": tgs},
                     st.sampled_from(["annotsrc", "annotsrc", "my inventory", "", None]),
                     st.lists(textgroups(), min_size=1, max_size=max_tg, unique_by=lambda t: t["id"]))


def xml_style():
    return st.fixed_dictionaries({"prefix": st.sampled_from(["ti", "ti", "", "cts"]), "pretty": st.booleans(), "comments": st.booleans(),
                                  "order": st.integers(0, 5), "input": st.sampled_from(["str", "file", "bytes", "objectify", "etree"])})


# ---------------------------------------------------------------------------------------------- identifiers

def tg_urn(tg):
    return "urn:cts:" + tg["id"]


def work_urn(tg, work):
    return "{}.{}".format(tg_urn(tg), work["id"])


def text_urn(tg, work, text):
    return "{}.{}".format(work_urn(tg, work), text["id"])


def text_lang(work, text):
    return text["lang"] if text["kind"] != "edition" and text["lang"] is not None else work["lang"]


# ---------------------------------------------------------------------------------------------- XML form

class Writer(object):
    def __init__(self, style):
        self.style = style
        p = style["prefix"]
        self.nsmap = {p or None: TI, "cpt": CPT, "rdf": RDF, "xsd": XSD}
        self.nsmap.update(SM_NS)

    def el(self, parent, tag, **attrs):
        attrs = {k: v for k, v in attrs.items() if v is not None}
        if parent is None:
            return etree.Element("{%s}%s" % (TI, tag), attrs, nsmap=self.nsmap)
        return etree.SubElement(parent, "{%s}%s" % (TI, tag), attrs)

    def values(self, parent, tag, values):
        for lang, text in values:
            node = self.el(parent, tag)
            node.set(XML_LANG, lang)
            self.fill(node, text)

    def fill(self, node, text):
        """ Text, perhaps with a comment in it (numbers are left whole) """
        cut = self.style["order"]
        try:
            float(text or "")
            whole = True
        except ValueError:
            whole = False
        # The parser drops pieces which are only blanks
        blank = any(piece and not piece.strip() for piece in ((text or "")[:cut], (text or "")[cut:]))
        if self.style["comments"] and cut < 3 and not whole and not blank:
            node.text = text[:cut]
            node.append(etree.Comment(" y "))
            node[0].tail = text[cut:]
        else:
            node.text = text

    def sm(self, parent, statements):
        if not statements:
            return
        box = etree.SubElement(parent, "{%s}structured-metadata" % CPT)
        for s in statements:
            if self.style["comments"]:
                box.append(etree.Comment(" x "))
            node = etree.SubElement(box, "{%s}%s" % (SM_NS[s["ns"]], s["name"]))
            self.fill(node, s["text"])
            if s["kind"] == "lang":
                node.set(XML_LANG, s["lang"])
            elif s["kind"] == "typed":
                node.set("{%s}datatype" % RDF, datatype_of(s) if s["full"] else "xsd:" + s["type"])

    def text(self, parent, tg, work, text):
        node = self.el(parent, text["kind"], urn=text_urn(tg, work, text), workUrn=work_urn(tg, work))
        if text["kind"] != "edition":
            if text["lang"] is not None:
                node.set(XML_LANG, text["lang"])
        elif work["lang"] is not None and self.style["order"] % 2:
            node.set(XML_LANG, work["lang"])
        self.values(node, "label", text["label"])
        if self.style["comments"]:
            node.append(etree.Comment(" <ti:label>x</ti:label> "))
        self.values(node, "description", text["description"])
        for urn in text["about"]:
            self.el(node, "about", urn=urn)
        if text["citation"] is not None:
            box = self.el(self.el(node, "online", docname="x.xml"), "citationMapping")
            for i, level in enumerate(text["citation"]["levels"]):
                scope, xpath = citations.template(text["citation"], i + 1)
                box = self.el(box, "citation", label=level["name"], xpath=xpath, scope=scope)
        elif self.style["order"] == 3:
            self.el(node, "online")
        self.sm(node, text["sm"])
        return node

    def work(self, parent, tg, work):
        node = self.el(parent, "work", urn=work_urn(tg, work), groupUrn=tg_urn(tg))
        if work["lang"] is not None:
            node.set(XML_LANG, work["lang"])
        self.values(node, "title", work["title"])
        if self.style["order"] == 1:
            self.sm(node, work["sm"])
        for text in work["texts"]:
            self.text(node, tg, work, text)
        if self.style["order"] != 1:
            self.sm(node, work["sm"])
        return node

    def textgroup(self, parent, tg):
        node = self.el(parent, "textgroup", urn=tg_urn(tg), projectid=tg["id"])
        if self.style["order"] == 2:
            for w in tg["works"]:
                self.work(node, tg, w)
        self.values(node, "groupname", tg["groupname"])
        self.sm(node, tg["sm"])
        if self.style["order"] != 2:
            for w in tg["works"]:
                self.work(node, tg, w)
        return node

    def inventory(self, inventory):
        node = self.el(None, "TextInventory", tiid=inventory["tiid"])
        for tg in inventory["textgroups"]:
            self.textgroup(node, tg)
        return node

    def string(self, node):
        return etree.tostring(node, encoding=str, pretty_print=self.style["pretty"])


def resource(xml, how, tmp):
    """ One of the forms a document can be given in; returns (resource, close function) """
    import io
    from lxml import objectify
    if how == "file":
        import os
        path = os.path.join(tmp, "i.xml")
        with open(path, "w", encoding="utf-8") as f:
            f.write(xml)
        handle = open(path, encoding="utf-8")
        return handle, handle.close
    if how == "bytes":
        return io.BytesIO(xml.encode("utf-8")), lambda: None
    if how == "objectify":
        return objectify.fromstring(xml.encode("utf-8")), lambda: None
    if how == "etree":
        return etree.fromstring(xml.encode("utf-8")), lambda: None
    return xml, lambda: None


# ---------------------------------------------------------------------------------------------- comparison

def sm_terms(statements, typed=True):
    """ Expected statements: Counter of (predicate, term) """
    from rdflib import Literal, URIRef
    from rdflib.namespace import XSD as X
    out = set()
    for s in statements:
        p = URIRef(SM_NS[s["ns"]] + s["name"])
        kind, text = s["kind"], s["text"]
        if kind == "uri":
            o = URIRef(text)
        elif kind == "lang":
            o = Literal(text, lang=s["lang"])
        elif kind == "typed":
            o = Literal(text, datatype=URIRef(datatype_of(s)))
        elif kind == "int" and typed:
            o = Literal(int(text), datatype=X.integer)
        elif kind == "float" and typed:
            o = Literal(float(text), datatype=X.float)
        else:
            o = Literal(text)
        out.add((p, o))
    return Counter((str(p), str(o), getattr(o, "language", None), str(getattr(o, "datatype", None)), type(o).__name__) for p, o in out)


def check_values(obj, prop, values, what):
    """ labels, titles... in every language """
    from rdflib import URIRef
    expected = by_language(values)
    got = Counter((v.language, str(v)) for v in obj.metadata.get(URIRef(CTS + prop)))
    check_eq(got, Counter((lang, text) for lang, text in values), "{}: values of {}".format(what, prop))
    got = obj.get_cts_property(prop)
    check(set(got) == set(expected) and all(str(v) in expected[lang] and v.language == lang for lang, v in got.items()), "{}: {} is {!r}, not {!r}", what, prop, got, expected)
    for lang in LANGS + ["xyz"]:
        one = obj.get_cts_property(prop, lang)
        check(one_of_language(one, lang, values), "{}: {} in {} is {!r}, out of {!r}", what, prop, lang, one, expected)


def check_label(obj, values, what):
    for lang in [None] + LANGS:
        got = obj.get_label(lang) if lang is not None else obj.get_label()
        check(one_of_language(got, lang, values), "{}: label in {} is {!r}, out of {!r}", what, lang, got, values)


def check_statements(obj, own, sm, what, typed=True):
    """ No statement but these and those collections add for themselves """
    from rdflib import URIRef
    got = Counter()
    for p, o in obj.graph.predicate_objects(obj.asNode()):
        if str(p) not in BOOKKEEPING and not str(p).startswith(CTS):
            got[str(p), str(o), getattr(o, "language", None), str(getattr(o, "datatype", None)), type(o).__name__] += 1
    check_eq(got, sm_terms(sm, typed) if sm is not None else Counter(), "{}: structured metadata".format(what))
    got = {str(p)[len(CTS):] for p in obj.graph.predicates(obj.asNode()) if str(p).startswith(CTS)}
    check(got <= own, "{}: unexpected CTS properties {!r}", what, got - own)
    for s in sm or []:
        p = URIRef(SM_NS[s["ns"]] + s["name"])
        values = list(obj.metadata.get(p))
        check(any(str(v) == s["text"] or s["kind"] in ("int", "float", "typed") for v in values), "{}: {!r} not in {!r}", what, s, values)


def check_citation(obj, scheme, what):
    c = obj.citation
    if scheme is None:
        check(c is None or c.is_empty() or not c.refsDecl, "{}: citation {!r}", what, c)
        return
    chain = list(c)
    if isinstance(scheme, dict):
        levels, declaration = scheme["levels"], lambda level: citations.refsdecl(scheme, level)
    else:
        # the one of a generated document
        levels, declaration = scheme.levels, scheme.refsdecl
    n = len(levels)
    check_eq([x.name for x in chain], [l["name"] for l in levels], what + ": citation names")
    for i, x in enumerate(chain):
        # the kind of quotes around placeholders is not significant
        check_eq(x.refsDecl.replace('"', "'"), declaration(i + 1).replace('"', "'"), "{}: declaration of level {}".format(what, i))
    check_eq((len(c), c.depth), (n, n), "{}: len and depth of the citation".format(what))
    check(all(x.root is c for x in chain) or all(x.root == c for x in chain), "{}: root of the citations", what)


def check_text(obj, tg, work, text, parent, sm, typed=True):
    what = text_urn(tg, work, text)
    check_eq((obj.id, str(obj.urn), str(obj.asNode())), (what,) * 3, "identifier")
    check(obj.urn == obj.urn.__class__(what), "urn of {}", what)
    check_eq(obj.subtype, text["kind"], what + ": subtype")
    check_eq(str(obj.type), CTS + text["kind"], what + ": type")
    check_eq(obj.lang, text_lang(work, text), what + ": language")
    check(obj.parent is parent, "{}: parent is {!r}", what, obj.parent)
    check_eq((obj.readable, obj.members, obj.descendants, obj.size), (True, [], [], 0), what)
    check_values(obj, "label", text["label"], what)
    check_values(obj, "description", text["description"], what)
    check_label(obj, text["label"], what)
    check_eq(Counter(str(x) for x in obj.get_link(_uri(CTS + "about"))), Counter(text["about"]), what + ": links")
    check_citation(obj, text["citation"], what)
    check_statements(obj, {"label", "description", "about"}, sm and text["sm"], what, typed)
    for lang in [None] + LANGS:
        for name, got, values in [("description", obj.get_description(lang), text["description"]), ("subject", obj.get_subject(lang), text["label"])] \
                + ([("title", obj.get_title(lang), work["title"])] if parent is not None else []) \
                + ([("creator", obj.get_creator(lang), tg["groupname"])] if parent is not None and parent.parent is not None else []):
            check(one_of_language(got, lang, values), "{}: {} in {} is {!r}, out of {!r}", what, name, lang, got, values)


def _uri(x):
    from rdflib import URIRef
    return URIRef(x)


def check_work(obj, tg, work, parent, sm, typed=True):
    what = work_urn(tg, work)
    check_eq((obj.id, str(obj.urn), str(obj.asNode())), (what,) * 3, "identifier")
    check_eq(str(obj.type), CTS + "work", what + ": type")
    check_eq(obj.lang, work["lang"], what + ": language")
    check(obj.parent is parent, "{}: parent is {!r}", what, obj.parent)
    check_eq(obj.readable, False, what)
    check_eq(set(obj.texts), {text_urn(tg, work, t) for t in work["texts"]}, what + ": texts")
    check_eq((len(obj), obj.size), (len(work["texts"]),) * 2, what + ": len and size")
    check_eq({str(x.id) for x in obj.members}, set(obj.texts), what + ": members")
    check_values(obj, "title", work["title"], what)
    check_label(obj, work["title"], what)
    check_statements(obj, {"title"}, sm and work["sm"], what, typed)
    for t in work["texts"]:
        check_text(obj.texts[text_urn(tg, work, t)], tg, work, t, obj, sm, typed)
    for lang in [None] + LANGS:
        exp = {text_urn(tg, work, t) for t in work["texts"] if t["kind"] == "translation" and (lang is None or text_lang(work, t) == lang)}
        check_eq({x.id for x in (obj.get_translation_in(lang) if lang else obj.get_translation_in())}, exp, "{}: translations in {}".format(what, lang))
        for x in list(obj.texts.values())[:1]:
            check_eq({y.id for y in x.translations(lang)}, exp, "{}: translations in {} from a text".format(what, lang))
            check_eq({y.id for y in x.editions()}, {text_urn(tg, work, t) for t in work["texts"] if t["kind"] == "edition"}, what + ": editions")


def check_textgroup(obj, tg, parent, sm, typed=True):
    what = tg_urn(tg)
    check_eq((obj.id, str(obj.urn), str(obj.asNode())), (what,) * 3, "identifier")
    check_eq(str(obj.type), CTS + "textgroup", what + ": type")
    check(obj.parent is parent, "{}: parent is {!r}", what, obj.parent)
    check_eq(set(obj.works), {work_urn(tg, w) for w in tg["works"]}, what + ": works")
    check_eq(len(obj), sum(len(w["texts"]) for w in tg["works"]), what + ": len")
    check_eq(obj.size, len(tg["works"]), what + ": size")
    check_values(obj, "groupname", tg["groupname"], what)
    check_label(obj, tg["groupname"], what)
    check_statements(obj, {"groupname"}, sm and tg["sm"], what, typed)
    for w in tg["works"]:
        check_work(obj.works[work_urn(tg, w)], tg, w, obj, sm, typed)


def check_inventory(obj, inventory, sm, typed=True):
    check_eq(obj.id, inventory["tiid"] or "", "identifier of the inventory")
    check(obj.parent is None, "parent of an inventory: {!r}", obj.parent)
    check_eq(set(obj.textgroups), {tg_urn(t) for t in inventory["textgroups"]}, "textgroups")
    check_eq(len(obj), sum(len(w["texts"]) for t in inventory["textgroups"] for w in t["works"]), "len of the inventory")
    check_eq(obj.size, len(inventory["textgroups"]), "size of the inventory")
    ids = []
    for t in inventory["textgroups"]:
        check_textgroup(obj.textgroups[tg_urn(t)], t, obj, sm, typed)
        ids.append(tg_urn(t))
        for w in t["works"]:
            ids.append(work_urn(t, w))
            ids += [text_urn(t, w, x) for x in w["texts"]]
    check_eq(Counter(x.id for x in obj.descendants), Counter(ids), "descendants of the inventory")
    check_eq(Counter(x.id for x in obj.readableDescendants), Counter(i for i in ids if i.count(".") == 2), "texts of the inventory")
    for i in ids:
        check_eq(obj[i].id, i, "item access")
        check(i in obj, "{} not in the inventory", i)


def summary(inventory):
    """ labels for the evidence """
    texts_ = [t for g in inventory["textgroups"] for w in g["works"] for t in w["texts"]]
    return texts_
