""" C13 -- metadata exports contain exactly the selected statements """
from collections import Counter

from hypothesis import strategies as st
from lxml import etree

from ..common import LANGS, labels
from ..engine import Sub, check, check_eq, raises
from .c12 import DATATYPES, canon

XSD = "http://www.w3.org/2001/XMLSchema#"
NAMESPACES = ["http://purl.org/dc/elements/1.1/", "http://purl.org/dc/terms/", "http://chs.harvard.edu/xmlns/cts/", "https://w3id.org/dts/api#",
              "http://example.org/ns#", "http://example.org/ns/", "http://purl.org/capitains/ns/1.0#"]
NAMES = ["title", "titles", "label", "creator", "date_1", "a-b"]
FORMATS = ["json", "ld", "rdf", "cts"]


def make_term(value):
    from rdflib import Literal, URIRef
    kind = value["kind"]
    if kind == "lit":
        return Literal(value["text"], lang=value["lang"])
    if kind == "int":
        return Literal(value["v"])
    if kind == "typed":
        return Literal(value["text"], datatype=URIRef(value["datatype"]))
    return URIRef(value["text"])


def make_selection(selection):
    from rdflib import Namespace, URIRef
    if selection is None:
        return None
    out = []
    for item in selection["items"]:
        uri = NAMESPACES[item["ns"]] + ("" if item["name"] is None else NAMES[item["name"]])
        out.append({"str": str, "uri": URIRef, "ns": Namespace}[item["as"]](uri))
    return tuple(out) if selection["tuple"] else out


def predicate_uri(p):
    return NAMESPACES[p[0]] + NAMES[p[1]]


def run(case, ctx):
    from rdflib import Graph, URIRef, BNode, Literal
    from rdflib.compare import isomorphic
    from MyCapytain.common.constants import Mimetypes, get_graph
    from MyCapytain.common.metadata import Metadata

    metadata = Metadata(URIRef("urn:cts:a:b")) if case["uri"] else Metadata()
    other = Metadata(URIRef("urn:cts:a:b.c"))
    me = metadata.asNode()
    model = []
    for s in case["statements"]:
        p, term = URIRef(predicate_uri(s["p"])), make_term(s["value"])
        (other if s["other"] else metadata).add(p, term)
        if not s["other"] and (p, term) not in model:
            model.append((p, term))
    if case["linked"]:
        other.add(URIRef(NAMESPACES[0] + "relation"), me)
    before = set(get_graph())

    # what is selected, by predicate or namespace
    only, exclude = make_selection(case["only"]), make_selection(case["exclude"])
    kwargs = {}
    if only is not None:
        names = {str(x) for x in only}
        model = [(p, o) for p, o in model if str(p) in names or any(str(p)[len(n):] in NAMES and str(p).startswith(n) for n in names if n in NAMESPACES)]
        kwargs["only"] = only
    elif exclude is not None:
        names = {str(x) for x in exclude}
        model = [(p, o) for p, o in model if not (
            str(p) in names or any(str(p)[len(n):] in NAMES and str(p).startswith(n) for n in names if n in NAMESPACES))]
        kwargs["exclude"] = exclude
    argument = only if only is not None else exclude
    snapshot = list(argument) if argument is not None else None

    expected = Graph()
    for p, o in model:
        expected.add((me, p, o))

    for fmt in case["formats"]:
        what = "export {} {}".format(fmt, kwargs)
        if fmt == "json":
            got = metadata.export(Mimetypes.JSON.Std, **kwargs)
            if not kwargs:
                check_eq(metadata.export(), got, "default export")
            check(set(got) - {str(p) for p, _ in model} == set(), "{}: unexpected predicates in {!r}", what, got)
            for predicate in {str(p) for p, _ in model}:
                # the values are "title-cased" (asserted by the tests of the repository, known finding json-title)
                values = {}
                for p, o in model:
                    if str(p) == predicate and isinstance(o, Literal):
                        values.setdefault(o.language, []).append(str(o))
                have = got.get(predicate, {})
                check_eq(set(have), set(values), "{}: languages of {}".format(what, predicate))
                for lang, exp in values.items():
                    v = have[lang]
                    check(isinstance(v, (str, list)), "{}: {!r}", what, v)
                    v = [v] if isinstance(v, str) else v
                    check(len(exp) > 1 or len(v) == 1, "{}: {!r}", what, v)
                    check(Counter(map(str, v)) == Counter(exp) or Counter(map(str, v)) == Counter(x.title() for x in exp),
                          "{}: values of {} in {} are {!r} and not {!r}", what, predicate, lang, v, exp)
        elif fmt in ("ld", "rdf"):
            text = metadata.export(Mimetypes.JSON.LD if fmt == "ld" else Mimetypes.XML.RDF, **kwargs)
            got = Graph().parse(data=text, format="json-ld" if fmt == "ld" else "xml")
            check(isomorphic(got, expected), "{}:\n  expected {!r}\n  got {!r}", what, sorted(expected), sorted(got))
        else:
            text = metadata.export(Mimetypes.XML.CapiTainS.CTS, **kwargs)
            bindings = dict(get_graph().namespace_manager.namespaces())
            root = etree.fromstring("<root {}>{}</root>".format(
                " ".join('xmlns{}="{}"'.format(":" + k if k else "", v) for k, v in bindings.items() if k != "xml"), text))
            got = Counter()
            for node in root:
                check(len(node) == 0, "{}: {}", what, text)
                lang = node.get("{http://www.w3.org/XML/1998/namespace}lang")
                datatype = node.get("{http://www.w3.org/1999/02/22-rdf-syntax-ns#}datatype")
                check(len(node.attrib) == (lang is not None) + (datatype is not None), "{}: attributes {!r}", what, dict(node.attrib))
                got[node.tag.replace("{", "").replace("}", ""), node.text or "", lang, datatype] += 1
            exp = Counter()
            for p, o in model:
                lit = isinstance(o, Literal)
                exp[str(p), str(o), o.language if lit else None, str(o.datatype) if lit and o.datatype else None] += 1
            check_eq(got, exp, what)
        check(set(get_graph()) == before, "{}: the metadata have changed", what)
        if argument is not None:
            check(len(argument) == len(snapshot) and all(a is b for a, b in zip(argument, snapshot)), "{}: the argument has become {!r}", what, argument)
        check_eq(Counter(map(canon, metadata.get(URIRef(predicate_uri((0, 0)))))),
                 Counter(canon(o) for s, p, o in before if s == me and str(p) == predicate_uri((0, 0))), "values after " + what)
        ctx.label(fmt)
    raises(NotImplementedError, "unknown format", metadata.export, Mimetypes.PYTHON.NestedDict)
    ctx.label("only" if only is not None else "exclude" if exclude is not None else "all")
    if kwargs and model and len(model) < len({(p, o) for s, p, o in before if s == me}):
        ctx.label("strict selection")
    ctx.nontrivial(len(model) > 1)


def run_title(case, ctx):
    from rdflib import URIRef
    from MyCapytain.common.metadata import Metadata
    m = Metadata()
    m.add(URIRef("http://purl.org/dc/terms/title"), case["text"], "eng")
    check_eq(m.export("application/text")["http://purl.org/dc/terms/title"]["eng"], case["text"], "value in the JSON export")


PROBES = {"json-title": run_title}


def _cases():
    text = st.one_of(st.sampled_from(["Title", "Title", "SubTitle", "5", "été"]), labels())
    value = st.one_of(
        st.fixed_dictionaries({"kind": st.just("lit"), "text": text, "lang": st.one_of(st.none(), st.sampled_from(LANGS[:4]))}),
        st.fixed_dictionaries({"kind": st.just("lit"), "text": text, "lang": st.sampled_from(["eng", "fre", "fr-CA"])}),
        st.fixed_dictionaries({"kind": st.just("int"), "v": st.integers(-3, 50)}),
        st.fixed_dictionaries({"kind": st.just("typed"), "text": st.sampled_from(["1837", "2001"]), "datatype": DATATYPES}),
        st.fixed_dictionaries({"kind": st.just("uri"), "text": st.sampled_from(["http://ex.org/1?a=b&c=d", "urn:cts:a:b", "urn:x:y"])}))
    predicate = st.tuples(st.integers(0, len(NAMESPACES) - 1), st.integers(0, len(NAMES) - 1))
    few = st.tuples(st.sampled_from([0, 1, 2, 4, 5]), st.integers(0, 1))
    statement = st.fixed_dictionaries({"p": st.one_of(few, predicate), "value": value, "other": st.sampled_from([False] * 4 + [True])})
    # several values for one predicate and language
    texts = st.one_of(st.sampled_from(["A", "B", "C", "D", "Title", "été"]), text)
    heap = st.builds(lambda p, ts: [{"p": p, "value": {"kind": "lit", "text": t, "lang": l}, "other": False} for t, l in ts], few,
                     st.integers(2, 8).flatmap(lambda n: st.lists(st.tuples(texts, st.sampled_from(["eng", "eng", None, "fre"])), min_size=n, max_size=n)))
    statements_ = st.one_of(st.lists(statement, min_size=3, max_size=12), st.builds(lambda h, l: h + l, heap, st.lists(statement, max_size=4)))
    item = st.one_of(
        st.fixed_dictionaries({"ns": st.sampled_from([0, 1, 2, 4, 5, 3, 6]), "name": st.none(), "as": st.sampled_from(["str", "uri", "ns"])}),
        st.fixed_dictionaries({"ns": st.sampled_from([0, 1, 2, 4, 5, 3, 6]), "name": st.sampled_from([0, 1, 0, 1, 2, 3]), "as": st.sampled_from(["str", "uri"])}))
    selection = st.fixed_dictionaries({"items": st.lists(item, max_size=3), "tuple": st.booleans()})
    return st.builds(
        lambda statements, mode, sel, uri, linked, formats: {
            "statements": statements, "only": sel if mode == 1 else None, "exclude": sel if mode == 2 else None, "uri": uri, "linked": linked,
            "formats": formats},
        statements_, st.integers(0, 2), selection, st.booleans(), st.booleans(), st.permutations(FORMATS))


SUBS = [
    Sub("export", _cases, run, quick=900, thorough=18000, rule="two statements or more are selected"),
]
