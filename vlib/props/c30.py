""" C30 -- shared utilities: export dispatch, paging headers, URIs, nested dictionaries, sub-graphs, XML nodes """
import copy
import math
import pickle
import re
from urllib.parse import parse_qs, quote, urljoin, urlsplit

from hypothesis import strategies as st

from ..engine import Sub, check, check_eq, raises

# ------------------------------------------------------------------------------------------- export dispatch

FORMATS = ["text/plain", "text/xml", "python/lxml", "application/ld+json", "text/xml:tei"]


def run_dispatch(case, ctx):
    from MyCapytain.common.base import Exportable
    classes = []
    for n, spec in enumerate(case["classes"]):
        bases = [Exportable]
        if spec["bases"] and classes:
            bases = []
            for i in spec["bases"]:
                if classes[i % len(classes)] not in bases:
                    bases.append(classes[i % len(classes)])
        body = {}
        if spec["formats"] is not None:
            body["EXPORT_TO"] = [FORMATS[i] for i in spec["formats"]]
        if spec["default"] is not None:
            body["DEFAULT_EXPORT"] = FORMATS[spec["default"]]
        if spec["implements"] or spec["formats"] is not None:
            def __export__(self, output=None, _n=n, **kwargs):
                return (_n, output, kwargs)
            body["__export__"] = __export__
        try:
            cls = type("C{}".format(n), tuple(bases), body)
        except TypeError:  # No consistent order of the bases
            cls = type("C{}".format(n), (bases[0],), body)
        cls._n = n
        classes.append(cls)
    several = False
    for n, cls in enumerate(classes):
        obj = cls()
        mro = cls.__mro__
        supported = {f: [c for c in mro if f in c.__dict__.get("EXPORT_TO", ())] for f in FORMATS}
        check_eq(set(obj.export_capacities), {f for f in FORMATS if supported[f]}, "C{}: export_capacities".format(n))
        default = next((c.__dict__["DEFAULT_EXPORT"] for c in mro if "DEFAULT_EXPORT" in c.__dict__), None)
        for output in FORMATS + [None, "application/x-unknown", ""]:
            wanted = output if output is not None else default
            for kwargs in ({}, {"exclude": ["tei:note"], "only": None}):
                what = "export({!r}, {}) of C{}({})".format(output, kwargs, n, ", ".join(c.__name__ for c in mro[1:-1]))
                if wanted is None or not supported.get(wanted):
                    raises(NotImplementedError, what, lambda: obj.export(output, **kwargs))
                    continue
                # The most derived class whose own or inherited list of formats holds the format, and the code this class uses
                user = next(c for c in mro if wanted in getattr(c, "EXPORT_TO", ()))
                owner = next(c for c in user.__mro__ if "__export__" in c.__dict__)
                several = several or len(supported[wanted]) > 1
                got = obj.export(output, **kwargs) if not case["keyword"] else obj.export(output=output, **kwargs)
                check_eq(got, (owner._n, wanted, kwargs), what)
                ctx.label("default" if output is None else "explicit")
    ctx.nontrivial(several and len(classes) > 2)


def _dispatch_cases():
    cls = st.fixed_dictionaries({
        "bases": st.lists(st.integers(0, 7), max_size=2), "formats": st.sampled_from([0, 1, 1]).flatmap(lambda some: st.lists(st.integers(0, len(FORMATS) - 1), max_size=3, unique=True) if some else st.none()),
        "default": st.one_of(st.none(), st.integers(0, len(FORMATS) - 1)), "implements": st.booleans()})
    return st.fixed_dictionaries({"classes": st.integers(1, 6).flatmap(lambda n: st.lists(cls, min_size=n, max_size=n)), "keyword": st.booleans()})


# -------------------------------------------------------------------------------------------- paging headers

RELS = {"previous": "prev", "next": "next", "last": "last", "current": "current", "first": "first"}
OTHERS = [("id", "lettres_de_poilus"), ("id", "urn:cts:a:b.c"), ("q", "page=7"), ("npage", "12"), ("page_size", "20"), ("nav", "parents"), ("k", "a&page=9"), ("é", "à"), ("empty", "")]
BASES = ["/api/dts/collections/", "http://foobar.com/api/dts", "?", "collections", "https://other.org:80/page=4/x", "./page/3"]


def run_links(case, ctx):
    from MyCapytain.common.utils import parse_pagination
    links, expected = [], {}
    for link in case["links"]:
        params = [OTHERS[i] for i in link["others"]]
        if link["page"] is not None:
            params.insert(link["at"] % (len(params) + 1), ("page", link["page"]))
        query = "&".join("{}={}".format(quote(k, safe=""), quote(v, safe="")) for k, v in params)
        base = BASES[link["base"]]
        href = (base if base != "?" else "") + ("?" + query if query else "") + link["fragment"]
        links.append("<{}>; rel={}".format(href, '"{}"'.format(link["rel"]) if link["quoted"] else link["rel"]) + ["", "; title=\"a, b\"", "; type=\"text/html\""][link["extra"]])
        expected[link["rel"]] = link["page"]
        ctx.label("page at {} of {}".format(min(link["at"] % (len(link["others"]) + 1), 2), min(len(params), 3)) if link["page"] is not None else "no page")
    headers = {"Content-Type": "application/ld+json"}
    if links:
        headers["Link"] = ", ".join(links)
    if case["insensitive"]:
        from requests.structures import CaseInsensitiveDict
        headers = CaseInsensitiveDict({k.lower(): v for k, v in headers.items()})
    got = parse_pagination(headers)
    for rel, name in RELS.items():
        check_eq(getattr(got, name), expected.get(rel), "page of {} in {!r}".format(rel, headers.get("link" if case["insensitive"] else "Link")))
    ctx.nontrivial(len([x for x in expected.values() if x is not None]) > 1 and any(l["others"] for l in case["links"]))


def _links_cases():
    link = st.fixed_dictionaries({
        "rel": st.sampled_from(sorted(RELS)), "page": st.sampled_from([None, "1", "2", "18", "500", "3", "a b", "20"]), "at": st.integers(0, 3), "others": st.lists(st.integers(0, len(OTHERS) - 1), max_size=3, unique=True),
        "base": st.integers(0, len(BASES) - 1), "fragment": st.sampled_from(["", "", "#page=6", "#x"]), "quoted": st.booleans(), "extra": st.integers(0, 2)})
    return st.fixed_dictionaries({"links": st.lists(link, max_size=5, unique_by=lambda l: l["rel"]), "insensitive": st.booleans()})


# ------------------------------------------------------------------------------------------------------ URIs

SEGMENTS = ["api", "dts", "a%20b", "x;v=1", "collections", "..", ".", "é", "a:b"]


def run_uris(case, ctx):
    from MyCapytain.common.utils import parse_uri
    endpoint = "http://endpoint.org" + "".join("/" + s for s in case["endpoint"]) + case["slash"]
    path = "/".join(case["path"])
    if case["kind"] in ("absolute", "scheme"):
        path = "/" + path
    elif case["kind"] == "rooted":
        path = "/" + path
    elif path.partition("/")[0].count(":"):
        path = "./" + path
    uri = {"absolute": "https://other.org:8080", "scheme": "//cdn.org", "rooted": "", "relative": ""}[case["kind"]] + path
    if case["query"]:
        uri += "?" + "&".join("{}={}".format(quote(k, safe=""), quote(v, safe="")) for k, v in case["query"])
    if not uri:
        return
    got = parse_uri(uri, endpoint)
    full = urlsplit(urljoin(endpoint, uri))
    check_eq(got.path, "{}://{}{}".format(full.scheme, full.netloc, full.path), "path of {!r} on {!r}".format(uri, endpoint))
    expected = {}
    for k, v in case["query"]:
        expected.setdefault(k, []).append(v)
    check_eq(dict(got.query_dict), expected, "query of {!r}".format(uri))
    ctx.label(case["kind"])
    ctx.nontrivial(bool(case["query"]) and len(case["path"]) > 1)


def _uris_cases():
    return st.fixed_dictionaries({
        "endpoint": st.lists(st.sampled_from(["api", "dts", "v1", "a%20b"]), max_size=3), "slash": st.sampled_from(["", "/"]), "kind": st.sampled_from(["absolute", "scheme", "rooted", "relative", "relative"]),
        "path": st.lists(st.sampled_from(SEGMENTS), max_size=4), "query": st.lists(st.tuples(st.sampled_from(["api", "key", "x", "é"]), st.sampled_from(["", "1", "a&b", "c d", "?", "é", "a=b", "#"])).map(list), max_size=3)}) \
        .map(lambda c: dict(c, path=[s for s in c["path"] if s]))


# --------------------------------------------------------------------------------------- nested dictionaries

def _plain(d):
    """ Nested (key, value) pairs, in order """
    from MyCapytain.common.utils import OrderedDefaultDict
    return [[k, _plain(v) if isinstance(v, dict) else v] for k, v in d.items()]


def run_nested(case, ctx):
    from MyCapytain.common.utils import nested_get, nested_ordered_dictionary, nested_set, OrderedDefaultDict
    d, model = nested_ordered_dictionary(), {}
    leaves = {}
    for keys, value in case["sets"]:
        if any(tuple(keys[:i]) in leaves for i in range(1, len(keys))) or any(k[:len(keys)] == tuple(keys) and len(k) > len(keys) for k in leaves):
            continue  # A value stands where keys are needed
        leaves[tuple(keys)] = value
        given = list(keys)
        nested_set(d, given, value)
        check_eq(given, keys, "keys given to nested_set")
        at = model
        for k in keys[:-1]:
            at = at.setdefault(k, {})
        at[keys[-1]] = value
    check_eq(_plain(d), _plain(model), "after {}".format(case["sets"]))
    for keys, value in leaves.items():
        given = list(keys)
        check_eq(nested_get(d, given), value, "nested_get of {}".format(keys))
        check_eq(given, list(keys), "keys given to nested_get")
    check(d == model, "the nested dictionary {} is not equal to {}", d, model)
    how = case["copy"]
    duplicate = {"copy": copy.copy, "deepcopy": copy.deepcopy, "method": lambda x: x.copy(), "pickle": lambda x: pickle.loads(pickle.dumps(x)), "none": lambda x: x}[how](d)
    check_eq(_plain(duplicate), _plain(model), "copy ({})".format(how))
    nested_set(duplicate, ["new", "sub", "key"], 1)
    check_eq(nested_get(duplicate, ["new", "sub", "key"]), 1, "a copy ({}) takes new paths".format(how))
    if how != "none":
        check("new" not in d, "a key set in a copy ({}) is in the original", how)
    strict = OrderedDefaultDict(None, list(leaves.items()))
    check_eq(list(strict.items()), list(leaves.items()), "OrderedDefaultDict")
    raises(KeyError, "missing key without factory", lambda: strict["missing"])
    counted = OrderedDefaultDict(list)
    for keys, value in leaves.items():
        counted[keys[0]].append(value)
    check_eq(list(counted), list(dict.fromkeys(k[0] for k in leaves)), "order of the keys made by the factory")
    ctx.label("copy " + how)
    ctx.nontrivial(len(leaves) > 3 and len({len(k) for k in leaves}) > 1)


def _nested_cases():
    key = st.sampled_from(["1", "2", "10", "pr", "a", "α", "0"])
    return st.fixed_dictionaries({"sets": st.lists(st.tuples(st.lists(key, min_size=1, max_size=4), st.sampled_from(["arma", "", "x y", 0, None])).map(list), max_size=14),
                                  "copy": st.sampled_from(["copy", "deepcopy", "method", "pickle", "none"])})


# ----------------------------------------------------------------------------------------------- sub-graphs

def _node(i):
    from rdflib import BNode, Literal, URIRef
    # Literals which read like a node of the graph; two blank nodes
    if i < 6:
        return URIRef("urn:n{}".format(i))
    if i < 8:
        return BNode("b{}".format(i))
    return [Literal("text"), Literal("urn:n1"), Literal("urn:n2"), Literal("5", lang="fr")][i - 8]


def _reach(triples, target, limit, near, far, skip):
    """ Statements reached from the target in at most `limit` steps; `skip(statement, is it the last step)` leaves out a step """
    found, distance, frontier = set(), {target: 0}, [target]
    while frontier:
        following = []
        for node in frontier:
            if distance[node] >= limit:
                continue
            for t in triples:
                if t[near] != node or skip(t, distance[node] + 1 >= limit):
                    continue
                found.add(t)
                if t[far] not in distance:
                    distance[t[far]] = distance[node] + 1
                    following.append(t[far])
        frontier = following
    return found


def _within(triples, target, ascendants, descendants):
    """ Statements which must and which may be found. What becomes of blank nodes at the end of the way down, and of the blank nodes
    on the way up, is not settled """
    from rdflib import BNode
    up, down = (math.inf if n < 0 else n for n in (ascendants, descendants))
    may = _reach(triples, target, down, 0, 2, lambda t, last: False) | _reach(triples, target, up, 2, 0, lambda t, last: False)
    must = _reach(triples, target, down, 0, 2, lambda t, last: last and isinstance(t[2], BNode)) \
        | _reach(triples, target, up, 2, 0, lambda t, last: isinstance(t[0], BNode))
    return must, may


def run_subgraph(case, ctx):
    from rdflib import Graph, URIRef
    from MyCapytain.common.utils import Subgraph
    graph = Graph()
    triples = set()
    for s, p, o in case["triples"]:
        t = (_node(s % 8), URIRef("http://ex.org/p{}".format(p)), _node(o))
        triples.add(t)
        graph.add(t)
    store = Subgraph({"ex": "http://ex.org/"})
    must, may = set(), set()
    for ask in case["asks"]:
        target = _node(ask["target"])
        a, b = _within(triples, target, ask["up"], ask["down"])
        must |= a
        may |= b
        store.graphiter(graph, target, ascendants=ask["up"], descendants=ask["down"])
        got = set(store.graph)
        what = "asks {}, statements {}".format(case["asks"], sorted(case["triples"]))
        check(not must - got, "missing statement {}: {}", sorted(must - got)[:3], what)
        check(not got - must - may, "statement out of reach {}: {}", sorted(got - must - may)[:3], what)
        ctx.label("down {}".format(ask["down"]))
        ctx.label("up {}".format(ask["up"]))
    check_eq(set(graph), triples, "the graph itself")
    back = Graph().parse(data=store.serialize(format="nt"), format="nt")
    check_eq(len(back), len(store.graph), "serialized sub-graph")
    ctx.nontrivial(len(must) > 2 and len(must) < len(triples))


def _subgraph_cases():
    triple = st.tuples(st.integers(0, 7), st.integers(0, 2), st.sampled_from([0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])).map(list)
    ask = st.fixed_dictionaries({"target": st.integers(0, 5), "up": st.sampled_from([0, 1, 0, 2, 3, -1]), "down": st.sampled_from([0, 1, 1, 2, 3, 4, -1])})
    return st.fixed_dictionaries({"triples": st.lists(triple, min_size=1, max_size=14), "asks": st.lists(ask, min_size=1, max_size=2)})


# ------------------------------------------------------------------------------------- names, spaces, nodes

def run_texts(case, ctx):
    from lxml import etree
    from rdflib import URIRef
    from MyCapytain.common.constants import bind_graph
    from MyCapytain.common.utils import expand_namespace, normalize
    from MyCapytain.common.utils.xml import make_xml_node, xmlparser
    # names
    nsmap = {p: "http://ns.org/{}#".format(i) for i, p in enumerate(case["prefixes"])}
    nsmap[None] = "http://default.org/"
    name = case["name"]
    prefix, colon, rest = name.partition(":")
    wanted = nsmap[prefix] + rest if colon and prefix in nsmap else name
    check_eq(expand_namespace(nsmap, name), wanted, "expand_namespace({!r}, {!r})".format(nsmap, name))
    check_eq(nsmap, dict([(None, "http://default.org/")] + [(p, "http://ns.org/{}#".format(i)) for i, p in enumerate(case["prefixes"])]), "the prefixes given")
    # spaces
    check_eq(normalize(case["text"]), re.sub("  +", " ", case["text"]), "normalize({!r})".format(case["text"]))
    # nodes
    graph = bind_graph()
    graph.bind("ex", "http://ex.org/ns#")
    tag = URIRef("http://ex.org/ns#" + case["tag"])
    attributes = dict(case["attributes"]) if case["attributes"] is not None else None
    text, header = case["text"], {"xmlns:ex": "http://ex.org/ns#"}
    inner = make_xml_node(graph, tag, text=case["inner"], complete=True) if case["inner"] is not None else ""
    if case["complete"]:
        xml = make_xml_node(graph, tag, attributes=attributes, text=text, innerXML=inner, complete=True)
    else:
        from xml.sax.saxutils import escape
        xml = make_xml_node(graph, tag, attributes=attributes) + escape(text) + inner + make_xml_node(graph, tag, close=True)
    check(attributes is None or attributes == dict(case["attributes"]), "the attributes given have become {!r}", attributes)
    for source in (xml, "<?xml version=\"1.0\" encoding=\"iso-8859-1\"?>" + xml):
        root = xmlparser("<ex:root xmlns:ex=\"http://ex.org/ns#\">{}</ex:root>".format(xml) if source is xml else source.replace("<ex:" + case["tag"], "<ex:{} xmlns:ex=\"http://ex.org/ns#\"".format(case["tag"]), 1),
                         objectify=case["objectify"])
        node = root[0] if source is xml and not case["objectify"] else root
        if source is xml and case["objectify"]:
            node = list(root.iterchildren())[0]
        check_eq(node.tag, "{http://ex.org/ns#}" + case["tag"], "tag of " + xml)
        check_eq(dict(node.attrib), attributes or {}, "attributes of " + xml)
        check_eq(node.text or "", text, "text of " + xml)
        check_eq([c.text or "" for c in node.iterchildren()], [case["inner"]] if case["inner"] is not None else [], "inner nodes of " + xml)
        check(xmlparser(node) is node, "an element is not taken as it is")
    for wrong in (None, 5, {"a": 1}, [xml]):
        raises(TypeError, "xmlparser({!r})".format(wrong), lambda: xmlparser(wrong))
    ctx.label("prefix" if wanted != name else "no prefix")
    ctx.nontrivial(bool(set("<&>\"'") & set(case["text"])) and (wanted != name or "  " in case["text"]))


def _texts_cases():
    piece = st.sampled_from(["a", "  ", " ", "   ", "<", "&", ">", "\"", "'", "é", "arma", "]]>", "&amp;", "\u00a0", "\u2003", "ἄ", "{", "}", "<!--", "%s", "{0}"])
    text = st.lists(piece, max_size=8).map("".join).filter(lambda s: not s or not s.isspace())
    return st.fixed_dictionaries({
        "prefixes": st.lists(st.sampled_from(["s", "xs", "xsd", "ex", "a", "urn", "n-s"]), min_size=1, max_size=4, unique=True), "name": st.sampled_from(
            ["xsd:string", "s:axs:b", "ex:ex:x", "a:b", "urn:cts:a:b", "xs:s:", "gYear", "http://www.w3.org/x", "s:", "n-s:x", ":x", "exs:a", "s:xs:s:y"]),
        "text": text, "inner": st.one_of(st.none(), text), "tag": st.sampled_from(["work", "x-y", "edition", "né", "a.b"]),
        "attributes": st.one_of(st.none(), st.dictionaries(st.sampled_from(["urn", "label", "x", "scope"]), text, min_size=1, max_size=3)), "complete": st.booleans(), "objectify": st.booleans()})


SUBS = [
    Sub("dispatch", _dispatch_cases, run_dispatch, quick=600, thorough=20000, rule="at least three classes, two of which support a same format"),
    Sub("links", _links_cases, run_links, quick=800, thorough=30000, rule="several relations with a page, and other parameters"),
    Sub("uris", _uris_cases, run_uris, quick=800, thorough=30000, rule="a query and a path of several segments"),
    Sub("nested", _nested_cases, run_nested, quick=600, thorough=20000, rule="more than three values at different depths"),
    Sub("subgraph", _subgraph_cases, run_subgraph, quick=1500, thorough=60000, rule="a part, not all, of the graph is within the distance"),
    Sub("texts", _texts_cases, run_texts, quick=600, thorough=20000, rule="text which must be escaped, and a prefixed name or double spaces"),
]
ASSUMPTIONS = ["every link of a Link header has one relation", "statements with a blank node at the end of the way down, or on the way up, may be given or not",
               "texts of XML nodes are not only spaces, and without line breaks in attributes"]
