""" C29 -- the DTS retriever follows the routes and parameters of the endpoint """
import json
from collections import Counter
from urllib.parse import parse_qsl, urljoin, urlsplit

from hypothesis import strategies as st

from ..engine import Sub, check, check_eq, raises
from ..wire import Wire
from .c22 import outcome

ENDPOINTS = ["http://domainname.com/api/dts/", "http://domainname.com/api/dts", "https://dts.example.org:8443/", "http://domainname.com", "http://domainname.com/a%20b/dts.xq",
             "http://domainname.com/dts/?version=1"]
NAMES = ["collections", "documents", "navigation"]
#: {} is the name of the route
ROUTES = ["/dts/api/{}/", "/dts/api/{}", "./{}/", "{}", "../{}", "?api={}", "?api={}&key=a%26b+c", "{}?x=1&x=2", "/dts/{}?debug=&lang=grc", "http://domainname.com/api/{}/", "http://other.org/dts/{}",
          "https://other.org:8080/{}?token=%C3%A9t%C3%A9", "//cdn.example.org/{}/v1", "/a%2Fb/{}/", "{}/?q=%2F", "/x;v=1/{}"]
CALLS = {
    "collections": [("collection_id", "id"), ("nav", "nav"), ("page", "page")],
    "navigation": [("collection_id", "id"), ("level", "level"), ("group_by", "groupBy"), ("max_", "max"), ("exclude", "exclude"), ("page", "page"), ("ref", None)],
    "documents": [("collection_id", "id"), ("ref", None), ("mimetype", None)],
}
METHODS = {"collections": "get_collection", "navigation": "get_navigation", "documents": "get_document"}
REFS = ["str", "int", "dts", "dts-range", "dts-int", "cts", "cts-range", "tuple", None, None]


def reference(kind, a, b):
    """ Reference to give, parameters expected """
    from MyCapytain.common.reference import CtsReference, DtsReference
    a, b = a or "1.1", b or "2"
    plain = ["1.1", "1.pr@Hic[1]", "α"][len(a) % 3]
    if kind == "str":
        return a, {"ref": a}
    if kind == "int":
        return len(a) % 4, {"ref": str(len(a) % 4)}
    if kind == "dts":
        return DtsReference(a), {"ref": a}
    if kind == "dts-range":
        return DtsReference(a, b, type_="line"), {"start": a, "end": b}
    if kind == "dts-int":
        return DtsReference(1, 3), {"start": "1", "end": "3"}
    if kind == "cts":
        return CtsReference(plain), {"ref": plain}
    if kind == "cts-range":
        return CtsReference(plain + "-3"), {"start": plain, "end": "3"}
    if kind == "tuple":
        return (a, b), {"start": a, "end": b}
    return None, {}


def run(case, ctx):
    import requests
    from MyCapytain.common.reference import URN
    from MyCapytain.retrievers.dts import HttpDtsRetriever
    endpoint = ENDPOINTS[case["endpoint"] % len(ENDPOINTS)]
    routes = {name: ROUTES[i % len(ROUTES)].format(name) for name, i in zip(NAMES, case["routes"])}
    full = {name: urlsplit(urljoin(endpoint, route)) for name, route in routes.items()}
    state = {"broken": case["broken"]}

    def is_entry(asked):
        return asked.url.rstrip("/?") == endpoint.rstrip("/?")

    def handler(asked):
        if is_entry(asked):
            if state["broken"]:
                return state["broken"], {"Content-Type": "text/html"}, b"<html/>"
            entry = {"@context": "/dts/api/contexts/EntryPoint.jsonld", "@id": "/dts/api/", "@type": "EntryPoint"}
            entry.update(routes)
            return 200, {"Content-Type": "application/ld+json"}, json.dumps(entry).encode("utf-8")
        return state["status"], {"Content-Type": "application/ld+json; charset=utf-8", "Link": "</x>; rel=\"next\""}, state["body"]

    retriever = HttpDtsRetriever(endpoint)
    check_eq(retriever.endpoint, endpoint, "endpoint")
    state.update(status=200, body=b"{}")
    with Wire(handler) as wire:
        if state["broken"]:
            raises(requests.HTTPError, "entry point with status {}".format(state["broken"]), lambda: retriever.get_collection("x"))
            state["broken"] = 0
            ctx.label("entry point fails")
        for n, op in enumerate(case["ops"]):
            name, values = op["route"], op["values"]
            body = json.dumps({"step": n, "text": "ἄνδρα & été"}, ensure_ascii=False).encode("utf-8")
            state.update(status=op["status"], body=body)
            given, expected, accept = {}, {}, None
            for argument, parameter in CALLS[name]:
                if argument == "ref":
                    ref, sent = reference(op["ref"], values["a"], values["b"])
                    expected.update(sent)
                    if ref is not None or op["explicit"]:
                        given["ref"] = ref
                elif argument == "mimetype":
                    if values["mimetype"] is not None:
                        accept = given["mimetype"] = values["mimetype"]
                else:
                    value = values[argument]
                    if argument == "collection_id" and value is None and name != "collections":
                        value = "urn:cts:a:b.c"
                    if argument == "nav" and value not in ("children", "parents"):
                        value = None
                    if value is None:
                        if op["explicit"] and argument != "nav":
                            given[argument] = None
                        continue
                    given[argument] = URN("urn:cts:a:b.c-d.e") if argument == "collection_id" and op["object"] else value
                    expected[parameter] = str(given[argument])
            what = "step {}: {}({!r})".format(n, METHODS[name], given)
            fn = lambda: getattr(retriever, METHODS[name])(**given)
            before = len(wire.log)
            if op["status"] >= 400:
                raises(requests.HTTPError, "{} with status {}".format(what, op["status"]), fn)
                ctx.label("HTTP error")
            else:
                kind, got = outcome(fn)
                if kind == "raised":
                    fn()
                check_eq(got.text, body.decode("utf-8"), what + ": reply")
                check_eq(got.headers.get("Link"), "</x>; rel=\"next\"", what + ": headers")
            asked = [a for a in wire.log[before:] if not is_entry(a) or (full[name].geturl().rstrip("/?") == endpoint.rstrip("/?"))]
            check_eq(len(asked), 1, what + ": number of requests")
            check(len(wire.log) - before <= 2, "{}: requests {}", what, [a.url for a in wire.log[before:]])
            asked = asked[0]
            check_eq(asked.method, "GET", what + ": method")
            where = full[name]
            check_eq(asked.base.rstrip("/"), "{}://{}{}".format(where.scheme, where.netloc, where.path).rstrip("/"), "{}: address, with route {!r} of {!r}".format(what, routes[name], endpoint))
            wanted = Counter(list(expected.items()) + parse_qsl(where.query, keep_blank_values=True))
            pairs = Counter(asked.pairs)
            if name == "collections":
                # first page, children : the same with or without saying it
                for default in (("nav", "children"), ("page", "1")):
                    wanted.pop(default, None), pairs.pop(default, None)
            check_eq(pairs, wanted, "{}: parameters, with route {!r}".format(what, routes[name]))
            check(not asked.body and not asked.fragment, "{}: {!r} {!r}", what, asked.body, asked.fragment)
            if accept is not None:
                check_eq(asked.headers.get("Accept"), accept, what + ": Accept")
            ctx.label(name)
            ctx.label("ref " + str(op["ref"] if name != "collections" else None))
        for name in NAMES:
            ctx.label("route " + ROUTES[case["routes"][NAMES.index(name)] % len(ROUTES)].format("*"))
    ctx.nontrivial(len({op["route"] for op in case["ops"]}) > 1 and any(v and not v.isascii() or v and set("&=#+ %?") & set(v) for op in case["ops"] for v in op["values"].values()
                                                                        if isinstance(v, str)))


_CHARS = ["a", "1", "&", "=", "?", "#", "%", "+", " ", "é", "Ἀ", "/", ":", "@", "[", "]", "'", '"', "\n", "%20", "&page=x", "中", "😀", "<", ";", ",", ".", "-", "~", "\\", "|", "{}"]


def _cases():
    text = st.one_of(st.sampled_from(["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "http://data.bnf.fr/ark:/12148/cb11936111v", "/coll1_1", "lettres_de_poilus", "1.1", "Av"]),
                     st.lists(st.sampled_from(_CHARS), min_size=1, max_size=6).map("".join))
    maybe = st.one_of(st.none(), text, text)
    number = st.one_of(st.none(), st.integers(0, 12))
    op = st.fixed_dictionaries({
        "route": st.sampled_from(NAMES), "values": st.fixed_dictionaries({
            "collection_id": maybe, "a": text, "b": text, "nav": st.sampled_from([None, "children", "parents"]), "page": st.one_of(number, st.sampled_from(["2", "10"])), "level": number,
            "group_by": number, "max_": number, "exclude": maybe, "mimetype": st.sampled_from([None, None, "text/html", "application/tei+xml"])}),
        "explicit": st.booleans(), "object": st.sampled_from([False, False, False, True]), "ref": st.sampled_from(REFS),
        "status": st.sampled_from([200, 200, 200, 200, 201, 400, 401, 404, 418, 500, 503])})
    return st.fixed_dictionaries({"endpoint": st.integers(0, len(ENDPOINTS) - 1), "routes": st.lists(st.integers(0, len(ROUTES) - 1), min_size=3, max_size=3),
                                  "broken": st.sampled_from([0, 0, 0, 0, 0, 404, 500]), "ops": st.lists(op, min_size=2, max_size=8)})


SUBS = [
    Sub("calls", _cases, run, quick=1500, thorough=20000,
        rule="several routes are used and a parameter holds a character which a URL must escape")
]
ASSUMPTIONS = ["page=1 and nav=children of collections are the defaults of DTS: sent or not", "routes without URI templates; no parameter is both fixed by a route and given",
               "an empty string as reference is no reference"]
