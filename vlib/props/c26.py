""" C26 -- listing the references of a DTS resource: all pages, in order, once; a page which cannot be read is an error """
import json
from urllib.parse import parse_qsl

from hypothesis import strategies as st

from .. import dts
from ..dts import DTS, HYDRA
from ..dts_server import Endpoint, reply, view, view_forms
from ..engine import Sub, check, check_eq, raises
from .c29 import reference

IDS = ["urn:cts:greekLit:tlg0012.tlg001.opp-grc", "http://ex.org/c?id=1&page=2", "page=7", "lettres", "http://data.bnf.fr/ark:/12148/cb11936111v#page=4", "é à", "urn:cts:a:b.c&page=9"]
REFS = ["str", "int", "dts", "dts-range", "dts-int", "tuple", None, None, None]
#: next links which do not name a page to read
WRONG_NEXT = ["http://foobar.com/api/dts/navigation?id=x", "/api/dts/navigation?page=", "?page=abc", "?npage=2", "/page=2/navigation", "", "?q=page%3D2", "?page=0"]


def pages_of(case):
    """ The members of each page """
    out, members, sizes = [], list(case["members"]), list(case["sizes"])
    while members or not out:
        size = sizes[len(out) % len(sizes)]
        out.append(members[:size])
        members = members[size:]
    if case["empty_end"]:
        out.append([])
    return out


def write_member(w, m):
    body = {}
    if "start" in m:
        body[w.name(DTS + "start")], body[w.name(DTS + "end")] = m["start"], m["end"]
    else:
        body[w.name(DTS + "ref")] = m["ref"] if w.bit(2) else {"@value": m["ref"]}
    if m["type"]:
        body[w.name(DTS + "citeType")] = m["type"]
    for key in ("dublincore", "extensions"):
        if m[key]:
            body[w.name(DTS + key)] = w.terms(m[key])
    return body


def check_reference(ref, m, default, where):
    from MyCapytain.common.reference import DtsReference
    check(type(ref) is DtsReference, "{}: is a {}", where, type(ref))
    ends = (m["start"], m["end"]) if "start" in m else (m["ref"], None)
    check_eq(tuple(ref), ends, where)
    check_eq(bool(ref.is_range()), "start" in m, where + ": is a range")
    check_eq((ref.start, ref.end), ends, where + ": start and end")
    kind = m["type"] or default
    check_eq(None if ref.type is None else str(ref.type), kind, where + ": type")
    got = {(str(p), dts.canon(o)) for p, o in ref.metadata.graph.predicate_objects(ref.metadata.asNode())}
    expected = {(t, dts.canon(dts.make_value(v))) for key in ("dublincore", "extensions") for t, vals in m[key] for v in vals}
    if kind:
        expected.add((DTS + "citeType", ("lit", kind, None, None)))
    check_eq(got, expected, where + ": metadata")
    for key in ("dublincore", "extensions"):
        for t, vals in m[key]:
            from rdflib import URIRef
            check({dts.canon(dts.make_value(v)) for v in vals} <= {dts.canon(o) for o in ref.metadata.get(URIRef(t))}, "{}: metadata.get({})", where, t)


def check_set(reffs, case, pages, where):
    from MyCapytain.common.reference import DtsCitation, DtsReferenceSet
    check(type(reffs) is DtsReferenceSet, "{}: is a {}", where, type(reffs))
    members = [m for page in pages for m in page]
    types = [case["types"][n % len(case["types"])] for n, page in enumerate(pages) for m in page]
    check_eq([tuple(r) for r in reffs], [(m["start"], m["end"]) if "start" in m else (m["ref"], None) for m in members], where)
    for n, (ref, m, kind) in enumerate(zip(reffs, members, types)):
        check_reference(ref, m, kind, "{}[{}]".format(where, n))
    check_eq(reffs.level, case["sent_level"], where + ": level")
    sent = {case["types"][n % len(case["types"])] for n in range(len(pages))}
    # when pages do not say the same, the citation of the whole is not defined
    check((None if reffs.citation is None else reffs.citation.name) in sent, "{}: citation is {!r} and not {}", where, reffs.citation, sent)
    check(reffs.citation is None or isinstance(reffs.citation, DtsCitation), "{}: citation is {!r}", where, reffs.citation)
    for m, kind in zip(members, types):
        if "ref" in m and not (m["type"] or kind):
            check(m["ref"] in reffs, "{}: {!r} is not in", where, m["ref"])


class Navigation(object):
    """ Answers of the navigation route """

    def __init__(self, case, identifier):
        self.case = case
        self.identifier = identifier
        self.pages = pages_of(case)
        #: number of each page: the first one is 1
        self.numbers = [1] + [n + 2 for n in case["numbers"] if n + 2 < 40]
        self.numbers = list(dict.fromkeys(self.numbers + list(range(2, 20 + len(self.pages)))))[:len(self.pages)]
        self.fault = None

    def document(self, n, after="next"):
        case, w = self.case, dts.Writer(self.case["style"])
        if after == "next":
            after = self.numbers[n + 1] if n + 1 < len(self.pages) else None
        body = {w.kw("@id"): "/api/dts/navigation/?id=" + self.identifier}
        if n == 0 or case["level_everywhere"]:
            body[w.name(DTS + "level")] = case["sent_level"]
        body[w.name(DTS + "citeDepth")] = 3
        kind = case["types"][n % len(case["types"])]
        if kind:
            body[w.name(DTS + "citeType")] = kind
        members = [write_member(w, m) for m in self.pages[n]]
        if members or case["member_key"]:
            body[w.name(HYDRA + "member")] = members if case["member_key"] else w.listed(members)
        body[w.name(DTS + "passage")] = "/dts/api/document/?id={}{{&ref}}{{&start}}{{&end}}".format(self.identifier)
        if len(self.pages) > 1 or case["lone_view"] or after is not None:
            body.update(view(w, "navigation", self.identifier, self.numbers[n - 1] if n else None, self.numbers[n], after, self.numbers[-1], case["form"]))
        if not w.context:
            return body
        return dict([("@context", dict(w.context))] + list(body.items()))

    def __call__(self, asked):
        number = asked.params.get("page", "1")
        if not number.isdigit() or int(number) not in self.numbers:
            return reply({"@context": "http://www.w3.org/ns/hydra/context.jsonld", "@type": "Status", "statusCode": 404, "title": "Not Found"}, 404)
        n = self.numbers.index(int(number))
        fault = self.fault
        if fault and fault["page"] % len(self.pages) == n:
            kind = fault["kind"]
            if kind == "status":
                return reply(self.document(n), fault["status"])
            if kind == "text":
                return 200, {"Content-Type": "text/html"}, [b"<html><body>Sorry</body></html>", b"", b"{\"@id\": \"x\", "][fault["which"] % 3]
            if kind == "nothing":
                return reply([{}, [], {"@context": {"x": "http://x.org/"}}][fault["which"] % 3])
            if kind == "connection":
                import requests
                raise requests.ConnectionError("connection reset")
            if kind == "next":
                return reply(self.document(n, {"text": WRONG_NEXT[fault["which"] % len(WRONG_NEXT)]}))
            if kind == "loop":
                return reply(self.document(n, self.numbers[fault["which"] % (n + 1)]))
            if kind == "member":
                data = json.loads(json.dumps(self.document(n)))
                w = dts.Writer(self.case["style"])
                bad = [{w.name(DTS + "start"): "1"}, {w.name(DTS + "end"): "3"}, {w.name(DTS + "citeType"): "poem"}][fault["which"] % 3]
                w.name(HYDRA + "member")
                members = data.get(w.name(HYDRA + "member"), [])
                members = members if isinstance(members, list) else [members]
                data[w.name(HYDRA + "member")] = members[:1] + [bad] + members[1:]
                if w.context:
                    data["@context"] = dict(w.context, **data.get("@context", {}))
                return reply(data)
        return reply(self.document(n))


def run(case, ctx):
    import requests
    from MyCapytain.errors import EmptyReference, PaginationBrowsingError
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    from MyCapytain.retrievers.dts import HttpDtsRetriever
    errors = {"status": requests.HTTPError, "text": ValueError, "nothing": PaginationBrowsingError, "next": PaginationBrowsingError, "loop": PaginationBrowsingError,
              "member": (EmptyReference, PaginationBrowsingError), "connection": requests.ConnectionError}
    root = "http://foobar.com/api/dts"
    resolver = HttpDtsResolver(HttpDtsRetriever(root) if case["retriever"] else root)
    identifier = IDS[case["id"]]
    navigation = Navigation(case, identifier)
    with Endpoint(navigation=navigation) as endpoint:
        for n, call in enumerate(case["calls"]):
            kwargs, params = {}, {"id": identifier, "level": "1", "groupBy": "1"}
            if call["level"] != "default":
                kwargs["level"] = call["level"]
                params["level"] = str(call["level"])
            given, expected = reference(call["ref"], *call["ends"])
            if given is not None:
                kwargs["subreference"] = given
                params.update(expected)
            if call["extra"]:
                kwargs["additional_parameters"] = {k: v for k, v in call["extra"].items() if v is not None}
                params.update({k: str(v) for k, v in call["extra"].items() if v is not None})
            navigation.fault = call["fault"]
            del endpoint.asked["navigation"][:]
            what = "call {} (pages {}, numbers {}): getReffs({!r}, {!r})".format(n, [len(p) for p in navigation.pages], navigation.numbers, identifier, kwargs)
            if call["fault"]:
                kind = call["fault"]["kind"]
                raises(errors[kind], what + " with {}".format(call["fault"]), lambda: resolver.getReffs(identifier, **kwargs))
                ctx.label("fault " + kind)
                asked = len(endpoint.asked["navigation"])
                check(asked == call["fault"]["page"] % len(navigation.pages) + 1, "{} with {}: {} requests", what, call["fault"], asked)
                continue
            reffs = resolver.getReffs(identifier, **kwargs)
            check_set(reffs, case, navigation.pages, what)
            got = [sorted(a.pairs) for a in endpoint.asked["navigation"]]
            wanted = [sorted(dict(params, **({"page": str(p)} if p != 1 else {})).items()) for p in navigation.numbers]
            check_eq(got, wanted, what + ": requests")
            ctx.label("{} pages".format(len(navigation.pages) if len(navigation.pages) < 4 else "4 to 39" if len(navigation.pages) < 40 else "40 or more"))
            ctx.label("reference " + str(call["ref"]))
            ctx.nontrivial(len(navigation.pages) > 2 or len({len(p) for p in navigation.pages}) > 1)
        check_eq(len(endpoint.asked["entry"]), 1, "requests of the entry point")


def _cases():
    ref = st.sampled_from(["1", "2", "3", "1.1", "1.2", "1.pr", "Av", "α", "folio 3r", "1-2", "a b", "1&2", "b/c", "10", 1, 2, 12])
    common = {"type": st.sampled_from([None, None, "poem", "preface", "κῶλον"]), "dublincore": st.one_of(st.just([]), dts._terms(dts.DC_TERMS, True)), "extensions": st.one_of(st.just([]), dts._terms(dts.EXT_TERMS, True))}
    member = st.sampled_from([0, 0, 0, 1]).flatmap(lambda ranged: st.fixed_dictionaries(dict(common, start=ref, end=ref) if ranged else dict(common, ref=ref)))
    fault = st.fixed_dictionaries({"kind": st.sampled_from(["status", "text", "nothing", "next", "loop", "member", "connection"]), "page": st.integers(0, 5), "which": st.integers(0, 11),
                                   "status": st.sampled_from([400, 404, 500, 503])})
    text = st.sampled_from(["1", "2", "1.1", "a&b", "α", "1 2", "page=3"])
    call = st.fixed_dictionaries({
        "level": st.sampled_from(["default", "default", 1, 2, 3, 0]), "ref": st.sampled_from(REFS), "ends": st.tuples(text, text).map(list),
        "extra": st.one_of(st.none(), st.none(), st.fixed_dictionaries({"groupBy": st.sampled_from([None, 1, 2, 10]), "exclude": st.sampled_from([None, "dts:extensions", "a&b"])})),
        "fault": st.sampled_from([0, 0, 1]).flatmap(lambda some: fault if some else st.none())})
    return st.fixed_dictionaries({
        "members": st.sampled_from([0, 1, 4, 8, 8, 14]).flatmap(lambda n: st.lists(member, min_size=n - n // 4, max_size=n)), "sizes": st.lists(st.integers(1, 4), min_size=1, max_size=4), "empty_end": st.sampled_from([False, False, False, True]),
        "numbers": st.lists(st.integers(0, 30), max_size=8, unique=True), "types": st.sampled_from([None, "poem", "line", "vers é"]).flatmap(lambda one: st.one_of(st.just([one]), st.just([one]), st.lists(st.sampled_from([None, "poem", "line"]), min_size=2, max_size=3))), "sent_level": st.integers(1, 4), "level_everywhere": st.sampled_from([True, True, False]),
        "member_key": st.booleans(), "lone_view": st.booleans(), "form": view_forms(), "style": dts.styles(), "id": st.integers(0, len(IDS) - 1), "retriever": st.booleans(),
        "calls": st.lists(call, min_size=1, max_size=3)})


def _long_cases():
    """ One call, which many pages answer """
    def long(case, pages, size):
        first = dict({"type": None, "dublincore": [], "extensions": []}, **(case["members"] or [{}])[0])
        first = {k: v for k, v in first.items() if k not in ("start", "end")}
        return dict(case, members=[dict(first, ref=str(i + 1)) for i in range(pages * size)], sizes=[size], calls=[dict(case["calls"][0], fault=None)])
    return st.builds(long, _cases(), st.one_of(st.integers(9, 60), st.integers(60, 130)), st.integers(1, 3))


SUBS = [Sub("reffs", _cases, run, quick=800, thorough=20000, rule="more than two pages, or pages of different sizes, are read to the end"),
        Sub("long", _long_cases, run, quick=24, thorough=400, rule="more than two pages are read to the end")]
ASSUMPTIONS = ["the simulated endpoint announces the level at least on its first page; the citation type which a page announces is the one of its references",
               "pages are numbered by whole numbers other than the number of the first page, which is 1"]
