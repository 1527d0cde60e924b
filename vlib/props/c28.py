""" C28 -- passages of a DTS document endpoint: content, links, walks """
from urllib.parse import quote

from hypothesis import strategies as st
from lxml import etree

from .. import dts, texts
from ..dts import DTS, HYDRA
from ..dts_server import ROOT, Endpoint, reply
from ..engine import Sub, check, check_eq
from .c22 import outcome

IDS = ["urn:cts:greekLit:tlg0012.tlg001.opp-grc", "http://ex.org/c?id=1&ref=2", "document_id", "http://data.bnf.fr/ark:/12148/cb11936111v#ref=4", "urn:cts:a:b.c&page=9", "a b", "é"]
#: how the endpoint joins the identifiers of the units of a reference
SEPARATORS = [".", ".", ":", "&", "/", " ", "-", "#", "%", "+", "_é_"]
CONTENT = [("utf-8", "application/tei+xml; charset=utf-8"), ("utf-8", "application/tei+xml"), ("utf-8", "application/xml;charset=UTF-8"), ("utf-8", None), ("utf-8", "text/xml"),
           ("utf-8", "text/xml; charset=utf-8"), ("iso-8859-1", "text/xml; charset=iso-8859-1"), ("iso-8859-1", "application/xml"), ("utf-16", "application/tei+xml; charset=utf-16")]
RELS = ["prev", "next", "up", "first", "last", "collection", "contents"]
FAULTS = ["404", "500", "text", "empty", "truncated", "connection"]
TITLES = [("Titulus", "la"), ("Title & more", "en"), ("Titre", "fr")]


class Server(object):

    def __init__(self, case):
        self.case = case
        self.document = texts.Document(case["document"])
        self.identifier = IDS[case["id"]]
        self.separator = SEPARATORS[case["separator"]]
        self.names = {}
        for path, _ in self.document.units:
            # Two units never have the same name
            name = self.separator.join(path)
            while name in self.names:
                name += "'"
            self.names[name] = path
        self.paths = {p: n for n, p in self.names.items()}
        self.fault = None

    # --- what it holds: a passage is None (all), or the paths of its ends

    def read(self, params):
        if "ref" in params:
            return (self.names[params["ref"]],) * 2
        if "start" in params or "end" in params:
            return self.names[params["start"]], self.names[params["end"]]
        return None

    def params(self, passage):
        if passage is None:
            return {}
        if passage[0] == passage[1]:
            return {"ref": self.paths[passage[0]]}
        return {"start": self.paths[passage[0]], "end": self.paths[passage[1]]}

    def units(self, passage):
        if passage is None:
            return None
        level = self.document.level(len(passage[0]))
        return level[level.index(passage[0]):level.index(passage[1]) + 1]

    def source(self, passage):
        if passage is None:
            return self.document.source()
        holder = texts.Node(["TEI", "fragment", "div"][self.case["holder"] % 3], {"n": "a"}, [self.document.by_path[p] for p in self.units(passage)])
        return texts.serialize(holder)

    def links(self, passage):
        """ {relation: passage, or "?" for what is no passage} of the reply, those which the endpoint leaves out excepted """
        out = {"collection": "?", "contents": "?"}
        if passage is not None:
            level = self.document.level(len(passage[0]))
            a, b = level.index(passage[0]), level.index(passage[1])
            size = b - a + 1

            def window(lo):
                lo, hi = max(lo, 0), min(lo + size - 1, len(level) - 1)
                return (level[lo], level[hi]) if lo <= hi else None
            if a > 0:
                out["prev"] = window(a - size) or (level[0],) * 2
            if b + 1 < len(level):
                out["next"] = window(b + 1)
            if passage[0][:-1] == passage[1][:-1] and passage[0][:-1]:
                out["up"] = (passage[0][:-1],) * 2
            else:
                out["up"] = None
            out["first"], out["last"] = (level[0],) * 2, (level[-1],) * 2
        # the same links are left out of all the replies for a passage
        return {k: v for k, v in out.items() if k not in self.case["omitted"] or len(str(passage)) % 3 == 0 and k != "collection"}

    def references(self, passage, level):
        if passage is None:
            return self.document.level(level), level
        if passage[0] == passage[1]:
            n = len(passage[0]) + level
            return self.document.below(passage[0], n), n
        return [p for u in self.units(passage) for p in self.document.below(u, len(u) + level)], len(passage[0]) + level

    # --- replies

    def link_header(self, passage):
        out = []
        form = self.case["links"]
        for rel, target in self.links(passage).items():
            route = {"collection": "collections", "contents": "navigation"}.get(rel, "documents")
            params = [("id", self.identifier)]
            if target != "?":
                params += list(self.params(target).items())
            if form["order"]:
                params.reverse()
            if form["noise"] and target != "?":
                params.insert(form["order"], ("xref", "77"))
            base = [ROOT + "/" + route, "/api/dts/" + route + "/", "https://other.org/dts/ref=76/" + route][form["base"]]
            href = base + "?" + "&".join("{}={}".format(quote(k, safe=""), quote(v, safe=":/" if form["raw"] else "")) for k, v in params)
            out.append("<{}>; {}rel={}".format(href, "title=\"a, b; c\"; " if form["title"] else "", "\"{}\"".format(rel) if form["quoted"] else rel))
        if form["order"]:
            out.reverse()
        return ", ".join(out)

    def documents(self, asked):
        import requests
        kind = self.fault
        if kind in ("404", "500"):
            return int(kind), {"Content-Type": "application/tei+xml"}, b"<error xmlns=\"https://w3id.org/dts/api#\" statusCode=\"404\"><title>Not Found</title></error>"
        if kind == "text":
            return 200, {"Content-Type": "text/html"}, b"Sorry, <br> maintenance"
        if kind == "empty":
            return 200, {"Content-Type": "application/tei+xml"}, b""
        if kind == "connection":
            raise requests.ConnectionError("reset")
        if asked.params.get("id") != self.identifier:
            return 404, {}, b""
        try:
            passage = self.read(asked.params)
        except KeyError:
            return 404, {}, b""
        encoding, mime = CONTENT[self.case["content"]]
        source = self.source(passage)
        try:
            source.encode(encoding)
        except UnicodeEncodeError:
            encoding, mime = "utf-8", "application/tei+xml; charset=utf-8"
        if self.case["declaration"] or encoding != "utf-8":
            source = "<?xml version=\"1.0\" encoding=\"{}\"?>\n".format(encoding) + source
        headers = {"Content-Type": mime} if mime else {}
        link = self.link_header(passage)
        if link:
            headers["Link"] = link
        body = source.encode(encoding)
        return 200, headers, body[:len(body) * 2 // 3] if kind == "truncated" else body

    def navigation(self, asked):
        params = dict(asked.params)
        if params.pop("id") != self.identifier or params.pop("groupBy", None) != "1":
            return reply({}, 400)
        level = int(params.pop("level"))
        passage = self.read(params)
        units, real = self.references(passage, level)
        return reply({"@context": {"@vocab": HYDRA, "dts": DTS}, "@id": "/api/dts/navigation", "dts:level": real, "dts:citeDepth": self.document.depth,
                      "member": [{"dts:ref": self.paths[u]} for u in units]})

    def collections(self, asked):
        if asked.params != {"id": self.identifier}:
            return reply({}, 404)
        return reply({"@context": {"@vocab": HYDRA, "dts": DTS, "dct": dts.DCT}, "@id": self.identifier, "@type": "Resource", "title": "A title", "totalItems": 0, "dts:citeDepth": self.document.depth,
                      "dts:dublincore": {"dct:title": [{"@value": t, "@language": lang} for t, lang in TITLES[:self.case["titles"]]]}})


def reference_of(server, passage, kind):
    from MyCapytain.common.reference import DtsReference
    if passage is None:
        return None
    names = [server.paths[p] for p in passage]
    if passage[0] == passage[1]:
        return names[0] if kind == "str" else DtsReference(names[0])
    return tuple(names) if kind == "str" else DtsReference(*names)


def ends(server, passage):
    if passage is None or passage == "?":
        return None
    a, b = (server.paths[p] for p in passage)
    return (a, None) if a == b else (a, b)


def check_passage(doc, server, passage, what):
    from MyCapytain.common.reference import DtsReference
    from MyCapytain.resources.texts.remote.dts import DtsResolverDocument
    check(type(doc) is DtsResolverDocument, "{}: is a {}", what, type(doc))
    check_eq(doc.id, server.identifier, what + ": id")
    wanted = ends(server, passage)
    given = doc.reference
    check_eq(given if given is None else (given, None) if isinstance(given, str) else tuple(given), wanted, what + ": reference")
    # content
    sent = texts.drop_blanks(texts.canon_lxml(etree.fromstring(server.source(passage).encode("utf-8"))))
    check_eq(texts.drop_blanks(texts.canon_lxml(doc.xml)), sent, what + ": xml")
    check_eq(texts.drop_blanks(texts.canon_lxml(doc.export("python/lxml"))), sent, what + ": export to lxml")
    for output in ("text/xml", "text/xml:tei"):
        check_eq(texts.drop_blanks(texts.canon_lxml(etree.fromstring(doc.export(output)))), sent, what + ": export to " + output)
    expected = texts.plain_canon(sent)
    check_eq(doc.export("text/plain").split(), expected.split(), what + ": plain text")
    check_eq(doc.text.split(), expected.split(), what + ": text")
    # links
    links = server.links(passage)
    for name, rel in (("prevId", "prev"), ("nextId", "next"), ("parentId", "up")):
        got = getattr(doc, name)
        check_eq(got if got is None else tuple(got), ends(server, links.get(rel)), "{}: {} (links {})".format(what, name, links))
        check(got is None or isinstance(got, DtsReference), "{}: {} is {!r}", what, name, got)
    check_eq(doc.siblingsId, (doc.prevId, doc.nextId), what + ": siblingsId")


def run(case, ctx):
    from rdflib import URIRef
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    server = Server(case)
    resolver = HttpDtsResolver(ROOT)
    with Endpoint(documents=server.documents, navigation=server.navigation, collections=server.collections) as endpoint:
        asked = endpoint.asked["documents"]

        def fetch(what, passage, fn):
            """ fn asks for the passage exactly once """
            if fn is None:
                return None
            del asked[:]
            doc = fn()
            check(doc is not None, "{}: nothing", what)
            check_eq([sorted(a.pairs) for a in asked], [sorted(dict(server.params(passage), id=server.identifier).items())], what + ": requests of the document")
            check_passage(doc, server, passage, what)
            return doc

        unit = [p for p, _ in server.document.units]

        def pick(n, m):
            path = unit[n % len(unit)]
            if m % 3:
                return path, path
            level = server.document.level(len(path))
            a = level.index(path)
            return path, level[min(a + 1 + m % 4, len(level) - 1)]

        doc, passage, known, steps, trail = None, None, False, 0, []
        for n, op in enumerate(case["ops"]):
            name = op["op"]
            trail.append(name)
            what = "{} (step {} of {}, at {})".format(name, n, trail, passage)
            if doc is None or name == "resolver":
                passage = None if op["n"] % 4 == 0 else pick(op["n"], op["m"])
                given = reference_of(server, passage, op["kind"])
                if op["fault"]:
                    server.fault = op["fault"]
                    kind, value = outcome(lambda: resolver.getTextualNode(server.identifier, given))
                    check(kind == "raised" and value != "CaseTimeout", "{}: fault {} gives {!r}", what, op["fault"], value)
                    server.fault = None
                    ctx.label("fault " + op["fault"])
                extra = {"prevnext": True, "metadata": True} if op["m"] % 2 else {}
                doc = fetch(what, passage, lambda: resolver.getTextualNode(textId=server.identifier, subreference=given, **extra))
                known, doc_collection = False, None
                ctx.label("asked " + ("all" if passage is None else "range" if passage[0] != passage[1] else "one"))
                continue
            links = server.links(passage)
            if name in ("next", "prev", "parent"):
                rel = {"parent": "up"}.get(name, name)
                target = links.get(rel)
                if target is None:
                    del asked[:]
                    check(getattr(doc, name) is None, "{}: there is no such passage", what)
                    check(not asked, "{}: asked {}", what, [a.url for a in asked])
                    ctx.label("no " + name)
                    continue
                doc, passage = fetch(what, target, lambda: getattr(doc, name)), target
                steps += 1
                ctx.label(name)
            elif name in ("reffs", "childIds", "first", "last", "children"):
                level = 1 + op["n"] % 2 if name == "reffs" else 1
                units, real = server.references(passage, level)
                if name == "reffs":
                    if op["m"] % 2 and passage is None:
                        sub = pick(op["n"], 1)
                        units, real = server.references(sub, level)
                        got = doc.getReffs(level=level, subreference=reference_of(server, sub, "dts"))
                    else:
                        got = doc.getReffs(level) if level > 1 or op["m"] % 3 else doc.getReffs()
                    check_eq([tuple(r) for r in got], [(server.paths[u], None) for u in units], what + " level {}".format(level))
                    check_eq(got.level, real, what + ": level")
                    ctx.label("reffs {}".format(level))
                elif name == "childIds":
                    check_eq([tuple(r) for r in doc.childIds], [(server.paths[u], None) for u in units], what)
                    for attr, i in (("firstId", 0), ("lastId", -1)):
                        got = getattr(doc, attr)
                        check_eq(got if got is None else tuple(got), (server.paths[units[i]], None) if units else None, what + ": " + attr)
                elif not units:
                    check((list(doc.children) if name == "children" else getattr(doc, name)) in (None, []), "{}: there is nothing below", what)
                elif name == "children":
                    for child, u in zip(doc.children, units[:2]):
                        check_passage(child, server, (u, u), what)
                else:
                    u = units[0 if name == "first" else -1]
                    doc.childIds
                    doc, passage = fetch(what, (u, u), lambda: getattr(doc, name)), (u, u)
                    steps += 1
                    ctx.label(name)
            elif name == "textual":
                target = pick(op["n"], op["m"])
                doc, passage = fetch(what, target, lambda: doc.getTextualNode(reference_of(server, target, op["kind"]))), target
            elif name == "metadata":
                before = len(endpoint.asked["collections"])
                collection = doc.collection
                check_eq(collection.id, server.identifier, what + ": id of the collection")
                check(doc.collection is collection, "{}: another collection the second time", what)
                check_eq(doc.depth, server.document.depth, what + ": depth")
                for t, lang in TITLES[:case["titles"]]:
                    check_eq(str(doc.get_title(lang=lang)), t, what + ": title in " + lang)
                check_eq(sorted(str(o) for o in doc.metadata.get(URIRef(dts.DCT + "title"))), sorted(t for t, _ in TITLES[:case["titles"]]), what + ": titles")
                check_eq(len(endpoint.asked["collections"]) - before, 0 if known else 1, what + ": requests of the collection")
                check(not known or collection is doc_collection, "{}: the collection read before is lost", what)
                known, doc_collection = True, collection
                ctx.label("metadata")
        ctx.nontrivial(steps > 1)


def _cases():
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["next", "next", "prev", "prev", "parent", "parent", "first", "last", "resolver", "reffs", "childIds", "children", "textual", "metadata"]), "n": st.integers(0, 40), "m": st.integers(0, 11),
        "kind": st.sampled_from(["str", "dts"]), "fault": st.sampled_from([None, None, None] + FAULTS)})
    return st.fixed_dictionaries({
        "document": texts.documents(max_depth=3), "id": st.integers(0, len(IDS) - 1), "separator": st.integers(0, len(SEPARATORS) - 1), "content": st.integers(0, len(CONTENT) - 1), "declaration": st.booleans(),
        "holder": st.integers(0, 2), "omitted": st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(RELS), max_size=7, unique=True)), "titles": st.integers(1, 3),
        "links": st.fixed_dictionaries({"order": st.integers(0, 1), "noise": st.booleans(), "base": st.integers(0, 2), "raw": st.booleans(), "title": st.booleans(), "quoted": st.booleans()}),
        "ops": st.integers(2, 12).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))})


SUBS = [Sub("walk", _cases, run, quick=800, thorough=15000, rule="at least two links or children are followed")]
ASSUMPTIONS = ["white space between elements is left out of the comparison of content (the parser drops it)", "the link to the collection has no reference",
               "a link up without reference (to the whole document) counts as no parent"]
