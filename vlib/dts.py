""" DTS collections as plain data, their JSON-LD in several equivalent forms, and what a parsed one must look like """
import copy
import functools

from hypothesis import strategies as st

from .common import LANGS, labels
from .engine import check, check_eq

HYDRA = "https://www.w3.org/ns/hydra/core#"
DTS = "https://w3id.org/dts/api#"
DCT = "http://purl.org/dc/terms/"
FOAF = "http://xmlns.com/foaf/0.1/"
SKOS = "http://www.w3.org/2004/02/skos/core#"
XSD = "http://www.w3.org/2001/XMLSchema#"
EX = "http://example.org/ns/"

DC_TERMS = [DCT + n for n in ("title", "creator", "date", "language", "subject", "type", "source", "dateCopyrighted")]
EXT_TERMS = [FOAF + "name", FOAF + "depiction", SKOS + "note", EX + "field_1", EX + "a-b", DCT + "contributor"]
PREFIXES = {HYDRA: ["hydra", "h"], DTS: ["dts", "d"], DCT: ["dct", "dc"], FOAF: ["foaf", "f"], SKOS: ["skos", "sk"], EX: ["ex", "x"], XSD: ["xsd", "xs"]}

#: prefixes of identifiers which are written in compact form
ID_PREFIX = {"lat": "urn:cts:latinLit:", "site": "http://ex.org/"}
#: (the first ones are relative)
RELATIVE = 3
ID_BASES = ["general", "lasciva_roma", "12", "/cartulaires", "urn:cts:latinLit:phi1103.phi001", "urn:cts:greekLit:tlg0012.tlg001.perseus-grc2", "http://ex.org/coll/1",
            "http://ex.org/c?id=1&page=2", "https://ex.org/c#part", "urn:x:é", "http://ex.org/%C3%A9"]

# --- cases ---------------------------------------------------------------------------------------------------

_TEXT = labels()
#: JSON-LD processors write languages in lower case
_LANG = st.sampled_from([l.lower() for l in LANGS])


@functools.lru_cache(None)
def values(typed=True):
    kinds = [
        st.fixed_dictionaries({"kind": st.just("lit"), "text": _TEXT, "lang": st.one_of(st.none(), _LANG)}),
        st.fixed_dictionaries({"kind": st.just("lit"), "text": _TEXT, "lang": _LANG}),
        st.fixed_dictionaries({"kind": st.just("uri"), "text": st.sampled_from(["http://viaf.org/viaf/1", "https://orcid.org/0000?x=1&y=2", "urn:cts:a:b.c"])}),
        st.fixed_dictionaries({"kind": st.just("num"), "v": st.one_of(st.integers(-5, 3000), st.sampled_from([1.5, -0.25]), st.booleans())}),
    ]
    if typed:
        # A number of JSON can be given a type of its own
        kinds.append(st.fixed_dictionaries({
            "kind": st.just("typed"), "number": st.sampled_from([1879, 0, 1, 2001]), "datatype": st.sampled_from([XSD + "gYear", XSD + "decimal", EX + "kind"])})
            .map(lambda v: dict(v, text=str(v["number"]))))
        kinds.append(st.fixed_dictionaries({
            "kind": st.just("typed"), "text": st.sampled_from(["1879", "2001", "0750"]), "datatype": st.sampled_from([XSD + "gYear", EX + "kind"])}))
    return st.one_of(*kinds)


def _alike(typed):
    """ Values which are different, but which are easily taken for each other """
    one = [{"kind": "num", "v": 1}, {"kind": "num", "v": True}, {"kind": "lit", "text": "1", "lang": None}, {"kind": "lit", "text": "1", "lang": "eng"}]
    zero = [{"kind": "num", "v": 0}, {"kind": "num", "v": False}, {"kind": "lit", "text": "0", "lang": None}, {"kind": "lit", "text": "false", "lang": None}]
    uri = [{"kind": "uri", "text": "http://viaf.org/viaf/1"}, {"kind": "lit", "text": "http://viaf.org/viaf/1", "lang": None},
           {"kind": "lit", "text": "http://viaf.org/viaf/1", "lang": "eng"}, {"kind": "uri", "text": "http://viaf.org/viaf/12"}]
    text = [{"kind": "lit", "text": t, "lang": l} for t, l in (("Arma", None), ("Arma", "lat"), ("Arma", "eng"), ("arma", "lat"), ("Arm", "lat"))]
    if typed:
        one.append({"kind": "typed", "text": "1", "datatype": XSD + "gYear"})
        text.append({"kind": "typed", "text": "Arma", "datatype": EX + "kind"})
    return st.sampled_from([one, zero, uri, text]).flatmap(lambda group: st.permutations(group)).flatmap(
        lambda group: st.sampled_from([2, len(group), len(group)]).map(lambda n: list(group[:n])))


def _terms(names, typed):
    some = st.integers(0, 3).flatmap(
        lambda n: _alike(typed) if n == 0 else st.lists(values(typed), min_size=1, max_size=3))
    return st.lists(st.tuples(st.sampled_from(names), some), max_size=4, unique_by=lambda t: t[0])


_CITE_NAMES = st.sampled_from(["book", "poem", "line", "front", "κῶλον", "a & b", "act", "12"])
_FOREST = {0: st.just([])}
for _d in range(1, 4):
    _FOREST[_d] = st.lists(st.fixed_dictionaries({"name": _CITE_NAMES, "children": _FOREST[_d - 1]}), max_size=2)
# now and then, levels deeper than what real texts have
_DEEPER = st.tuples(_FOREST[2], st.lists(_CITE_NAMES, min_size=1, max_size=4)).map(
    lambda drawn: functools.reduce(lambda forest, name: [{"name": name, "children": forest}], drawn[1], drawn[0]))
_CITE = st.integers(0, 5).flatmap(lambda n: _DEEPER if n == 5 else _FOREST[3])


def _one(typed, members):
    return st.fixed_dictionaries({
        "base": st.integers(0, len(ID_BASES) - 1),
        "type": st.sampled_from(["Collection", "Collection", "Resource"]),
        "titles": st.lists(st.fixed_dictionaries({"text": _TEXT, "lang": st.one_of(st.none(), _LANG)}), min_size=1, max_size=2, unique_by=lambda t: t["text"]),
        "total": st.one_of(st.integers(0, 12), st.integers(0, 100000)),
        "total_as_text": st.sampled_from([False, False, False, True]),
        "description": st.one_of(st.none(), st.fixed_dictionaries({"text": _TEXT, "lang": st.one_of(st.none(), _LANG)})),
        "dublincore": _terms(DC_TERMS, typed),
        "extensions": _terms(EXT_TERMS, typed),
        "cite": _CITE,
        "cite_depth": st.sampled_from([None, "own", "own", 4]),
        "links": st.booleans(),
        "members": members,
    })


def _longer(members, size):
    """ A list of members made longer with copies of its first one """
    return members + [dict(copy.deepcopy(members[0]), members=[]) for _ in range(size - len(members))] if members else members


@functools.lru_cache(None)
def collections(depth=3, typed=True, max_members=3):
    members = st.just([])
    if depth > 1:
        sub = collections(depth - 1, typed, max_members)
        members = st.sampled_from([0, 1, 1, 2]).flatmap(lambda n: st.lists(sub, min_size=n, max_size=max_members if n else 0))
        members = st.builds(_longer, members, st.sampled_from([0] * 29 + [11, 11, 23, 23, 70]))
    return _one(typed, members)


def styles():
    return st.fixed_dictionaries({
        "hydra": st.sampled_from(["vocab", "vocab", "prefix", "full", "alias"]),
        "dts": st.sampled_from(["prefix", "prefix", "full", "alias"]),
        "rest": st.sampled_from(["prefix", "prefix", "full", "alias"]),
        "which": st.integers(0, 1),
        "keywords": st.booleans(),
        "ids": st.booleans(),
        "default_lang": st.one_of(st.none(), st.none(), _LANG),
        "langmap": st.booleans(),
        "coerce": st.booleans(),
        "bits": st.lists(st.integers(0, 5), min_size=1, max_size=7),
        # (no list of contexts: the cache of pyld 1.0.3 mixes them up)
        "context_last": st.booleans(),
    })


def walk(model):
    yield model
    for m in model["members"]:
        for sub in walk(m):
            yield sub


def name_ids(model):
    """ Gives each collection of a case its own identifier """
    seen = set()
    for m in walk(model):
        # members with a relative identifier get a leading slash (known finding relative-members)
        base = ID_BASES[m["base"] if m is model else max(m["base"], RELATIVE)]
        name, i = base, 1
        while name in seen:
            i += 1
            name = base + str(i)
        seen.add(name)
        m["id"] = name
    return model


# --- JSON-LD -------------------------------------------------------------------------------------------------

class Writer(object):
    """ Writes a collection as JSON-LD in the form of a style """

    def __init__(self, style):
        self.style = style
        self.context = {}
        self.cursor = 0
        if style["hydra"] == "vocab":
            self.context["@vocab"] = HYDRA
        if style["default_lang"]:
            self.context["@language"] = style["default_lang"]
        if style["keywords"]:
            self.context["identifier"] = "@id"
            self.context["kind"] = "@type"
        if style["ids"]:
            self.context.update(ID_PREFIX)

    def bit(self, n):
        bits = self.style["bits"]
        self.cursor += 1
        return bits[self.cursor % len(bits)] % n

    def split(self, uri):
        for ns in PREFIXES:
            if uri.startswith(ns):
                return ns, uri[len(ns):]
        raise ValueError(uri)

    def name(self, uri):
        """ Name of a term (key, or value of @type) in the document """
        ns, name = self.split(uri)
        how = self.style["hydra"] if ns == HYDRA else self.style["dts"] if ns == DTS else self.style["rest"]
        if how == "vocab":
            return name
        if how == "full":
            return uri
        prefix = PREFIXES[ns][self.style["which"]]
        if how == "prefix":
            self.context[prefix] = ns
            return prefix + ":" + name
        alias = prefix + "_" + name
        self.context[alias] = uri
        return alias

    def kw(self, keyword):
        if not self.style["keywords"]:
            return keyword
        return {"@id": "identifier", "@type": "kind"}[keyword]

    def identifier(self, uri):
        if self.style["ids"]:
            for prefix, ns in ID_PREFIX.items():
                if uri.startswith(ns):
                    return prefix + ":" + uri[len(ns):]
        return uri

    def value(self, v):
        default = self.style["default_lang"]
        if v["kind"] == "num":
            return [v["v"], {"@value": v["v"]}][self.bit(2)]
        if v["kind"] == "uri":
            return {self.kw("@id"): v["text"]}
        if v["kind"] == "typed":
            return {"@value": v.get("number", v["text"]), self.kw("@type"): self.name(v["datatype"])}
        if v["lang"] is None:
            if default or self.bit(3) == 0:
                return {"@value": v["text"]}
            return v["text"]
        if v["lang"] == default and self.bit(2):
            return v["text"]
        return {"@value": v["text"], "@language": v["lang"]}

    def listed(self, out):
        """ A single value may be written alone """
        return out[0] if len(out) == 1 and self.bit(2) else out

    def terms(self, terms):
        out = {}
        for uri, vals in terms:
            key = self.name(uri)
            compact = key != uri
            langs = [v.get("lang") for v in vals]
            if self.style["langmap"] and compact and None not in langs and all(v["kind"] == "lit" for v in vals) and len(set(langs)) == len(langs) \
                    and key not in self.context:
                self.context[key + "Map"] = {"@id": uri, "@container": "@language"}
                out[key + "Map"] = {v["lang"]: v["text"] for v in vals}
            elif self.style["coerce"] and compact and all(v["kind"] == "uri" for v in vals):
                self.context[key + "Link"] = {"@id": uri, "@type": "@id"}
                out[key + "Link"] = self.listed([v["text"] for v in vals])
            else:
                out[key] = self.listed([self.value(v) for v in vals])
        return out

    def cite(self, forest):
        out = []
        for n in forest:
            d = {self.name(DTS + "citeType"): n["name"]}
            if n["children"]:
                d[self.name(DTS + "citeStructure")] = self.cite(n["children"])
            out.append(d)
        return self.listed(out)

    def collection(self, model, members=True):
        out = {
            self.kw("@id"): self.identifier(model["id"]),
            self.kw("@type"): self.listed([self.name(HYDRA + model["type"])]),
            self.name(HYDRA + "title"): self.listed([self.value(dict(t, kind="lit")) for t in model["titles"]]),
            self.name(HYDRA + "totalItems"): str(model["total"]) if model["total_as_text"] else model["total"],
        }
        if model["description"]:
            out[self.name(HYDRA + "description")] = self.value(dict(model["description"], kind="lit"))
        for key in ("dublincore", "extensions"):
            if model[key]:
                out[self.name(DTS + key)] = self.terms(model[key])
        if model["cite"]:
            out[self.name(DTS + "citeStructure")] = self.cite(model["cite"])
        depth = cite_depth(model)
        if model["cite_depth"] and depth:
            out[self.name(DTS + "citeDepth")] = depth
        if model["links"]:
            for key in ("passage", "references", "download"):
                out[self.name(DTS + key)] = "/api/dts/{}?id={}".format(key, model["id"])
        if members and model["members"]:
            out[self.name(HYDRA + "member")] = self.listed([self.collection(m) for m in model["members"]])
        return out

    def document(self, model, extra=None):
        body = self.collection(model)
        body.update(extra(self) if extra else {})
        context = dict(self.context)
        if not context:
            return body
        if self.style["context_last"]:
            return dict(list(body.items()) + [("@context", context)])
        return dict([("@context", context)] + list(body.items()))


def forest_depth(forest):
    return 0 if not forest else 1 + max(forest_depth(n["children"]) for n in forest)


def cite_depth(model):
    """ Depth announced by the collection, else the one of its structure """
    own = forest_depth(model["cite"])
    if model["cite_depth"] in (None, "own"):
        return own
    # (perhaps more than the structure which it tells)
    return model["cite_depth"]


# --- oracle --------------------------------------------------------------------------------------------------

def make_value(v):
    from rdflib import Literal, URIRef
    if v["kind"] == "uri":
        return URIRef(v["text"])
    if v["kind"] == "num":
        return Literal(v["v"])
    if v["kind"] == "typed":
        return Literal(v["text"], datatype=URIRef(v["datatype"]))
    return Literal(v["text"], lang=v["lang"])


def canon(o):
    from rdflib import Literal
    if not isinstance(o, Literal):
        return ("uri", str(o))
    return ("lit", str(o), o.language, str(o.datatype) if o.datatype else None)


#: statements which hold the titles and descriptions (their language is not kept by DTS collections)
_TEXTUAL = ("http://www.w3.org/2000/01/rdf-schema#label", SKOS + "prefLabel", HYDRA + "description")


def expected_statements(model):
    textual = {(p, t["text"]) for p in _TEXTUAL[:2] for t in model["titles"]}
    if model["description"]:
        textual.add((_TEXTUAL[2], model["description"]["text"]))
    out = {("http://www.w3.org/1999/02/22-rdf-syntax-ns#type", ("uri", HYDRA + model["type"])),
           (DTS + "model", ("uri", DTS + "collection"))}
    total = make_value({"kind": "lit", "text": str(model["total"]), "lang": None} if model["total_as_text"] else {"kind": "num", "v": model["total"]})
    out.add((HYDRA + "totalItems", canon(total)))
    for key in ("dublincore", "extensions"):
        for term, vals in model[key]:
            out.update((term, canon(make_value(v))) for v in vals)
    return textual, out


def check_statements(obj, model, where, ignore=()):
    textual, expected = expected_statements(model)
    got = set(obj.graph.predicate_objects(obj.asNode()))
    check_eq({(str(p), str(o)) for p, o in got if str(p) in _TEXTUAL}, textual, where + ": titles and descriptions")
    got = {(str(p), canon(o)) for p, o in got if str(p) not in _TEXTUAL}
    # the language of a text which holds a number is not kept apart from its type
    check_eq({x for x in got if x[0] not in ignore}, {x for x in expected if x[0] not in ignore}, where + ": metadata")
    for key in ("dublincore", "extensions"):
        for term, vals in model[key]:
            from rdflib import URIRef
            other = {canon(o) for o in obj.metadata.get(URIRef(term))}
            check({canon(make_value(v)) for v in vals} <= other, "{}: metadata.get({}) is {!r}", where, term, other)


def check_collection(obj, model, where, cls=None, members=True):
    """ obj is what the model describes (members included) """
    from .props.c05 import check_citations
    check(cls is None or type(obj) is cls, "{}: is a {}", where, type(obj))
    check_eq(obj.id, model["id"], where + ": id")
    check_eq(str(obj.type), HYDRA + model["type"], where + ": type")
    check_eq(obj.readable, model["type"] == "Resource", where + ": readable")
    check_eq(obj.size, model["total"], where + ": size")
    titles = [t["text"] for t in model["titles"]]
    check(str(obj.get_label()) in titles, "{}: label is {!r}", where, obj.get_label())
    check_statements(obj, model, where)
    depth = cite_depth(model)
    if model["cite_depth"] and depth:
        check_eq(obj.citation.depth, depth, where + ": depth of the citation scheme")
    if model["cite"]:
        check_citations(obj.citation, model["cite"], where + ": citation", announced=cite_depth(model) if model["cite_depth"] else None)
    else:
        check(obj.citation.is_empty() and list(obj.citation) == [], "{}: citation is {!r}", where, list(obj.citation))
    if members:
        check_members(obj, model, where, cls)


def check_members(obj, model, where, cls=None):
    from MyCapytain.errors import UnknownCollection
    check_eq([m.id for m in obj.members], [m["id"] for m in model["members"]], where + ": members")
    check_eq(list(obj.children), [m["id"] for m in model["members"]], where + ": children")
    for child, m in zip(obj.members, model["members"]):
        check(obj.children[m["id"]] is child, "{}: child {}", where, m["id"])
        check(set(child.parents) == {obj} and all(p is obj for p in child.parents), "{}: parents are {!r}", m["id"], child.parents)
        check_collection(child, m, where + " > " + m["id"], cls)
    below = [m["id"] for m in walk(model)][1:]
    check_eq(sorted(d.id for d in obj.descendants), sorted(below), where + ": descendants")
    readable = [m["id"] for m in walk(model) if m["type"] == "Resource" and m is not model]
    check_eq(sorted(d.id for d in obj.readableDescendants), sorted(readable), where + ": readable descendants")
    for name in below + [model["id"]]:
        check_eq(obj[name].id, name, where + ": item")
        check(name in obj, "{}: {} is not in", where, name)
    check("urn:nowhere" not in obj, "{}: contains urn:nowhere", where)
    try:
        obj["urn:nowhere"]
    except UnknownCollection:
        pass
    else:
        check(False, "{}: unknown item", where)
