""" C19 -- collections exported to DTS JSON or RDF describe the collection """
import json

from hypothesis import strategies as st

from .. import dts, inventories as inv
from ..engine import Sub, check, check_eq
from .c15 import build, classes

NATIVE = {dts.XSD + n for n in ("integer", "double", "boolean")}
#: namespaces of the statements which are not part of dublincore or extensions
IGNORED = (inv.CPT, dts.HYDRA, dts.DTS, "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://www.w3.org/2000/01/rdf-schema#")


def canon_term(o):
    """ An RDF term as JSON can tell it """
    from rdflib import Literal
    if not isinstance(o, Literal):
        return ("id", str(o))
    datatype = str(o.datatype) if o.datatype else None
    if datatype in NATIVE:
        return ("native", type(o.toPython()).__name__, o.toPython())
    return ("text", str(o), (o.language or "").lower() or None, None if datatype == dts.XSD + "string" else datatype)


def canon_json(v):
    """ An expanded JSON-LD value """
    if "@id" in v:
        check(set(v) == {"@id"}, "value {!r}", v)
        return ("id", v["@id"])
    if not isinstance(v["@value"], str):
        check(set(v) == {"@value"}, "value {!r}", v)
        return ("native", type(v["@value"]).__name__, v["@value"])
    check(set(v) <= {"@value", "@language", "@type"}, "value {!r}", v)
    return ("text", v["@value"], v.get("@language"), v.get("@type"))


def containers(expanded):
    """ {"dublincore": {term: values}, "extensions": {...}} of an expanded document """
    out = {}
    for key in ("dublincore", "extensions"):
        out[key] = {}
        boxes = expanded.get(dts.DTS + key, [])
        check(len(boxes) <= 1, "{} {}", len(boxes), key)
        for box in boxes:
            for term, vals in box.items():
                canons = [canon_json(v) for v in vals]
                out[key][term] = set(canons)
    return out


def single(expanded, uri, what):
    vals = expanded.get(uri, [])
    check(len(vals) == 1, "{}: {!r}", what, vals)
    return vals[0]


def cite_of(expanded):
    return [{"name": single(n, dts.DTS + "citeType", "citeType")["@value"], "children": cite_of(n)} for n in expanded.get(dts.DTS + "citeStructure", [])]


def expand(exported, what):
    from pyld import jsonld
    text = json.dumps(exported, allow_nan=False)
    check(json.loads(text) == exported, "{}: not plain JSON: {!r}", what, exported)
    out = jsonld.expand(json.loads(text), {"base": None})
    check(len(out) == 1, "{}: {} nodes", what, len(out))
    return out[0]


def check_base(expanded, obj_id, type_uri, titles, size, descriptions, what):
    """ What is said of a collection and of each of its members """
    check_eq(expanded.get("@id"), obj_id, what + ": @id")
    check_eq(expanded.get("@type"), [type_uri], what + ": @type")
    title = single(expanded, dts.HYDRA + "title", what + ": title")
    check(title["@value"] in (titles or [""]), "{}: title {!r} is not one of {!r}", what, title, titles)
    check_eq(single(expanded, dts.HYDRA + "totalItems", what + ": totalItems"), {"@value": size}, what + ": totalItems")
    got = [d["@value"] for d in expanded.get(dts.HYDRA + "description", [])]
    check(len(got) == (1 if descriptions else 0) and set(got) <= set(descriptions), "{}: description {!r} of {!r}", what, got, descriptions)


# --- DTS collections --------------------------------------------------------------------------------------------

def by_term(model):
    out = {"dublincore": {}, "extensions": {}}
    for key in ("dublincore", "extensions"):
        for term, vals in model[key]:
            where = "dublincore" if term.startswith(dts.DCT) else "extensions"
            out[where].setdefault(term, set()).update(canon_term(dts.make_value(v)) for v in vals)
    out["extensions"].setdefault(dts.SKOS + "prefLabel", set()).update(("text", t["text"], None, None) for t in model["titles"])
    return out


def base_of(model):
    return [model["id"], dts.HYDRA + model["type"], [t["text"] for t in model["titles"]], model["total"],
            [model["description"]["text"]] if model["description"] else []]


def run_dts(case, ctx):
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.resources.collections.dts import DtsCollection
    from .. import support
    from .c05 import check_citations
    model = dts.name_ids(case["collection"])
    top = DtsCollection.parse(dts.Writer(case["style"]).document(model))
    for m in dts.walk(model):
        obj, what = top[m["id"]], "DTS JSON of " + m["id"]
        before = set(obj.graph)
        exported = obj.export(Mimetypes.JSON.DTS.Std)
        check(set(obj.graph) == before, "{}: the graph has changed", what)
        expanded = expand(exported, what)
        check_base(expanded, *(base_of(m) + [what]))
        check_eq(containers(expanded), by_term(m), what + ": metadata")
        if not (m["total"] == 0 and m["members"]):
            members = expanded.get(dts.HYDRA + "member", [])
            check_eq([x["@id"] for x in members], [x["id"] for x in m["members"]], what + ": members")
            for x, sub in zip(members, m["members"]):
                check_base(x, *(base_of(sub) + ["{}: member {}".format(what, sub["id"])]))
        check_eq(cite_of(expanded), m["cite"], what + ": citation structure")
        depth = dts.cite_depth(m)
        check_eq([v["@value"] for v in expanded.get(dts.DTS + "citeDepth", [])], [depth] if depth else [], what + ": citeDepth")

        # and back
        graph = support.reset()
        back = DtsCollection.parse(exported)
        check_eq([back.id, str(back.type), back.size, back.readable], [m["id"], dts.HYDRA + m["type"], m["total"], m["type"] == "Resource"], what + ": parsed back")
        check(str(back.get_label()) in [t["text"] for t in m["titles"]], "{}: parsed back, label {!r}", what, back.get_label())
        if m["cite"]:
            check_citations(back.citation, m["cite"], what + ": parsed back", announced=depth)
        got = {}
        for p, o in back.graph.predicate_objects(back.asNode()):
            got.setdefault(str(p), set()).add(canon_term(o))
        expected = by_term(m)
        for key in expected:
            for term, vals in expected[key].items():
                check_eq(got.get(term), vals, "{}: parsed back, {}".format(what, term))
        again = expand(back.export(Mimetypes.JSON.DTS.Std), what)
        check_eq(containers(again), containers(expanded), what + ": second export")
        # the graph of the collections is not the current one any more: nothing else changes
        ctx.label("exported")
    ctx.nontrivial(len(model["members"]) > 0 or len(model["dublincore"]) > 0)


# --- CTS collections --------------------------------------------------------------------------------------------

def cts_objects(inventory):
    """ (identifier, type, labels, identifiers of the members, citation, parent) for the inventory and everything below """
    out = []
    tgs = []
    for g in inventory["textgroups"]:
        works = []
        for w in g["works"]:
            texts = []
            for t in w["texts"]:
                out.append({"id": inv.text_urn(g, w, t), "type": inv.CTS + t["kind"], "labels": t["label"], "members": [], "citation": t["citation"]})
                texts.append(out[-1]["id"])
            out.append({"id": inv.work_urn(g, w), "type": inv.CTS + "work", "labels": w["title"], "members": texts, "citation": None})
            works.append(out[-1]["id"])
        out.append({"id": inv.tg_urn(g), "type": inv.CTS + "textgroup", "labels": g["groupname"], "members": works, "citation": None})
        tgs.append(out[-1]["id"])
    out.append({"id": inventory["tiid"], "type": inv.CTS + "TextInventory", "labels": [], "members": tgs, "citation": None})
    return out


def make_inventory(case):
    inventory = dict(case["inventory"], tiid="urn:x:inventory")
    if case["how"] == "parse":
        writer = inv.Writer(case["style"])
        return inventory, classes("xml")["inventory"].parse(writer.string(writer.inventory(inventory)))
    return inventory, build(inventory, case["how"])


def graph_containers(obj):
    out = {"dublincore": {}, "extensions": {}}
    for p, o in obj.graph.predicate_objects(obj.asNode()):
        if str(p).startswith(IGNORED):
            continue
        key = "dublincore" if str(p).startswith(dts.DCT) else "extensions"
        out[key].setdefault(str(p), set()).add(canon_term(o))
    return out


def run_cts(case, ctx):
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.resources.collections.dts import DtsCollection
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
    from .. import support
    inventory, top = make_inventory(case)
    objects = {o["id"]: o for o in cts_objects(inventory)}
    wanted = list(objects.items())[case["which"] % 3::3]
    if case["grouped"]:
        everything = CtsTextInventoryCollection("urn:x:everything")
        top.parent = everything
        if case["grouped"] == 2:
            other = classes("proto")["inventory"]("urn:x:other", parent=everything)
            objects["urn:x:other"] = {"id": "urn:x:other", "type": inv.CTS + "TextInventory", "labels": [], "members": [], "citation": None}
        objects["urn:x:everything"] = {"id": "urn:x:everything", "type": inv.CTS + "CtsTextInventoryCollection", "labels": [],
                                       "members": ["urn:x:inventory"] + (["urn:x:other"] if case["grouped"] == 2 else []), "citation": None}
        wanted.append(("urn:x:everything", objects["urn:x:everything"]))
    else:
        everything = top

    def base(o):
        return [o["id"], o["type"], [text for _lang, text in o["labels"]], len(o["members"]), []]

    exports = []
    before = set(top.graph)
    for identifier, o in wanted:
        obj, what = everything[identifier], "DTS JSON of " + identifier
        exported = obj.export(Mimetypes.JSON.DTS.Std)
        expanded = expand(exported, what)
        if identifier == "urn:x:everything" and case["grouped"] == 1:
            # a single inventory stands for the collection which holds it
            o, obj = objects["urn:x:inventory"], everything["urn:x:inventory"]
        check_base(expanded, *(base(o) + [what]))
        check_eq(containers(expanded), graph_containers(obj), what + ": metadata")
        members = expanded.get(dts.HYDRA + "member", [])
        check_eq([m["@id"] for m in members], [m.id for m in obj.members], what + ": members")
        check_eq(sorted(m["@id"] for m in members), sorted(o["members"]), what + ": members")
        for m in members:
            check_base(m, *(base(objects[m["@id"]]) + ["{}: member {}".format(what, m["@id"])]))
        names = [level["name"] for level in o["citation"]["levels"]] if o["citation"] else []
        nested = []
        for name in reversed(names):
            nested = [{"name": name, "children": nested}]
        check_eq(cite_of(expanded), nested, what + ": citation structure")
        check_eq([v["@value"] for v in expanded.get(dts.DTS + "citeDepth", [])], [len(names)] if names else [], what + ": citeDepth")
        exports.append((o, obj, exported, nested))
        ctx.label(o["type"].split("/")[-1])
    check(set(top.graph) == before, "exporting changed the graph")
    expected = [graph_containers(obj) for _o, obj, _e, _n in exports]
    for (o, obj, exported, nested), exp in zip(exports, expected):
        support.reset()
        what = "DTS JSON of {} parsed back".format(o["id"])
        back = DtsCollection.parse(exported)
        check_eq([back.id, str(back.type), back.size], [o["id"], o["type"], len(o["members"])], what)
        check_eq(sorted(m.id for m in back.members), sorted(o["members"]), what + ": members")
        check_eq([c.name for c in back.citation], [level["name"] for level in o["citation"]["levels"]] if o["citation"] else [], what + ": citation")
        got = graph_containers(back)
        for key in exp:
            for term, vals in exp[key].items():
                check(vals <= got[key].get(term, set()), "{}: {} are {!r} and not {!r}", what, term, got[key].get(term), vals)
    ctx.label(case["how"])
    ctx.nontrivial(any(o["labels"] or o["citation"] for _i, o in wanted))


# --- collections of any type ------------------------------------------------------------------------------------

TYPES = [dts.EX + "Shelf", dts.EX + "Box", "http://chs.harvard.edu/xmlns/cts/work", dts.HYDRA + "Collection", dts.HYDRA + "Resource", dts.DTS + "collection",
         "http://purl.org/dc/dcmitype/Collection", "http://schema.org/Book", "http://www.w3.org/2004/02/skos/core#Collection", dts.DCT + "BibliographicResource",
         "http://example.org/other#Shelf", None]


def run_types(case, ctx):
    """ Collections made by hand, which say of what type they are """
    from rdflib import Graph, URIRef
    from rdflib.namespace import NamespaceManager
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.resources.collections.dts import DtsCollection
    from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
    from .. import support
    nodes = []
    for n, node in enumerate(case["nodes"]):
        obj = (ResourceCollection if node["resource"] else Collection)("http://example.org/c/{}".format(n))
        uri = TYPES[node["type"]]
        if uri:
            obj.type = URIRef(uri) if node["as_uri"] else uri
        if node["version"] is not None:
            obj.version = node["version"]
        for text, lang in node["labels"]:
            obj.set_label(text, lang)
        for term, value in node["metadata"]:
            obj.metadata.add(URIRef(term), dts.make_value(value))
        parent = nodes[node["parent"] % len(nodes)] if nodes else None
        m = {"id": obj.id, "obj": obj, "type": uri or dts.DTS + "collection", "labels": [x[0] for x in node["labels"]], "members": [], "version": node["version"]}
        if parent:
            obj.parent = parent["obj"]
            parent["members"].append(m)
        nodes.append(m)

    def base(m):
        return [m["id"], m["type"], m["labels"], len(m["members"]), []]

    exports = []
    for m in nodes:
        obj, what = m["obj"], "collection {}".format(m["id"])
        check_eq((str(obj.type), obj.version and str(obj.version)), (m["type"], m["version"]), what + ": type and version")
        before = set(obj.graph)
        exported = obj.export(Mimetypes.JSON.DTS.Std)
        check(set(obj.graph) == before, "{}: the graph has changed", what)
        expanded = expand(exported, what)
        check_base(expanded, *(base(m) + [what]))
        check_eq(containers(expanded), graph_containers(obj), what + ": metadata")
        members = expanded.get(dts.HYDRA + "member", [])
        check_eq([x["@id"] for x in members], [x["id"] for x in m["members"]], what + ": members")
        for x, sub in zip(members, m["members"]):
            check_base(x, *(base(sub) + ["{}: member {}".format(what, sub["id"])]))
        ctx.label("{} types among the members".format(min(3, len({x["type"] for x in m["members"]}))))
        exports.append((m, exported))
        if case["prefixes"] is not None:
            manager = NamespaceManager(Graph())
            for prefix, namespace in case["prefixes"]:
                manager.bind(prefix, URIRef(namespace), override=True, replace=True)
            bound, what = sorted(manager.namespaces()), what + " with prefixes of its own"
            again = obj.export(Mimetypes.JSON.DTS.Std, namespace_manager=manager)
            check(set(obj.graph) == before and sorted(manager.namespaces()) == bound, "{}: the graph or the prefixes have changed", what)
            expanded = expand(again, what)
            check_base(expanded, *(base(m) + [what]))
            check_eq(containers(expanded), graph_containers(obj), what + ": metadata")
            members = expanded.get(dts.HYDRA + "member", [])
            check_eq([x["@id"] for x in members], [x["id"] for x in m["members"]], what + ": members")
            for x, sub in zip(members, m["members"]):
                check_base(x, *(base(sub) + ["{}: member {}".format(what, sub["id"])]))
            taken = [prefix for prefix, namespace in bound if str(namespace) == dts.DTS and prefix in ("a", "b1", "dts")]
            if taken:
                check(taken[0] + ":extensions" in again or not containers(expanded)["extensions"], "{}: prefix {!r} is not that of {!r}", what, taken[0], sorted(again))
            exports.append((m, again))
            ctx.label("exported with prefixes of its own")
    for m, exported in exports:
        support.reset()
        what = "collection {} parsed back".format(m["id"])
        back = DtsCollection.parse(exported)
        check_eq((back.id, str(back.type), back.size, [(x.id, str(x.type)) for x in back.members]),
                 (m["id"], m["type"], len(m["members"]), [(x["id"], x["type"]) for x in m["members"]]), what)
    ctx.nontrivial(any(len({x["type"] for x in m["members"]} | {m["type"]}) > 1 for m in nodes))


def _types():
    label = st.tuples(st.sampled_from(["Epigrammata", "A & B", "Iliad", "1"]), st.sampled_from(["eng", "lat", None])).map(list)
    term = st.sampled_from([dts.DCT + "creator", dts.EX + "note", "http://purl.org/dc/elements/1.1/title", "http://schema.org/name"])
    node = st.fixed_dictionaries({
        "parent": st.integers(0, 5), "type": st.integers(0, len(TYPES) - 1), "as_uri": st.booleans(), "resource": st.booleans(),
        "version": st.sampled_from([None, None, "1.0.1", "2"]), "labels": st.lists(label, max_size=2, unique_by=tuple),
        "metadata": st.lists(st.tuples(term, dts.values(True)).map(list), max_size=3)})
    namespaces = st.sampled_from([dts.HYDRA, dts.DTS, dts.DCT, dts.EX, "http://schema.org/", "http://purl.org/dc/elements/1.1/", dts.SKOS, inv.CTS])
    prefix = st.sampled_from(["", "a", "hydra", "dts", "dct", "dc", "schema", "b1"])
    return st.fixed_dictionaries({
        "nodes": st.integers(1, 6).flatmap(lambda n: st.lists(node, min_size=n, max_size=n)),
        "prefixes": st.none() | st.lists(st.tuples(prefix, namespaces).map(list), max_size=6)})


# --- RDF --------------------------------------------------------------------------------------------------------

def reachable(graph, node):
    """ Nodes which can be reached from the statements of a node """
    seen, todo = {node}, [node]
    while todo:
        for o in graph.objects(todo.pop()):
            if o not in seen:
                seen.add(o)
                todo.append(o)
    return seen


def statements(graph):
    """ Statements, a text typed as a string being a text """
    return {(s, p, canon_term(o)) for s, p, o in graph}


def run_rdf(case, ctx):
    from rdflib import Graph
    from MyCapytain.common.constants import Mimetypes
    from MyCapytain.resources.collections.dts import DtsCollection
    if case["inventory"] is not None:
        inventory, top = make_inventory(case)
        names = [o["id"] for o in cts_objects(inventory)]
    else:
        model = case["collection"]
        for m in dts.walk(model):
            # absolute identifiers only: a graph has no base
            m["base"] = max(m["base"], dts.RELATIVE + 1)
        dts.name_ids(model)
        top = DtsCollection.parse(dts.Writer(case["style2"]).document(model))
        names = [m["id"] for m in dts.walk(model)]
    before, graph = set(top.graph), statements(top.graph)
    for name in names[case["which"] % 3::3] or names[:1]:
        obj = top[name]
        node = obj.asNode()
        near = reachable(top.graph, node)
        for fmt, parser in ((Mimetypes.JSON.LD, "json-ld"), (Mimetypes.XML.RDF, "xml")):
            what = "{} of {}".format(fmt, name)
            got = statements(Graph().parse(data=obj.export(fmt), format=parser))
            check(got <= graph, "{}: made up {!r}", what, got - graph)
            own = {t for t in graph if t[0] == node or t[2] == ("id", str(node))}
            if parser == "json-ld":
                # the serializer of rdflib (auto_compact) loses 0, false and empty texts which are not alone
                own = {t for t in own if not (t[2][0] == "native" and not t[2][2]) and t[2] != ("text", "", None, None)}
            check(own <= got, "{}: lacks {!r}", what, own - got)
            check(all(s in near or o == ("id", str(node)) for s, _p, o in got), "{}: has unrelated statements {!r}", what, [t for t in got if t[0] not in near])
            ctx.label(parser)
    check(set(top.graph) == before, "exporting changed the graph")
    ctx.label("CTS" if case["inventory"] is not None else "DTS")
    ctx.nontrivial(len(names) > 1)


def _cts():
    return st.fixed_dictionaries({"inventory": inv.inventories(max_tg=2), "style": inv.xml_style(), "how": st.sampled_from(["parse", "xml", "proto"]),
                                  "which": st.integers(0, 2), "grouped": st.integers(0, 2)})


def _rdf():
    base = {"style": inv.xml_style(), "how": st.sampled_from(["parse", "xml", "proto"]), "which": st.integers(0, 2)}
    return st.one_of(
        st.fixed_dictionaries(dict(base, inventory=inv.inventories(max_tg=2), collection=st.none(), style2=st.none())),
        st.fixed_dictionaries(dict(base, inventory=st.none(), collection=dts.collections(2), style2=dts.styles())))


SUBS = [
    Sub("dts", lambda: st.fixed_dictionaries({"collection": dts.collections(3), "style": dts.styles()}), run_dts, quick=400, thorough=8000,
        rule="members or dublincore"),
    Sub("cts", _cts, run_cts, quick=400, thorough=8000, rule="an exported object has labels or a citation scheme"),
    Sub("types", _types, run_types, quick=400, thorough=8000, rule="an object and its members are of several types"),
    Sub("rdf", _rdf, run_rdf, quick=240, thorough=5000, rule="more than one collection"),
]
