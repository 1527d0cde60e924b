""" C31 -- objects stay in the graph which was current when they were made

Several graphs of statements live side by side. Objects of the same identifiers are made in each of them, edited and exported
while any of the graphs is the current one; a plain model keeps the statements of each graph.
"""
from collections import Counter

from hypothesis import strategies as st

from .. import dts, inventories as inv, support
from ..common import LANGS
from ..engine import Sub, check, check_eq
from .c15 import build, classes
from .c19 import by_term, base_of, check_base, containers, expand

IDS = ["urn:x:a", "urn:x:b", "http://ex.org/c"]
#: what the prefixes of a user stand for is not the same in all graphs
PREFIXES = [("ex", inv.SM_NS["ex"]), ("ex", "http://other.org/ns#"), ("foaf", inv.SM_NS["ex"]), ("mine", "http://purl.org/saws/ontology#"), ("ns1", "http://one.org/"), ("ns2", inv.SM_NS["ex"])]
PREDICATES = [inv.SM_NS["ex"] + "p", "http://other.org/ns#p", "http://purl.org/dc/elements/1.1/creator", "http://one.org/x", "http://unbound.org/path/name", "http://purl.org/saws/ontology#p"]
#: what some graphs give the usual prefixes to
TAKEN = {"": "http://taken.org/", "dts": "http://taken.org/dts#", "tei": "http://www.tei-c.org/", "cpt": inv.SM_NS["ex"]}
FORMATS = ["ld", "rdf", "capitains"]


def terms(graph, node):
    """ Statements about a node """
    return Counter((str(p), str(o), getattr(o, "language", None)) for p, o in graph.predicate_objects(node))


def everything(graph):
    from rdflib import BNode
    return {tuple("_" if isinstance(x, BNode) else x for x in t) for t in graph}, len(graph)


def make_graph(spec):
    from rdflib import Graph, Literal, URIRef
    from MyCapytain.common.constants import bind_graph
    graph = Graph() if spec["own"] else None
    if spec["own"]:
        for i in range(spec["held"]):
            graph.add((URIRef(IDS[i]), URIRef(PREDICATES[0]), Literal("held")))
        for prefix in spec["taken"]:
            graph.bind(prefix, TAKEN[prefix], True, True)
    if spec["own"] and spec["plain"]:
        # a graph as rdflib makes it
        return graph
    got = bind_graph(graph)
    check(graph is None or got is graph, "bind_graph returns another graph")
    bound = dict(got.namespaces())
    for prefix, uri in (("", "http://chs.harvard.edu/xmlns/cts/"), ("dts", dts.DTS), ("tei", "http://www.tei-c.org/ns/1.0/"), ("cpt", inv.CPT)):
        # a prefix which the graph gives to something else stays there, and the namespace gets another one
        check_eq(bound.get(prefix) == URIRef(uri), not (spec["own"] and prefix in spec["taken"]), "prefix {!r} of a bound graph".format(prefix))
        check(URIRef(uri) in bound.values(), "namespace {} of a bound graph: {!r}", uri, bound)
    check_eq(len(got), spec["held"] if spec["own"] else 0, "statements of a bound graph")
    for i in spec["prefixes"]:
        got.bind(PREFIXES[i][0], PREFIXES[i][1], True)
    return got


def exported(obj, fmt, what):
    """ Statements which an export of metadata or of a collection holds about the object """
    from lxml import etree
    from rdflib import Graph
    from MyCapytain.common.constants import Mimetypes
    if fmt == "capitains":
        metadata = getattr(obj, "metadata", obj)
        text = metadata.export(Mimetypes.XML.CapiTainS.CTS)
        header = " ".join('xmlns{}="{}"'.format(":" + k if k else "", v) for k, v in metadata.graph.namespaces() if k != "xml")
        root = etree.fromstring("<root {}>{}</root>".format(header, text))
        return Counter((n.tag.replace("{", "").replace("}", ""), n.text or "", n.get("{http://www.w3.org/XML/1998/namespace}lang")) for n in root)
    data = obj.export(Mimetypes.JSON.LD if fmt == "ld" else Mimetypes.XML.RDF)
    got = Graph().parse(data=data, format="json-ld" if fmt == "ld" else "xml")
    return terms(got, obj.asNode())


def run(case, ctx):
    from rdflib import Literal, URIRef
    from MyCapytain.common.constants import get_graph, set_graph
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
    from MyCapytain.resources.prototypes.text import InteractiveTextualNode
    graphs = [make_graph(spec) for spec in case["graphs"]]
    set_graph(graphs[0])
    current = 0
    objects = []    # (object, graph, statements are those of a text, node)
    for step, op in enumerate(case["ops"]):
        what = "step {} ({})".format(step, op)
        before = [set(g) for g in graphs]
        touched, nodes = None, set()
        if op["do"] == "current":
            current = op["i"] % len(graphs)
            set_graph(graphs[current])
            check(get_graph() is graphs[current], "{}: current graph", what)
        elif op["do"] == "make":
            ident, touched = IDS[op["i"] % len(IDS)], current
            if op["kind"] == "text":
                obj = InteractiveTextualNode(identifier=ident)
            elif op["kind"] == "metadata":
                obj = Metadata(node=URIRef(ident))
            else:
                obj = (Collection if op["kind"] == "collection" else ResourceCollection)(ident)
            nodes = {obj.asNode()}
            objects.append((obj, current, op["kind"]))
        elif not objects:
            continue
        else:
            obj, touched, kind = objects[op["o"] % len(objects)]
            nodes = {obj.asNode()}
            metadata, predicate = getattr(obj, "metadata", obj), URIRef(PREDICATES[op["p"]])
            lang, text = op["label"]
            value = Literal(text, lang=lang)
            held = set(graphs[touched].objects(obj.asNode(), predicate))
            if op["do"] == "add":
                metadata.add(predicate, text, lang)
                held.add(value)
            elif op["do"] == "set":
                metadata.set(predicate, text, lang)
                held = {value}
            elif op["do"] == "remove":
                metadata.remove(predicate)
                held = set()
            elif op["do"] == "read":
                check_eq(Counter(map(str, metadata.get(predicate))), Counter(map(str, held)), what + ": values")
                if kind in ("collection", "resource"):
                    labels = [str(x) for x in graphs[touched].objects(obj.asNode(), URIRef("http://www.w3.org/2000/01/rdf-schema#label"))]
                    got = obj.get_label()
                    check(str(got) in labels if labels else got is None, "{}: label {!r} out of {!r}", what, got, labels)
                touched = None
            elif op["do"] == "label":
                if kind == "resource" and op["p"] % 2:
                    obj.lang = op["label"][0] or "eng"
                    check_eq(obj.lang, op["label"][0] or "eng", what + ": language")
                elif kind in ("collection", "resource"):
                    obj.set_label(text, lang)
                    check((obj.asNode(), URIRef("http://www.w3.org/2000/01/rdf-schema#label"), value) in graphs[touched], "{}: not in its graph", what)
                elif kind == "text":
                    obj.set_title(text, lang)
                    check(value in set(graphs[touched].objects(obj.asNode())), "{}: not in its graph", what)
                    check(obj.get_title(lang) in set(graphs[touched].objects(obj.asNode())), "{}: title {!r}", what, obj.get_title(lang))
            elif op["do"] == "export":
                fmt = FORMATS[op["p"] % 3]
                if kind != "text":
                    expected = terms(graphs[touched], obj.asNode())
                    check_eq(exported(obj, fmt, what), expected, "{}: {} export".format(what, fmt))
                    ctx.label("export from another graph" if touched != current else "export from the current graph")
                touched = None
            if op["do"] in ("add", "set", "remove"):
                check_eq(Counter(map(repr, metadata.get(predicate))), Counter(map(repr, held)), what + ": values")
                check_eq(set(graphs[touched].objects(obj.asNode(), predicate)), held, what + ": statements of its graph")
                ctx.label("edit in another graph" if touched != current else "edit in the current graph")
        for i, graph in enumerate(graphs):
            change = set(graph) ^ before[i]
            if i != touched:
                check(not change, "{}: graph {} has changed: {!r}", what, i, change)
            check(all(s in nodes for s, _p, _o in change), "{}: statements about others have changed: {!r}", what, change)
        for obj, i, _kind in objects:
            check(obj.graph is graphs[i], "{}: graph of {!r}", what, obj)
            check(getattr(obj, "metadata", obj).graph is graphs[i], "{}: graph of the metadata of {!r}", what, obj)
    ctx.nontrivial(len({g for _o, g, _k in objects}) > 1)


# --- whole trees -------------------------------------------------------------------------------------------------

def run_trees(case, ctx):
    """ Inventories and DTS collections, some of the same identifiers, each read in its own graph """
    from MyCapytain.common.constants import Mimetypes, set_graph
    from MyCapytain.resources.collections.dts import DtsCollection
    graphs = [make_graph(spec) for spec in case["graphs"]]
    made = []
    for n, tree in enumerate(case["trees"]):
        at = n % len(graphs)
        if tree["dts"]:
            # one DTS collection in each graph, or else what is said of a member could be said by another one too
            if any(g == at and "textgroups" not in m for _t, g, m in made):
                continue
            model = dts.name_ids(tree["collection"])
            set_graph(graphs[at])
            made.append((DtsCollection.parse(dts.Writer(tree["style2"]).document(model)), at, model))
        else:
            if any(g == at and "textgroups" in m for _t, g, m in made):
                continue
            set_graph(graphs[at])
            writer = inv.Writer(tree["style"])
            inventory = tree["inventory"]
            top = classes("xml")["inventory"].parse(writer.string(writer.inventory(inventory))) if tree["how"] == "parse" else build(inventory, tree["how"])
            made.append((top, at, inventory))
    set_graph(graphs[case["current"] % len(graphs)])
    before = [everything(g) for g in graphs]
    kept = []
    for top, at, model in made:
        elsewhere = at != case["current"] % len(graphs)
        if "textgroups" not in model:
            for m in dts.walk(model):
                what = "DTS JSON of {} of graph {}".format(m["id"], at)
                expanded = expand(top[m["id"]].export(Mimetypes.JSON.DTS.Std), what)
                check_base(expanded, *(base_of(m) + [what]))
                check_eq(containers(expanded), by_term(m), what + ": metadata")
        else:
            inv.check_inventory(top, model, True)
            kept.append((model, top.export(Mimetypes.XML.CapiTainS.CTS), True))
            kept.append((model, top.export(Mimetypes.XML.CTS), None))
        ctx.label(("CTS" if "textgroups" in model else "DTS") + (" in another graph" if elsewhere else " in the current graph"))
    for i, g in enumerate(graphs):
        check_eq(everything(g), before[i], "exporting changed graph {}".format(i))
    for model, text, sm in kept:
        support.reset()
        inv.check_inventory(classes("xml")["inventory"].parse(text), model, sm)
    ctx.nontrivial(len({at for _t, at, _m in made}) > 1)


def _graphs():
    graph = st.fixed_dictionaries({"own": st.booleans(), "held": st.integers(0, 2), "plain": st.booleans(), "taken": st.lists(st.sampled_from(sorted(TAKEN)), max_size=2, unique=True), "prefixes": st.lists(st.integers(0, len(PREFIXES) - 1), max_size=3, unique_by=lambda i: PREFIXES[i][0])})
    return st.lists(graph, min_size=2, max_size=3)


def _cases():
    op = st.fixed_dictionaries({
        "do": st.sampled_from(["current"] * 3 + ["make"] * 3 + ["add"] * 3 + ["set", "remove", "read", "label", "label", "export", "export"]),
        "i": st.integers(0, 5), "o": st.integers(0, 7), "p": st.integers(0, len(PREDICATES) - 1),
        "kind": st.sampled_from(["collection", "resource", "metadata", "text"]),
        "label": st.tuples(st.sampled_from(LANGS[:3] + [None]), st.sampled_from(["Arma", "virum", "A & B", "held"])).map(list)})
    # to begin with, an object in one graph and another one in the next
    make, switch = op.map(lambda o: dict(o, do="make")), st.integers(1, 5).map(lambda i: {"do": "current", "i": i})
    first = st.one_of(st.just([]), st.tuples(make, switch, make).map(list), st.tuples(make, make, switch, make).map(list))
    return st.fixed_dictionaries({"graphs": _graphs(), "ops": st.tuples(first, st.integers(6, 24).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))).map(lambda t: t[0] + t[1])})


def _trees():
    tree = st.one_of(
        st.fixed_dictionaries({"dts": st.just(True), "collection": dts.collections(2), "style2": dts.styles()}),
        st.fixed_dictionaries({"dts": st.just(False), "inventory": inv.inventories(max_tg=2), "style": inv.xml_style(), "how": st.sampled_from(["parse", "parse", "xml", "proto"])}))
    return st.fixed_dictionaries({"graphs": _graphs(), "trees": st.lists(tree, min_size=2, max_size=3), "current": st.integers(0, 2)})


SUBS = [
    Sub("graphs", _cases, run, quick=900, thorough=18000, rule="objects were made in two graphs or more"),
    Sub("trees", _trees, run_trees, quick=300, thorough=6000, rule="trees were made in two graphs or more"),
]
