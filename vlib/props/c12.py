""" C12 -- metadata behave as a multi-valued, language-aware store per object """
from collections import Counter

from hypothesis import strategies as st

from ..common import LANGS, labels
from ..engine import Sub, check, check_eq

PREDICATES = ["http://purl.org/dc/elements/1.1/title", "http://purl.org/dc/terms/title", "http://chs.harvard.edu/xmlns/cts/label",
              "http://chs.harvard.edu/xmlns/cts/labels", "https://w3id.org/dts/api#description", "http://example.org/p"]
XSD = "http://www.w3.org/2001/XMLSchema#"
N_OBJECTS = 5  # 0 and 3 are two objects on the same node; 1, 4: own blank nodes; 2: another URI


def term(value, nodes):
    """ rdflib / python value and arguments, from its description """
    from rdflib import Literal, URIRef
    kind = value["kind"]
    if kind == "str":
        return value["text"]
    if kind in ("int", "bool"):
        return value["v"]
    if kind == "uri":
        return URIRef(value["text"])
    if kind == "node":
        return nodes[value["n"]]
    if kind == "typed":
        return Literal(value["text"], datatype=URIRef(value["datatype"]))
    return Literal(value["text"], lang=value["lit_lang"])


#: known to rdflib or not
DATATYPES = st.sampled_from([XSD + "gYear", XSD + "gYear", "http://example.org/types#verse", "https://w3id.org/dts/api#Kind", "urn:x:type"])


def key_of(value, nodes):
    """ What the model keeps of a value """
    kind = value["kind"]
    lang = value["lang"]
    if kind == "str":
        return "lit", value["text"], lang, None
    if kind == "int":
        return "lit", str(value["v"]), lang, None if lang else XSD + "integer"
    if kind == "bool":
        return "lit", "true" if value["v"] else "false", None, XSD + "boolean"
    if kind == "uri":
        return "uri", value["text"]
    if kind == "node":
        return node_key(nodes[value["n"]])
    if kind == "typed":
        return "lit", value["text"], None, value["datatype"]
    return "lit", value["text"], value["lit_lang"], None


def node_key(node):
    from rdflib import BNode
    return ("bnode" if isinstance(node, BNode) else "uri"), str(node)


def canon(obj):
    from rdflib import Literal
    if isinstance(obj, Literal):
        return "lit", str(obj), obj.language, str(obj.datatype) if obj.datatype is not None else None
    return node_key(obj)


def language(key):
    return key[2] if key[0] == "lit" else None


def compare(objects, nodes, model, graph, what):
    from rdflib import URIRef
    for i, m in enumerate(objects):
        me = node_key(nodes[i])
        for p in PREDICATES:
            uri = URIRef(p)
            expected = {o for s, q, o in model if s == me and q == p}
            check_eq(Counter(canon(o) for o in m[uri]), Counter(expected), "{}: object {}[{}]".format(what, i, p))
            check_eq(Counter(canon(o) for o in m.get(uri)), Counter(expected), "{}: object {}.get({})".format(what, i, p))
            one = m.get_single(uri)
            check(canon(one) in expected if expected else one is None, "{}: object {}.get_single({}) is {!r} out of {!r}", what, i, p, one, expected)
            one = m.get_single(p)
            check(canon(one) in expected if expected else one is None, "{}: object {}.get_single(str {}) is {!r} out of {!r}", what, i, p, one, expected)
            for lang in LANGS + ["xyz"]:
                match = {o for o in expected if language(o) == lang}
                check_eq(Counter(canon(o) for o in m.get(uri, lang)), Counter(match), "{}: object {}.get({}, {})".format(what, i, p, lang))
                allowed = match or expected
                for how, got in (("get_single", m.get_single(uri, lang)), ("[]", m[uri, lang]), ("get_single with a string", m.get_single(p, lang=lang))):
                    check(canon(got) in allowed if allowed else got is None, "{}: object {}.{}({}, {}) is {!r} out of {!r}", what, i, how, p, lang, got, allowed)
    got = Counter((node_key(s), str(p), canon(o)) for s, p, o in graph)
    check_eq(got, Counter(model), "{}: statements of the graph".format(what))


def run_history(case, ctx):
    from rdflib import BNode, URIRef
    from MyCapytain.common.constants import get_graph
    from MyCapytain.common.metadata import Metadata
    b = BNode()
    objects = [Metadata(URIRef("urn:cts:a:b")), Metadata(b), Metadata(node=URIRef("urn:cts:a:b.c")), Metadata(URIRef("urn:cts:a:b")), Metadata()]
    nodes = [m.asNode() for m in objects]
    check(nodes[1] == b and nodes[0] == nodes[3] and len(set(nodes)) == 4, "nodes: {!r}", nodes)
    graph = get_graph()
    check(all(m.graph is graph for m in objects), "objects are not on the shared graph")
    model = set()
    seen = set(nodes)
    for n, op in enumerate(case["ops"]):
        if op["do"] == "new":
            # an object is dropped, and what was said of its node stays: another one has nothing to do with it
            i = op["on"]
            m = objects[i] = None
            objects[i] = Metadata()
            nodes[i] = objects[i].asNode()
            check(nodes[i] not in seen, "step {}: the node of a new object is that of another one", n)
            seen.add(nodes[i])
            ctx.label("new")
            compare(objects, nodes, model, graph, "after step {} ({})".format(n, op))
            continue
        m = objects[op["on"]]
        me = node_key(nodes[op["on"]])
        p = PREDICATES[op["p"]]
        do = op["do"]
        if do in ("add", "set"):
            value = op["value"]
            arg = term(value, nodes)
            key = key_of(value, nodes)
            lang = value["lang"]
            mine = sorted((t for t in model if t[0] == me), key=repr)
            if op["again"] and mine:
                # a predicate this object has, with a value it has there or that of another of its predicates
                p = mine[op["pick"] % len(mine)][1]
                if op["again"] == 2:
                    known = [t for t in mine if t[1] == p]
                    key = known[op["pick"] // 7 % len(known)][2]
                    arg, lang = [o for o in graph.objects(nodes[op["on"]], URIRef(p)) if canon(o) == key][0], None
                    ctx.label(do + " a known value" + (" among others" if len(known) > 1 else ""))
            if do == "set":
                model = {t for t in model if not (t[0] == me and t[1] == p)}
            model.add((me, p, key))
            if lang is None:
                getattr(m, do)(URIRef(p), arg)
            elif op["kw"]:
                getattr(m, do)(key=URIRef(p), value=arg, lang=lang)
            else:
                getattr(m, do)(URIRef(p), arg, lang)
        elif do == "remove":
            # a value which is there, or any
            mine = sorted((t for t in model if t[0] == me), key=repr)
            obj = None
            if op["obj"] and mine:
                target = mine[op["pick"] % len(mine)]
                obj = [o for o in graph.objects(nodes[op["on"]], URIRef(target[1])) if canon(o) == target[2]][0]
                if op["obj"] == 2:
                    p = target[1]
            pred = None if op["all"] else p
            m.remove(URIRef(pred) if pred else None, obj)
            model = {t for t in model if not (t[0] == me and (pred is None or t[1] == pred) and (obj is None or t[2] == canon(obj)))}
        else:
            linked = [i for i in range(N_OBJECTS) if any(t[2] == node_key(nodes[i]) for t in model)]
            if op["again"] and linked:
                # an object something is linked to
                i = linked[op["pick"] // 5 % len(linked)]
                m, me = objects[i], node_key(nodes[i])
            subj = nodes[op["pick"] % N_OBJECTS] if op["obj"] else None
            links = sorted((t for t in model if t[2] == me), key=repr)
            if op["again"] and links:
                # one of the links there are
                target = links[op["pick"] % len(links)]
                p = target[1]
                subj = subj and [node for node in nodes if node_key(node) == target[0]][0] if target[0] in [node_key(node) for node in nodes] else subj
                ctx.label("unlink a known predicate" if subj is None else "unlink a known subject")
            pred = None if op["all"] else p
            m.unlink(subj, URIRef(pred) if pred else None)
            model = {t for t in model if not (t[2] == me and (pred is None or t[1] == pred) and (subj is None or t[0] == node_key(subj)))}
        ctx.label(do)
        compare(objects, nodes, model, graph, "after step {} ({})".format(n, op))
    # getOr: the metadata linked to a node, else new ones
    for i in range(N_OBJECTS):
        for p in PREDICATES:
            linked = {t[2] for t in model if t[0] == node_key(nodes[i]) and t[1] == p and t[2][0] != "lit"}
            literal = any(t[2][0] == "lit" for t in model if t[0] == node_key(nodes[i]) and t[1] == p)
            if literal:
                continue
            got = Metadata.getOr(nodes[i], URIRef(p))
            if linked:
                check(node_key(got.asNode()) in linked, "getOr({}, {}) is {!r} out of {!r}", i, p, got.asNode(), linked)
            else:
                check(got.asNode() not in nodes, "getOr({}, {}) gives a known node: {!r}", i, p, got.asNode())
    compare(objects, nodes, model, graph, "at the end")
    ctx.nontrivial(len(model) >= 3 and len({t[0] for t in model}) > 1)


ELEMENT = ["title", "creator", "subject", "description"]


def run_element(case, ctx):
    from rdflib import URIRef, Literal
    from MyCapytain.resources.prototypes.text import TextualElement
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.resources.prototypes.cts.text import PrototypeCtsText
    elements = [TextualElement("urn:a"), TextualElement(identifier="urn:a"), TextualElement("urn:b")]
    check(len({e.asNode() for e in elements}) == 3, "elements share their node")
    # elements which are given metadata: those of another one, or of their own
    owner = [0, 1, 2]
    if case["given"]:
        own = Metadata()
        shared = elements[case["given"] % 3].metadata
        elements += [TextualElement("urn:d", metadata=own), PrototypeCtsText(urn="urn:cts:a:b.c.d", metadata=shared)]
        owner += [3, case["given"] % 3]
        check(elements[3].metadata is own and elements[4].metadata is shared, "metadata given")
    model = {}
    for n, op in enumerate(case["ops"]):
        name = ELEMENT[op["what"]]
        value = op["value"]
        at = op["on"] % len(elements)
        e, at = elements[at], owner[at]
        if op["dct"]:
            e.metadata.add(URIRef("http://purl.org/dc/terms/" + name), value["text"], value["lang"])
            model.setdefault((at, "dct " + name), []).append(("lit", value["text"], value["lang"], None))
        else:
            arg = Literal(value["text"], lang=value["lang"]) if op["literal"] else value["text"]
            getattr(e, "set_" + name)(arg, **({} if op["literal"] or value["lang"] is None else {"lang": value["lang"]}))
            model.setdefault((at, name), []).append(("lit", value["text"], value["lang"], None))
        for i, x in enumerate(elements):
            for name in ELEMENT:
                have = model.get((owner[i], name), [])
                if name == "title" and not have:
                    have = model.get((owner[i], "dct title"), [])
                    if have:
                        ctx.label("title of DCTERMS")
                for lang in [None] + LANGS:
                    match = [v for v in have if v[2] == lang] if lang is not None else have
                    allowed = match or have
                    got = getattr(x, "get_" + name)(*([lang] if lang is not None else []))
                    check(canon(got) in allowed if allowed else got is None,
                          "step {}: get_{}({}) of element {} is {!r} out of {!r}", n, name, lang, i, got, allowed)
    ctx.nontrivial(len(model) > 2)


def _value():
    lang = st.one_of(st.none(), st.sampled_from(LANGS))
    text = st.one_of(st.sampled_from(["Title", "Title", "SubTitle", "Épigrammes", "5", "urn:cts:a:b"]), labels())
    return st.one_of(
        st.fixed_dictionaries({"kind": st.just("str"), "text": text, "lang": lang}),
        st.fixed_dictionaries({"kind": st.just("str"), "text": text, "lang": st.sampled_from(LANGS)}),
        st.fixed_dictionaries({"kind": st.just("int"), "v": st.integers(-5, 2000), "lang": st.none()}),
        st.fixed_dictionaries({"kind": st.just("bool"), "v": st.booleans(), "lang": st.none()}),
        st.fixed_dictionaries({"kind": st.just("uri"), "text": st.sampled_from(["http://ex.org/1", "urn:cts:a:b", "urn:cts:a:b.d"]), "lang": st.none()}),
        st.fixed_dictionaries({"kind": st.just("node"), "n": st.integers(0, N_OBJECTS - 1), "lang": st.none()}),
        st.fixed_dictionaries({"kind": st.just("node"), "n": st.sampled_from(range(N_OBJECTS)), "lang": st.none()}),
        st.fixed_dictionaries({"kind": st.just("typed"), "text": st.sampled_from(["1837", "2001"]), "lang": st.none(),
                               "datatype": DATATYPES}),
        # a Literal keeps its own language, whatever is asked beside
        st.fixed_dictionaries({"kind": st.just("literal"), "text": text, "lit_lang": lang, "lang": lang}))


def _history():
    base = {"on": st.integers(0, N_OBJECTS - 1), "p": st.integers(0, len(PREDICATES) - 1)}
    op = st.fixed_dictionaries(dict(
        base, do=st.sampled_from(["add"] * 6 + ["set"] * 2 + ["remove"] * 3 + ["unlink"] * 2 + ["new"]), value=_value(), kw=st.booleans(), again=st.sampled_from([0, 0, 1, 1, 2]),
        obj=st.sampled_from([0, 0, 1, 2, 2]), all=st.sampled_from([False] * 4 + [True]), pick=st.integers(0, 200)))
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=6, max_size=20)})


def _element():
    value = st.fixed_dictionaries({"text": labels().filter(bool), "lang": st.one_of(st.none(), st.sampled_from(LANGS))})
    return st.fixed_dictionaries({"given": st.integers(0, 6), "ops": st.lists(st.fixed_dictionaries({
        "on": st.integers(0, 4), "what": st.integers(0, 3), "value": value, "dct": st.sampled_from([False, False, True]), "literal": st.booleans()}),
        min_size=2, max_size=10)})


SUBS = [
    Sub("history", _history, run_history, quick=900, thorough=18000, rule="three statements or more at the end, on two nodes or more"),
    Sub("element", _element, run_element, quick=500, thorough=10000, rule="three (element, property) pairs or more have values"),
]
