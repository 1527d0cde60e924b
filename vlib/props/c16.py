""" C16 -- collections form a consistent tree under every operation

Model: a plain tree of nodes with their labels; after every step every living collection is compared with it.
"""
from collections import Counter

from hypothesis import strategies as st

from ..common import LANGS
from ..engine import Sub, check, check_eq, raises

IDS = {
    "generic": ["urn:coll:{}".format(i) for i in range(6)] + ["http://ex.org/c?x=1", "a", ""],
    "inventories": ["default", "everything"],
    "inventory": ["inv1", "inv2", "latin texts"],
    "textgroup": ["urn:cts:latinLit:phi1294", "urn:cts:latinLit:phi129", "urn:cts:greekLit:tlg0012"],
    "work": ["urn:cts:latinLit:phi1294.phi002", "urn:cts:latinLit:phi1294.phi00", "urn:cts:greekLit:tlg0012.tlg001", "urn:cts:greekLit:tlg0012.phi002"],
    "text": ["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:latinLit:phi1294.phi002.perseus-lat", "urn:cts:latinLit:phi1294.phi002.perseus-eng3",
             "urn:cts:greekLit:tlg0012.tlg001.x1", "urn:cts:greekLit:tlg0012.tlg001.x2", "urn:cts:greekLit:tlg0012.tlg002.x1",
             "urn:cts:greekLit:tlg0012.tlg001.perseus-lat2", "urn:cts:latinLit:phi1294.phi001.x1"],
}
LANGUAGES = ["eng", "en", "lat", "fr", "fre"]
UNKNOWN = ["urn:cts:latinLit:phi1294.phi002.perseus-l", "nothing", "urn:coll:", "urn:cts:latinLit"]
TEXT_KINDS = ["edition", "translation", "commentary", "translation"]
CHILD_OF = {"inventory": ["inventories"], "textgroup": ["inventory"], "work": ["textgroup"], "text": ["work"], "generic": ["generic"]}
ORDER = ["generic", "inventories", "inventory", "textgroup", "work", "text"]
TITLE = {"inventories": "name", "inventory": "name", "textgroup": "groupname", "work": "title", "text": "label"}


class Node(object):
    def __init__(self, kind, id, obj, parent=None):
        self.kind, self.id, self.obj, self.parent = kind, id, obj, None
        self.children, self.labels, self.alive = [], [], True
        self.metadata = Counter()
        self.lang, self.subtype = None, None
        self.readable = kind == "text"

    def descendants(self):
        out = list(self.children)
        for c in self.children:
            out += c.descendants()
        return out

    def parents(self):
        return [] if self.parent is None else [self.parent] + self.parent.parents()


def make(kind, id, which, how, parent):
    """ A new collection, and whether it has already been given its parent """
    from MyCapytain.resources.prototypes.metadata import Collection
    from MyCapytain.resources.prototypes.cts import inventory as proto
    from MyCapytain.resources.collections import cts as xml
    if kind == "generic":
        return (Collection if how < 2 else readable_collection())(id), False
    if kind == "inventories":
        return proto.CtsTextInventoryCollection(id), False
    name = {"inventory": "TextInventory", "textgroup": "Textgroup", "work": "Work"}.get(kind) or which.capitalize()
    cls = getattr(xml, "XmlCts{}Metadata".format(name)) if how % 2 else getattr(proto, "Cts{}Metadata".format(name))
    if parent is not None and how < 2:
        return cls(id, parent=parent), True
    return cls(id), False


def readable_collection():
    """ A kind of collection which is readable, and which can hold others as well """
    from MyCapytain.resources.prototypes.metadata import Collection

    class Readable(Collection):
        @property
        def readable(self):
            return True
    return Readable


def compare(nodes, ctx, what):
    from MyCapytain.errors import UnknownCollection
    living = [n for n in nodes if n.alive]
    known = {n.id for n in living} | set(UNKNOWN)
    for n in living:
        o, where = n.obj, "{}: {} {!r}".format(what, n.kind, n.id)
        check_eq((o.id, str(o.asNode())), (n.id, n.id), where + ": identifier")
        check_eq([id(m) for m in o.members], [id(c.obj) for c in n.children], where + ": members")
        if n.kind != "text":
            check_eq([(k, id(v)) for k, v in o.children.items()], [(c.id, id(c.obj)) for c in n.children], where + ": children")
        check_eq(o.size, len(n.children), where + ": size")
        down = n.descendants()
        check_eq(Counter(id(m) for m in o.descendants), Counter(id(c.obj) for c in down), where + ": descendants")
        check_eq(Counter(id(m) for m in o.readableDescendants), Counter(id(c.obj) for c in down if c.readable), where + ": readable descendants")
        check_eq(o.readable, n.readable, where + ": readable")
        check_eq([id(p) for p in o.parents], [id(p.obj) for p in n.parents()], where + ": parents")
        check(o.parent is (n.parent.obj if n.parent else None), "{}: parent is {!r}", where, o.parent)
        if n.kind in ("inventories", "inventory", "textgroup", "work"):
            check_eq(len(o), sum(1 for c in down if c.kind == "text"), where + ": len")
        for attr in {"inventory": ["textgroups"], "textgroup": ["works"], "work": ["texts"]}.get(n.kind, []):
            check_eq({k: id(v) for k, v in getattr(o, attr).items()}, {c.id: id(c.obj) for c in n.children}, where + ": " + attr)
        if n.kind in ("work", "text"):
            check_eq(o.lang, n.lang, where + ": language")
        if n.kind == "text":
            check_eq(o.subtype, n.subtype, where + ": subtype")
        work = n if n.kind == "work" else n.parent if n.kind == "text" else None
        if work is not None:
            for lang in [None] + LANGUAGES:
                got = (o.get_translation_in if work is n else o.translations)(lang)
                check_eq([id(x) for x in got], [id(c.obj) for c in work.children if c.subtype == "translation" and lang in (None, c.lang)],
                         "{}: translations in {}".format(where, lang))
            if n is not work:
                check_eq([id(x) for x in o.editions()], [id(c.obj) for c in work.children if c.subtype == "edition"], where + ": editions")
        reach = {c.id: c.obj for c in down}
        reach[n.id] = o
        for i in sorted(known):
            check_eq(i in o, i in reach, "{}: {!r} in it".format(where, i))
            if i in reach:
                check(o[i] is reach[i], "{}: [{!r}] is {!r}", where, i, o[i])
            else:
                raises(UnknownCollection, "{}: [{!r}]".format(where, i), lambda: o[i])
        expected = Counter((str(l), t) for l, t in n.labels)
        for lang in [None] + LANGS[:3]:
            got = o.get_label(lang) if lang else o.get_label()
            match = lang and [x for x in n.labels if x[0] == lang] or n.labels
            check((got.language, str(got)) in [tuple(x) for x in match] if match else got is None, "{}: label in {} is {!r} out of {!r}", where, lang, got, match)
        for prop in ([TITLE[n.kind]] if n.kind in TITLE else []):
            from rdflib import URIRef
            got = Counter((str(x.language), str(x)) for x in o.metadata.get(URIRef("http://chs.harvard.edu/xmlns/cts/" + prop)))
            check_eq(got, Counter(set(expected)), "{}: {}".format(where, prop))
        if n.kind == "generic":
            from rdflib.namespace import SKOS
            got = Counter((str(x.language), str(x)) for x in o.metadata.get(SKOS.prefLabel))
            check_eq(got, Counter(set(expected)), "{}: labels in the metadata".format(where))
        from rdflib.namespace import DC
        check_eq(Counter(str(x) for x in o.metadata.get(DC.creator)), n.metadata, where + ": metadata")


def run(case, ctx):
    from rdflib.namespace import DC
    from MyCapytain.errors import UnknownCollection
    nodes = []
    burnt = set()
    for step, op in enumerate(case["ops"]):
        living = [n for n in nodes if n.alive]
        do = op["do"]
        what = "after step {} ({})".format(step, op)
        if do in ("new", "new child"):
            kind = op["kind"]
            if do == "new" or not living:
                parent = None
            else:
                # below an object which can hold something
                holders = [n for n in living if n.kind not in ("text",)]
                if not holders:
                    continue
                # most often, below the last ones
                parent = holders[-1 - op["a"] % min(len(holders), 3)] if op["a"] % 4 else holders[op["a"] // 4 % len(holders)]
                kind = "generic" if parent.kind == "generic" else ORDER[ORDER.index(parent.kind) + 1]
            free = [i for i in IDS[kind] if i not in burnt and all(n.id != i for n in living)]
            if not free:
                continue
            new_id = free[op["b"] % len(free)]
            obj, done = make(kind, new_id, TEXT_KINDS[op["c"] % 4], op["how"], parent.obj if parent else None)
            node = Node(kind, new_id, obj)
            node.readable = kind == "text" or kind == "generic" and op["how"] >= 2
            node.subtype = TEXT_KINDS[op["c"] % 4] if kind == "text" else None
            if done and kind == "text":
                # a text is in the language its work has when it is made
                node.lang = parent.lang
            if parent is not None:
                if not done:
                    obj.parent = parent.obj
                node.parent = parent
                parent.children.append(node)
            nodes.append(node)
        elif not living:
            continue
        elif do == "adopt":
            # an object which has no parent goes below another tree
            roots = [n for n in living if n.parent is None and n.kind not in ("inventories",)]
            if not roots:
                continue
            node = roots[op["a"] % len(roots)]
            below = {id(x) for x in node.descendants()} | {id(node)}
            holders = [n for n in living if n.kind in CHILD_OF[node.kind] and id(n) not in below]
            if not holders:
                continue
            parent = holders[op["b"] % len(holders)]
            node.obj.parent = parent.obj
            node.parent = parent
            parent.children.append(node)
        elif do == "same parent":
            node = living[op["a"] % len(living)]
            if node.parent is None:
                continue
            node.obj.parent = node.parent.obj
        elif do == "label":
            node = living[op["a"] % len(living)]
            lang, text = op["label"]
            if node.kind == "generic":
                node.obj.set_label(text, lang)
            else:
                # the title of a CTS collection is its label
                node.obj.set_cts_property(TITLE[node.kind], text, lang)
            if [lang, text] not in node.labels:
                node.labels.append([lang, text])
        elif do == "lang":
            able = [n for n in living if n.kind in ("work", "text")]
            if not able:
                continue
            node = able[op["a"] % len(able)]
            node.obj.lang = node.lang = LANGUAGES[op["b"] % len(LANGUAGES)]
        elif do == "metadata":
            node = living[op["a"] % len(living)]
            node.obj.metadata.add(DC.creator, op["label"][1])
            node.metadata[op["label"][1]] = 1
        elif do == "delete":
            top = living[op["a"] % len(living)]
            down = top.descendants() + ([top] if op["how"] == 0 else [])
            if not down:
                continue
            node = down[op["b"] % len(down)]
            del top.obj[node.id]
            if node.parent is not None:
                node.parent.children.remove(node)
            node.alive = False
            graph, gone = top.obj.graph, node.obj.asNode()
            left = list(graph.triples((gone, None, None))) + list(graph.triples((None, None, gone)))
            check(not left, "{}: statements about what was deleted are left: {}", what, left)
            for d in node.descendants():
                d.alive = False
                burnt.add(d.id)
        else:
            top = living[op["a"] % len(living)]
            reach = {n.id for n in top.descendants()} | {top.id}
            candidates = [i for i in UNKNOWN + [n.id for n in nodes] if i not in reach]
            target = candidates[op["b"] % len(candidates)]

            def delete():
                del top.obj[target]
            raises(UnknownCollection, "deleting {!r} from {!r}".format(target, top.id), delete)
        ctx.label(do)
        compare(nodes, ctx, what)
    living = [n for n in nodes if n.alive]
    ctx.label("depth {}".format(max([len(n.parents()) for n in living] or [0])))
    ctx.nontrivial(max([len(n.parents()) for n in living] or [0]) >= 2)


def _cases():
    op = st.fixed_dictionaries({
        "do": st.sampled_from(["new"] * 2 + ["new child"] * 9 + ["adopt"] * 3 + ["same parent"] + ["label"] * 4 + ["metadata"] * 2 + ["lang"] * 4 + ["delete"] * 2 + ["bad delete"]),
        "kind": st.sampled_from(["generic", "inventories", "inventory", "textgroup", "work", "text"]),
        "a": st.integers(0, 30), "b": st.integers(0, 30), "c": st.integers(0, 3), "how": st.integers(0, 3),
        "label": st.tuples(st.sampled_from(LANGS[:3] * 2 + [None]), st.sampled_from(["Epigrammata", "A & B", "Iliad", "x", " two  words "])).map(list)})
    # a CTS tree to begin with: some works of one textgroup, some texts of each
    new = {"a": 4, "b": 0, "c": 0, "how": 0, "label": ["eng", "x"]}
    def tree(works, whats):
        ops = [dict(new, do="new", kind="inventory"), dict(new, do="new child", kind="textgroup", a=1, b=whats[0])]
        at = iter(whats[1:])
        for n_texts in works:
            # below the textgroup (the second of the last holders once works are there)
            ops.append(dict(new, do="new child", kind="work", a=4, b=next(at)))
            for _ in range(n_texts):
                ops.append(dict(new, do="new child", kind="text", a=3, b=next(at), c=next(at), how=next(at)))
        return ops
    trees = st.builds(tree, st.lists(st.integers(1, 3), min_size=1, max_size=3), st.lists(st.integers(0, 3), min_size=40, max_size=40))

    # inventories of one collection, each with its textgroups, works and texts
    def inventories(whats):
        ops, at = [dict(new, do="new", kind="inventories")], iter(whats)
        ops += [dict(new, do="new child", kind="inventory", a=0, b=next(at)) for _ in range(3)]
        for first in (1, 4, 7):
            # below one of the three collections of the level above
            ops += [dict(new, do="new child", kind="text", a=4 * (first + next(at) % 3), b=next(at), c=next(at), how=next(at)) for _ in range(3)]
        return ops
    collections = st.builds(inventories, st.lists(st.integers(0, 3), min_size=40, max_size=40))
    trees = st.one_of(trees, trees, collections)
    return st.one_of(st.fixed_dictionaries({"ops": st.lists(op, min_size=6, max_size=24)}),
                     st.builds(lambda t, ops: {"ops": t + ops}, trees, st.lists(op, min_size=1, max_size=16)))


def run_properties(case, ctx):
    """ Properties which belong to each collection: type, model, version, language, Dublin Core values; equality of CTS collections """
    from rdflib import Literal, URIRef
    from rdflib.namespace import DC
    from MyCapytain.resources.prototypes.cts import inventory as cts
    from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
    objs, models = [], []
    for spec in case["objects"]:
        kind, n = spec
        if kind == "generic":
            obj, id = Collection("urn:coll:%d" % n), "urn:coll:%d" % n
        elif kind == "resource":
            obj, id = ResourceCollection("urn:res:%d" % n), "urn:res:%d" % n
        elif kind == "inventory":
            obj, id = [cts.CtsTextInventoryMetadata, cts.CtsTextInventoryCollection][n % 2]("inv%d" % (n // 2)), "inv%d" % (n // 2)
        else:
            urns = {"textgroup": IDS["textgroup"], "work": IDS["work"], "text": IDS["text"][:2]}[kind]
            id = urns[n % len(urns)]
            cls = {"textgroup": cts.CtsTextgroupMetadata, "work": cts.CtsWorkMetadata, "text": [cts.CtsEditionMetadata, cts.CtsTranslationMetadata][n % 2]}[kind]
            obj = cls(urn=id)
        objs.append((kind, id, obj))
        if id not in [m["id"] for m in models]:
            models.append({"id": id, "values": {}, "dc": {}})
    model_of = {m["id"]: m for m in models}
    changed = set()
    for step, op in enumerate(case["ops"]):
        kind, id, obj = objs[op["on"] % len(objs)]
        values, what = model_of[id]["values"], op["what"]
        text = op["text"]
        if what == "version":
            obj.version = Literal(text) if op["form"] else text
            values[what] = text
        elif what == "model":
            obj.model = URIRef("http://ex.org/" + text) if op["form"] else "http://ex.org/" + text
            values[what] = "http://ex.org/" + text
        elif what == "type":
            obj.type = URIRef("http://ex.org/type/" + text) if op["form"] else "http://ex.org/type/" + text
            values[what] = "http://ex.org/type/" + text
        elif what == "lang" and kind in ("resource", "text"):
            obj.lang = text
            values[what] = text
        elif what in ("creator", "title", "description", "subject") and kind == "resource":
            obj.metadata.add(DC[what], text, lang=op["lang"])
            entry = [op["lang"], text]
            if entry not in model_of[id]["dc"].setdefault(what, []):
                model_of[id]["dc"][what].append(entry)
        else:
            continue
        changed.add((id, what))
        for kind, id, obj in objs:
            values, dc = model_of[id]["values"], model_of[id]["dc"]
            where = "step {}: {}".format(step, id)
            got = obj.version
            check_eq(str(got) if got is not None else None, values.get("version"), where + ": version")
            if "model" in values:
                check(obj.model == URIRef(values["model"]) and isinstance(obj.model, URIRef), "{}: model is {!r}, not {}", where, obj.model, values["model"])
            if "type" in values:
                check(obj.type == URIRef(values["type"]) and isinstance(obj.type, URIRef), "{}: type is {!r}, not {}", where, obj.type, values["type"])
            if kind in ("resource", "text"):
                check_eq(obj.lang, values.get("lang"), where + ": lang")
            if kind == "resource":
                for name in ("creator", "title", "description", "subject"):
                    entries = dc.get(name, [])
                    for lang in [None] + LANGS[:3]:
                        got = getattr(obj, "get_" + name)(lang)
                        wanted = [e for e in entries if e[0] == lang] if lang else []
                        wanted = wanted or entries
                        if not wanted:
                            check(got is None, "{}: {} in {} is {!r}", where, name, lang, got)
                        else:
                            check([getattr(got, "language", None), str(got)] in wanted, "{}: {} in {} is {!r}, not among {}", where, name, lang, got, wanted)
    for kind, id, obj in objs:
        check_eq(obj.id, id, "identifier")
        for kind2, id2, obj2 in objs:
            if kind not in ("generic", "resource") and kind2 not in ("generic", "resource"):
                same = id == id2 and type(obj) is type(obj2)
                check_eq(bool(obj == obj2), same, "{} == {}".format(obj, obj2))
                check_eq(bool(obj != obj2), not same, "{} != {}".format(obj, obj2))
        check(obj != id and not obj == id, "{} equals its identifier", id)
    ctx.nontrivial(len({c[0] for c in changed}) > 1 and len(changed) > 2)


def _properties():
    op = st.fixed_dictionaries({
        "what": st.sampled_from(["version", "model", "type", "lang", "lang", "creator", "title", "description", "subject"]), "on": st.integers(0, 11), "form": st.booleans(),
        "text": st.sampled_from(["lat", "1.0", "x", "edition", "A & B"]), "lang": st.sampled_from([None] + LANGS[:3])})
    obj = st.tuples(st.sampled_from(["generic", "resource", "resource", "textgroup", "work", "text", "text", "inventory", "inventory"]), st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({
        "objects": st.integers(2, 6).flatmap(lambda n: st.lists(obj, min_size=n, max_size=n)), "ops": st.integers(2, 10).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))})


SUBS = [
    Sub("tree", _cases, run, quick=900, thorough=18000, rule="the final tree has three levels or more"),
    Sub("properties", _properties, run_properties, quick=600, thorough=12000, rule="three properties or more, of two collections or more"),
]
