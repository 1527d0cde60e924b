""" C18 -- the dispatcher files every collection under the right inventory """
from hypothesis import strategies as st

from ..common import LANGS
from ..engine import Sub, check, check_eq, raises

INVENTORIES = ["urn:perseus:latinLit", "urn:perseus:greekLit", "urn:perseus:farsiLit", "other"]
COLLECTIONS = ["urn:cts:latinLit:phi1294", "urn:cts:latinLit:phi129", "urn:cts:greekLit:tlg0012", "urn:cts:greekLit:tlg0003", "urn:cts:farsiLit:hafez",
               "urn:cts:latinLitX:a", "urn:cts:pdlrefwk:x", "urn:cts:latinLit:stoa0045", "urn:cts:greekLang:a"]
PATHS = [None, "/data/latin/__cts__.xml", "/data/greek/__cts__.xml", ""]
FILTERS = ["latin", "greek", "farsi", "phi", "path latin", "no path", "labelled", "never", "always", "group", "big"]


def accepts(rule, facts):
    id, path, labelled, size = facts
    return {"latin": id.startswith("urn:cts:latinLit:"), "greek": id.startswith("urn:cts:greekLit:"), "farsi": "farsi" in id, "phi": "phi" in id,
            "path latin": path is not None and "latin" in path, "no path": path is None, "labelled": labelled, "never": False, "always": True,
            "group": True, "big": size > 1}[rule]


def filter_function(rule, calls, style):
    def look(collection, path=None):
        calls.append(collection)
        return accepts(rule, (collection.id, path, collection.get_label() is not None, collection.size))
    if style == 0:
        return lambda collection, path=None, **kwargs: look(collection, path)
    if style == 1:
        def named(collection, **kwargs):
            return look(collection, kwargs.get("path"))
        return named

    class Filter(object):
        def __call__(self, collection, path=None, **kwargs):
            return look(collection, path)
    return Filter()


def run(case, ctx):
    from MyCapytain.errors import UndispatchedTextError
    from MyCapytain.resolvers.utils import CollectionDispatcher
    from MyCapytain.resources.prototypes.metadata import Collection
    from MyCapytain.resources.prototypes.cts.inventory import (
        CtsTextInventoryCollection, CtsTextInventoryMetadata, CtsTextgroupMetadata, CtsWorkMetadata)
    cts = case["cts"]
    top = CtsTextInventoryCollection("everything") if cts else Collection("everything")
    inventories, model = {}, {}

    def new_inventory(name):
        if cts:
            inventories[name] = CtsTextInventoryMetadata(name, parent=top)
        else:
            inventories[name] = Collection(name)
            inventories[name].parent = top
        model[name] = []

    first = case["inventories"]
    for name in first:
        new_inventory(name)
    if case["default"] == "first":
        dispatcher = CollectionDispatcher(top)
        default = first[0]
    elif case["default"] == "none":
        dispatcher = CollectionDispatcher(top)
        dispatcher.__methods__ = []
        default = None
    else:
        default = first[-1]
        dispatcher = CollectionDispatcher(top, default_inventory_name=default) if case["cts"] else CollectionDispatcher(top, default)
    check(dispatcher.collection is top, "collection of the dispatcher")
    rules = [] if default is None else [(default, "always")]
    calls, given, labelled, seen, functions = [], set(), set(), set(), []
    for n, op in enumerate(case["ops"]):
        what = "step {} ({})".format(n, op)
        if op["do"] == "inventory":
            free = [i for i in INVENTORIES if i not in inventories]
            if free:
                new_inventory(free[0])
        elif op["do"] == "filter":
            name = INVENTORIES[op["i"]] if op["unknown"] else sorted(inventories)[op["i"] % len(inventories)]
            rule, func = op["rule"], filter_function(op["rule"], calls, op["style"])
            if op["again"] and functions:
                # a filter which is registered already, for the same inventory or another one
                old, rule, func = functions[op["works"] % len(functions)]
                name = name if op["labelled"] else old
                ctx.label("filter registered again")
            functions.append((name, rule, func))
            if op["decorator"]:
                check(dispatcher.inventory(name)(func) is func, "the decorator returns {!r}", func)
            else:
                dispatcher.add(func, name) if op["style"] else dispatcher.add(inventory_name=name, func=func)
            rules.append((name, rule))
            check_eq([m[0] for m in dispatcher.methods], [r[0] for r in rules], what + ": methods")
        else:
            free = [i for i in COLLECTIONS if i not in given]
            if op["same"] and given:
                # another collection of an identifier which was dispatched already, maybe elsewhere
                free = sorted(given)
                ctx.label("identifier dispatched again")
            if not free:
                continue
            ident = free[op["i"] % len(free)]
            collection = CtsTextgroupMetadata(ident) if cts else Collection(ident)
            given.add(ident)
            for k in range(op["works"]):
                if cts:
                    CtsWorkMetadata("{}.w{}".format(ident, k), parent=collection)
                else:
                    Collection("{}.w{}".format(ident, k)).parent = collection
            if op["labelled"]:
                collection.set_label("x", LANGS[0])
                labelled.add(ident)
            path = PATHS[op["path"]]
            facts = (ident, path, ident in labelled, op["works"])
            expected = [name for name, rule in rules if accepts(rule, facts)]
            kwargs = {} if path is None and op["style"] else {"path": path}
            if not expected:
                raises(UndispatchedTextError, what, dispatcher.dispatch, collection, **kwargs)
                check(collection.parent is None, "{}: an undispatched collection has a parent", what)
                ctx.label("undispatched")
            elif expected[-1] not in inventories:
                raises(KeyError, what, dispatcher.dispatch, collection, **kwargs)
                check(collection.parent is None, "{}: a collection for an unknown inventory has a parent", what)
                ctx.label("unknown inventory")
            else:
                dispatcher.dispatch(collection, **kwargs)
                check(collection.parent is inventories[expected[-1]], "{}: parent is {!r} and not {}", what, collection.parent, expected[-1])
                if ident not in [m.id for m in model[expected[-1]]]:
                    model[expected[-1]].append(collection)
                seen.add(expected[-1])
                ctx.label("dispatched" if len(expected) == 1 else "dispatched among several")
                check_eq([p.id for p in collection.parents], [expected[-1], "everything"], what + ": parents")
        check_eq(list(top.children), list(inventories), what + ": inventories")
        for name, inventory in inventories.items():
            check(top[name] is inventory, "{}: inventory {}", what, name)
            check_eq([id(m) for m in inventory.members], [id(m) for m in model[name]], "{}: members of {}".format(what, name))
        check_eq({d.id for d in top.descendants} - set(inventories) - {d.id for ms in model.values() for m in ms for d in m.descendants},
                 {m.id for ms in model.values() for m in ms}, what + ": everything")
    ctx.nontrivial(len(seen) > 1)


def _cases():
    op = st.fixed_dictionaries({
        "do": st.sampled_from(["dispatch"] * 6 + ["filter"] * 4 + ["inventory"]), "i": st.integers(0, 20), "rule": st.sampled_from(FILTERS[:8] * 2 + FILTERS[8:]),
        "style": st.integers(0, 2), "decorator": st.booleans(), "again": st.sampled_from([False, False, True]), "unknown": st.sampled_from([False] * 6 + [True]), "labelled": st.booleans(),
        "works": st.integers(0, 2), "same": st.sampled_from([False, False, False, True]), "path": st.integers(0, 3)}).map(lambda o: dict(o, i=o["i"] % 4) if o["do"] == "filter" and o["unknown"] else o)
    return st.fixed_dictionaries({
        "cts": st.booleans(), "default": st.sampled_from(["first", "first", "last", "none"]),
        "inventories": st.one_of(st.lists(st.sampled_from(INVENTORIES), min_size=2, max_size=3, unique=True), st.lists(st.sampled_from(INVENTORIES), min_size=1, max_size=2, unique=True)),
        "ops": st.lists(op, min_size=6, max_size=20)})


SUBS = [
    Sub("dispatch", _cases, run, quick=900, thorough=18000, rule="collections were dispatched to two inventories or more"),
]
