""" C23 -- inventory queries and paging of the local resolver """
from collections import Counter

from hypothesis import strategies as st

from .. import corpora, inventories as inv
from ..common import LANGS
from ..engine import Sub, check, check_eq, raises

CATEGORIES = ["edition", "translation", "commentary"]


def with_schemes(resolver, corpus, g):
    """ Model of a textgroup with the usable texts only """
    works = []
    for w in g["works"]:
        members = []
        for t in w["texts"]:
            urn = inv.text_urn(g, w, t)
            if corpus.served(urn):
                members.append(dict(t, citation=corpus.served(urn, resolver.inventory[urn].path)[1]))
        if members:
            works.append(dict(w, texts=members))
    return dict(g, works=works)


def filing(corpus):
    """ A dispatcher which files every other textgroup apart, and the name of the inventory of each """
    from MyCapytain.resolvers.utils import CollectionDispatcher
    from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
    top = CtsTextInventoryCollection("everything")
    for name in ("default", "urn:apart"):
        XmlCtsTextInventoryMetadata(name, parent=top)
    dispatcher = CollectionDispatcher(top, default_inventory_name="default")
    names = {inv.tg_urn(g): ("default", "urn:apart")[i % 2] for i, g in enumerate(corpus.model["textgroups"])}

    @dispatcher.inventory("urn:apart")
    def apart(collection, path=None, **kwargs):
        return names[collection.id] == "urn:apart"
    return dispatcher, names


def run_metadata(case, ctx):
    corpus = corpora.Corpus(case, ctx.tmpdir())
    if case["split"]:
        dispatcher, names = filing(corpus)
        resolver = corpus.resolver(dispatcher=dispatcher)
        ctx.label("two inventories" if len(set(names.values())) > 1 else "one of two inventories")
    else:
        resolver = corpus.resolver()
        names = {inv.tg_urn(g): "default" for g in corpus.model["textgroups"]}
    inventories = ["default", "urn:apart"] if case["split"] else ["default"]
    usable = {x[3] for x in corpus.usable()}
    ids = []
    for g in corpus.model["textgroups"]:
        ids.append(("textgroup", inv.tg_urn(g)))
        for w in g["works"]:
            ids.append(("work", inv.work_urn(g, w)))
            ids += [("text", inv.text_urn(g, w, t)) for t in w["texts"]]
    looked = set()
    for i in case["look"]:
        kind, ident = ids[i % len(ids)]
        g = [g for g in corpus.model["textgroups"] if ident == inv.tg_urn(g) or ident.startswith(inv.tg_urn(g) + ".")][0]
        g = with_schemes(resolver, corpus, g)
        if not any(u == ident or u.startswith(ident + ".") for u in usable):
            raises(KeyError, "metadata of {}, which has no text".format(ident), resolver.getMetadata, ident)
            ctx.label("without text")
            continue
        got = resolver.getMetadata(ident) if i % 2 else resolver.getMetadata(objectId=ident)
        check_eq(got.id, ident, "identifier of the metadata")
        chain = [p.id for p in got.parents]
        name = names[inv.tg_urn(g)]
        check_eq(chain[-1], name, "inventory of " + ident)
        if kind == "textgroup":
            check_eq(chain, [name], "parents of " + ident)
            inv.check_textgroup(got, g, got.parent, True)
        else:
            w = [w for w in g["works"] if ident == inv.work_urn(g, w) or ident.startswith(inv.work_urn(g, w) + ".")][0]
            if kind == "work":
                check_eq(chain, [inv.tg_urn(g), name], "parents of " + ident)
                inv.check_work(got, g, w, got.parent, True)
            else:
                check_eq(chain, [inv.work_urn(g, w), inv.tg_urn(g), name], "parents of " + ident)
                inv.check_text(got, g, w, [t for t in w["texts"] if inv.text_urn(g, w, t) == ident][0], got.parent, True)
        looked.add(ident)
        ctx.label(kind)
    check(resolver.getMetadata() is resolver.inventory and resolver.getMetadata(None) is resolver.inventory, "metadata without identifier")
    check(resolver.getMetadata(resolver.inventory.id) is resolver.inventory, "metadata of the collection of all inventories")
    for name in inventories:
        check(resolver.getMetadata(name) is resolver.inventory.children[name], "metadata of an inventory")
    for bad in ("urn:cts:nothing:x", "urn:cts:latinLit:phi1294.phi002.nothing", ids[0][1] + "9.x"):
        raises(KeyError, "metadata of " + bad, resolver.getMetadata, bad)
    # The inventory of the resolver is as before
    check_eq([m.id for m in resolver.inventory.members], inventories, "inventories at the end")
    check_eq(Counter(x.id for name in inventories for x in resolver.inventory[name].descendants), Counter(i for _, i in ids), "collections at the end")
    for g, w, t, urn in corpus.all():
        obj = resolver.inventory[urn]
        found = corpus.served(urn, obj.path)
        inv.check_text(obj, g, w, dict(t, citation=found and found[1]), resolver.inventory[inv.work_urn(g, w)], True)
    ctx.nontrivial(len(looked) > 2)


def _metadata_cases():
    return st.builds(lambda c, look, split: dict(c, look=look, split=split), corpora.corpora(max_dirs=2), st.lists(st.integers(0, 30), min_size=4, max_size=8), st.booleans())


def run_filters(case, ctx):
    from MyCapytain.common.reference import URN
    corpus = corpora.Corpus(case, ctx.tmpdir())
    resolver = corpus.resolver()
    usable = corpus.usable()
    if not usable:
        ctx.label("nothing usable")
        return
    sizes = set()
    for q in case["queries"]:
        g, w, t, urn = usable[q["text"] % len(usable)]
        filters, what = {}, "query {!r}".format(q)
        level = q["urn"]
        exp = usable
        if level != "none":
            value = {"namespace": "urn:cts:" + g["id"].split(":")[0], "textgroup": inv.tg_urn(g), "work": inv.work_urn(g, w), "version": urn,
                     "other": "urn:cts:latinLit:phi12.phi00", "othertg": inv.tg_urn(g) + "4", "upper": inv.work_urn(g, w).upper().replace("URN:CTS", "urn:cts")}[level]
            # (URNs are case-sensitive: upper finds nothing)
            exp = [x for x in exp if x[3] == value or x[3].startswith(value + (":" if level == "namespace" else "."))]
            filters["urn"] = URN(value) if q["as_urn"] else value
        if q["lang"] != "none":
            lang = q["lang"] if q["lang"] != "own" else inv.text_lang(w, t)
            exp = [x for x in exp if inv.text_lang(x[1], x[2]) == lang]
            filters["lang"] = lang
        if q["category"] != "none":
            category = q["category"] if q["category"] != "own" else t["kind"]
            exp = [x for x in exp if x[2]["kind"] == category]
            filters["category"] = category
        matches, page, count = resolver.__getTextMetadata__(**filters)
        check_eq(Counter(m.id for m in matches), Counter(x[3] for x in exp), what + ": texts")
        check(all(m is resolver.inventory[m.id] for m in matches), "{}: a text is not the one of the inventory", what)
        check_eq((page, count), (0, len(exp)), what + ": page and count")
        everything = [m.id for m in matches]
        limit = q["limit"]
        size = limit if limit is not None and 1 <= limit <= 100 else 10
        pages = max(-(-len(everything) // size), 1)
        got = []
        for n in range(1, pages + 1):
            found, page, count = resolver.__getTextMetadata__(page=n, limit=limit, pagination=True, **filters)
            check_eq((page, count), (n, len(found)), "{}: number and count of page {}".format(what, n))
            check(len(found) == size or n == pages, "{}: page {} of {} has {} texts and not {}", what, n, pages, len(found), size)
            got += [m.id for m in found]
        check_eq(got, everything, what + ": the pages one after the other")
        found, page, count = resolver.__getTextMetadata__(page=pages + q["beyond"], limit=limit, pagination=True, **filters)
        check_eq(([m.id for m in found], page, count), (everything[(pages - 1) * size:], pages, len(everything) - (pages - 1) * size),
                 "{}: page {} beyond the last one".format(what, pages + q["beyond"]))
        found, page, count = resolver.__getTextMetadata__(limit=limit, pagination=True, **filters)
        check_eq(([m.id for m in found], page, count), (everything[:size], 1, len(everything[:size])), what + ": page which is not given")
        sizes.add(len(exp))
        ctx.label("several pages" if pages > 1 else "one page")
        ctx.label("{} texts found".format(min(len(exp), 3)))
        ctx.label("urn " + level)
    ctx.nontrivial(len(sizes) > 1)


def _filter_cases():
    query = st.fixed_dictionaries({
        "text": st.integers(0, 11), "urn": st.sampled_from(["none", "none", "namespace", "textgroup", "work", "work", "version", "other", "othertg", "upper"]), "as_urn": st.booleans(),
        "lang": st.sampled_from(["none", "none", "own", "own"] + LANGS[:3]), "category": st.sampled_from(["none", "none", "own"] + CATEGORIES),
        "limit": st.sampled_from([None, 1, 1, 2, 2, 3, 100, 101, 0]), "beyond": st.integers(1, 4)})
    return st.builds(lambda c, q: dict(c, queries=q), corpora.corpora(max_dirs=2), st.lists(query, min_size=3, max_size=6))


def run_pages(case, ctx):
    from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver as Resolver
    length, limit = case["length"], case["limit"]
    size = limit if limit is not None and 1 <= limit <= 100 else 10
    pages = max(-(-length // size), 1)
    items, seen = list(range(length)), []
    for n in range(1, pages + 1):
        start, end, page, count = Resolver.pagination(n, limit, length)
        check_eq((start, end, page, count), ((n - 1) * size, min(n * size, length), n, min(n * size, length) - (n - 1) * size), "page {} of {}".format(n, pages))
        seen += items[start:end]
    check_eq(seen, items, "items of all the pages")
    last = Resolver.pagination(pages, limit, length)
    for extra in case["beyond"]:
        check_eq(Resolver.pagination(pages + extra, limit, length), last, "page {} of {}".format(pages + extra, pages))
    check_eq(Resolver.pagination(None, limit, length), Resolver.pagination(1, limit, length), "page which is not given")
    ctx.label("several pages" if pages > 1 else "one page", "full last page" if length and length % size == 0 else "other last page")
    ctx.nontrivial(pages > 1)


def _page_cases():
    return st.fixed_dictionaries({"length": st.one_of(st.integers(0, 40), st.integers(0, 400), st.sampled_from([0, 1, 10, 20, 100, 200, 500])),
                                  "limit": st.one_of(st.none(), st.integers(0, 12), st.sampled_from([20, 50, 99, 100, 101, 1000])),
                                  "beyond": st.lists(st.integers(1, 60), min_size=3, max_size=6)})


SUBS = [
    Sub("metadata", _metadata_cases, run_metadata, quick=300, thorough=5000, rule="more than two identifiers were found"),
    Sub("filters", _filter_cases, run_filters, quick=400, thorough=6000, rule="queries found different numbers of texts"),
    Sub("pages", _page_cases, run_pages, quick=3000, thorough=40000, rule="several pages", graph=False),
]
