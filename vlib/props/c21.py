""" C21 -- the local resolver knows exactly the texts of its directories """
import itertools
from collections import Counter

from hypothesis import strategies as st

from .. import corpora, inventories as inv
from ..engine import Sub, check, check_eq, raises


def check_known(resolver, corpus, inventories, ctx):
    """ The content of the inventories: {inventory: model of its textgroups} """
    for ident, groups in inventories.items():
        obj = resolver.inventory[ident]
        check_eq(set(obj.textgroups), {inv.tg_urn(g) for g in groups}, "textgroups of " + ident)
        model = []
        for g in groups:
            works = []
            for w in g["works"]:
                members = []
                for t in w["texts"]:
                    urn = inv.text_urn(g, w, t)
                    got = resolver.inventory[urn]
                    found = corpus.served(urn)
                    if found is None:
                        check(got.path in [p for p, _ in corpus.places(urn)], "{}: path is {!r}, not one of {!r}", urn, got.path, corpus.places(urn))
                        members.append(dict(t, citation=None))
                        ctx.label("unusable text")
                    else:
                        one = corpus.served(urn, got.path)
                        check(one is not None, "{}: served from {!r}, and usable in {!r} only", urn, got.path, [p for p, d in corpus.places(urn) if d])
                        members.append(dict(t, citation=one[1]))
                        if len(corpus.places(urn)) > 1:
                            ctx.label("text in several directories" if all(d for _, d in corpus.places(urn)) else "text usable in some directories only")
                works.append(dict(w, texts=members))
            model.append(dict(g, works=works))
        for g in model:
            inv.check_textgroup(obj.textgroups[inv.tg_urn(g)], g, obj, True)


def check_queries(resolver, corpus, known):
    """ known: identifiers of the texts which were dispatched """
    check_eq(Counter(t.id for t in resolver.texts), Counter(u for _, _, _, u in corpus.all() if u in known), "texts of the resolver")
    matches, _, count = resolver.__getTextMetadata__()
    usable = {u for _, _, _, u in corpus.usable() if u in known}
    check_eq(Counter(t.id for t in matches), Counter(usable), "texts found by a query")
    check_eq(count, len(usable), "number of texts found by a query")
    check(resolver.getMetadata() is resolver.inventory, "metadata without identifier")


def check_served(resolver, corpus, urns):
    """ One passage of each text comes from the right file """
    for urn in urns:
        obj = resolver.inventory[urn]
        found = corpus.served(urn, obj.path)
        if found is None:
            continue
        document = found[1]
        text = resolver.getTextualNode(urn)
        check_eq(document.canon(text.export("python/lxml")), document.canon(document.root), "{}: content of the text".format(urn))
        check_eq([str(r) for r in resolver.getReffs(urn)], [".".join(p) for p in document.level(1)], "{}: references".format(urn))


def run(case, ctx):
    corpus = corpora.Corpus(case, ctx.tmpdir())
    how = case["how"]
    if how == "twice":
        resolver = corpus.resolver(autoparse=False)
        for path in corpus.paths:
            got = resolver.parse([path])
            done = corpus.paths[:corpus.paths.index(path) + 1]
            check_eq({t.id for t in resolver.texts}, {u for _, _, _, u in corpus.all() if any(p.startswith(d + "/") for p, _ in corpus.places(u) for d in done)},
                     "texts after loading {!r}".format(done))
        check(got is resolver.inventory, "parse returns the inventory")
        ctx.label("directories parsed one by one")
    else:
        resolver = corpus.resolver(**({} if how == "default" else {"name": "n"}))
    check_eq([(type(m).__name__, m.id) for m in resolver.inventory.members], [("XmlCtsTextInventoryMetadata", "default")], "inventories")
    check_eq(resolver.inventory.id, "defaultTic", "identifier of the collection of inventories")
    ids = {u for _, _, _, u in corpus.all()}
    check_known(resolver, corpus, {"default": corpus.model["textgroups"]}, ctx)
    check_queries(resolver, corpus, ids)
    check_served(resolver, corpus, sorted(ids))
    ctx.label("{} directories".format(case["dirs"]))
    ctx.nontrivial(len(ids) > 2 and bool(corpus.usable()) and (case["dirs"] > 1 or len(corpus.usable()) < len(ids)))


def _cases():
    return st.builds(lambda c, how: dict(c, how=how), corpora.corpora(), st.sampled_from(["default", "default", "named", "twice"]))


# ------------------------------------------------------------------------------------------- directories which grow and change

def run_again(case, ctx):
    """ Directories parsed again after texts were added, repaired and rewritten: what they hold now is known """
    import shutil
    tmp = ctx.tmpdir()
    changes = itertools.cycle(case["changes"])
    groups, did = [], set()
    for g in case["groups"]:
        works = []
        for w in g["works"]:
            members = []
            for t in w["texts"]:
                change = next(changes)
                did.add(change)
                if change == "new":
                    continue
                places = []
                for place in t["places"]:
                    if place is not None and place["file"] == "ok":
                        place = {"same": place, "rewritten": dict(place, doc=(place["doc"] + 1) % len(case["docs"])), "repaired": dict(place, file=case["bad"])}[change]
                    places.append(place)
                members.append(dict(t, places=places))
            works.append(dict(w, texts=members))
        groups.append(dict(g, works=works))
    before = corpora.Corpus(dict(case, groups=groups), tmp)
    resolver = before.resolver()
    check_known(resolver, before, {"default": before.model["textgroups"]}, ctx)
    for d in before.dirs:
        shutil.rmtree(d)
    corpus = corpora.Corpus(case, tmp)
    given = list(corpus.paths)
    check(resolver.parse(given) is resolver.inventory, "parse returns the inventory")
    check_eq(given, list(corpus.paths), "the directories given")
    ids = {u for _, _, _, u in corpus.all()}
    check_known(resolver, corpus, {"default": corpus.model["textgroups"]}, ctx)
    check_queries(resolver, corpus, ids)
    check_served(resolver, corpus, sorted(ids))
    for change in sorted(did):
        ctx.label("text " + change)
    ctx.nontrivial(len(ids) > 1 and did != {"same"} and bool(corpus.usable()))


def _again_cases():
    return st.builds(lambda c, changes, bad: dict(c, changes=changes, bad=bad), corpora.corpora(max_dirs=2, big=True),
                     st.lists(st.sampled_from(["same", "rewritten", "rewritten", "repaired", "new"]), min_size=1, max_size=6), st.sampled_from(corpora.BAD))


# ------------------------------------------------------------------------------------------- dispatched corpora

RULES = {"latin": lambda g: g.startswith("urn:cts:latinLit"), "greek": lambda g: g.startswith("urn:cts:greekLit"), "phi": lambda g: ":phi" in g,
         "path": None}


def first_directory(corpus, group):
    for path in corpus.paths:
        if path in corpus.directories(inv.tg_urn(group)):
            return path


def run_dispatch(case, ctx):
    from MyCapytain.errors import UndispatchedTextError
    from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
    from MyCapytain.resolvers.utils import CollectionDispatcher
    from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
    corpus = corpora.Corpus(case, ctx.tmpdir())
    top = CtsTextInventoryCollection("everything")
    names = ["urn:i:{}".format(i) for i in range(len(case["rules"]) + 1)]
    for name in names:
        XmlCtsTextInventoryMetadata(name, parent=top)
    dispatcher = CollectionDispatcher(top, default_inventory_name=names[0])
    if not case["fallback"]:
        dispatcher.__methods__ = []
    expected = {name: [] for name in names}
    seen = []

    def add(name, rule):
        @dispatcher.inventory(name)
        def accept(collection, path=None, **kwargs):
            seen.append(path)
            return path.startswith(corpus.paths[-1] + "/") if rule == "path" else RULES[rule](collection.id)
    for name, rule in zip(names[1:], case["rules"]):
        add(name, rule)
    lost = set()
    for g in corpus.model["textgroups"]:
        urn = inv.tg_urn(g)
        # a textgroup stays where the first directory which holds it had it filed
        last = first_directory(corpus, g) == corpus.paths[-1]
        accepted = [name for name, rule in zip(names[1:], case["rules"]) if (last if rule == "path" else RULES[rule](urn))]
        if accepted:
            expected[accepted[-1]].append(g)
        elif case["fallback"]:
            expected[names[0]].append(g)
        else:
            lost.add(urn)

    class Resolver(CtsCapitainsLocalResolver):
        RAISE_ON_UNDISPATCHED = case["strict"]
    if lost and case["strict"]:
        raises(UndispatchedTextError, "loading undispatched textgroups", Resolver, corpus.paths, dispatcher=dispatcher)
        ctx.label("undispatched, strict")
        ctx.nontrivial(len(corpus.model["textgroups"]) > 1)
        return
    resolver = Resolver(corpus.paths, dispatcher=dispatcher)
    check(resolver.inventory is top, "the collection of the resolver is not the one of its dispatcher")
    check_eq([m.id for m in top.members], names, "inventories")
    check_known(resolver, corpus, expected, ctx)
    known = {u for g, _, _, u in corpus.all() if inv.tg_urn(g) not in lost}
    check_queries(resolver, corpus, known)
    for urn in lost:
        raises(KeyError, "reading the undispatched " + urn, lambda: resolver.inventory[urn])
        ctx.label("undispatched")
    check(all(p is not None and any(p.startswith(d) for d in corpus.paths) for p in seen), "paths given to the filters: {!r}", seen)
    if "path" in case["rules"]:
        ctx.label("filed by directory")
    ctx.nontrivial(len([1 for g in expected.values() if g]) > 1)


def _dispatch_cases():
    return st.builds(lambda c, rules, fallback, strict: dict(c, rules=rules, fallback=fallback or "path" in rules, strict=strict), corpora.corpora(max_dirs=2),
                     st.lists(st.sampled_from(["latin", "greek", "phi", "path"]), min_size=1, max_size=3), st.sampled_from([True, True, False]), st.booleans())


# ------------------------------------------------------------------------------------------- metadata files which cannot be parsed

def run_broken(case, ctx):
    """ A metadata file which cannot be parsed raises, or is left out when the resolver is asked to go on """
    import os
    from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
    corpus = corpora.Corpus(case, ctx.tmpdir())
    files = sorted(os.path.join(d, f) for root in corpus.paths for d, _, fs in os.walk(root) for f in fs if f == "__cts__.xml")
    victim = files[case["victim"] % len(files)]
    with open(victim, "wb") as f:
        f.write([b"", b"<ti:work", b"<a></b>", b"not xml"][case["content"]])
    is_group = os.path.basename(os.path.dirname(os.path.dirname(victim))) == "data"

    raises(Exception, "loading " + victim, CtsCapitainsLocalResolver, corpus.paths)
    from .. import support
    support.reset()

    class Lenient(CtsCapitainsLocalResolver):
        RAISE_ON_GENERIC_PARSING_ERROR = False
    resolver = Lenient(corpus.paths)
    lost = os.path.dirname(victim) + os.sep
    expected = set()
    for _, _, _, urn in corpus.all():
        if any(not p.startswith(lost) for p, _ in corpus.places(urn)):
            expected.add(urn)
    check_eq({t.id for t in resolver.texts}, expected, "texts besides those of " + victim)
    matches = {t.id for t in resolver.__getTextMetadata__()[0]}
    check_eq(matches, {u for u in expected if any(d is not None and not p.startswith(lost) for p, d in corpus.places(u))}, "texts found by a query")
    ctx.label("textgroup file" if is_group else "work file")
    ctx.nontrivial(len(expected) > 1)


def _broken_cases():
    return st.builds(lambda c, victim, content: dict(c, victim=victim, content=content), corpora.corpora(max_dirs=2), st.integers(0, 30), st.integers(0, 3))


SUBS = [
    Sub("load", _cases, run, quick=400, thorough=6000, rule="three texts or more, over several directories or with unusable ones"),
    Sub("dispatch", _dispatch_cases, run_dispatch, quick=250, thorough=4000, rule="textgroups went to two inventories or more"),
    Sub("again", _again_cases, run_again, quick=250, thorough=4000, rule="two texts or more, some of which were added, repaired or rewritten"),
    Sub("broken", _broken_cases, run_broken, quick=200, thorough=3000, rule="other texts were left"),
]
