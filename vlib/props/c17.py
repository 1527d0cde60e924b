""" C17 -- merging CTS collections is a union by identifier """
from collections import Counter

from hypothesis import strategies as st

from .. import inventories as inv
from ..engine import Sub, check, check_eq, raises
from .c15 import build

WORKS = ["phi002", "phi00", "phi0021"]
TEXTS = {"perseus-lat2": "edition", "perseus-lat": "edition", "perseus-eng2": "translation", "x1": "commentary", "opp-lat1": "edition"}
TG = {"id": "latinLit:phi1294"}


def make(variant, how, style):
    """ One textgroup, built in one of the three ways """
    if how == "parse":
        from MyCapytain.resources.collections.cts import XmlCtsTextgroupMetadata
        writer = inv.Writer(style)
        return XmlCtsTextgroupMetadata.parse(writer.string(writer.textgroup(None, variant)))
    top = build({"tiid": "", "textgroups": [variant]}, how)
    tg = top[inv.tg_urn(variant)]
    return tg


def shape(tg):
    """ {work urn: {text urn: variant}} """
    return {u: set(w.texts) for u, w in tg.works.items()}


def picture(tg):
    """ Everything which has to stay as it is in a textgroup added to another """
    return [id(tg.parent), [(u, id(w), id(w.parent), [(v, id(t), id(t.parent)) for v, t in w.texts.items()]) for u, w in tg.works.items()]]


def names(model):
    return sorted(c["name"] for c in model["citation"]["levels"]) if model["citation"] else None


def check_merged(tg, content, values, variants, what):
    """ content: {work urn: {text urn: index of the variant which it comes from}} """
    check_eq({u: set(w.texts) for u, w in tg.works.items()}, {u: set(t) for u, t in content.items()}, what + ": works and texts")
    check_eq(len(tg), sum(len(t) for t in content.values()), what + ": len")
    check_eq(Counter(x.id for x in tg.descendants), Counter(list(content) + [t for ts in content.values() for t in ts]), what + ": descendants")
    for u, texts in content.items():
        work = tg.works[u]
        check(work.parent is tg and work.id == u, "{}: parent of {} is {!r}", what, u, work.parent)
        check(tg[u] is work, "{}: [{}]", what, u)
        for t, origin in texts.items():
            text = work.texts[t]
            check(text.parent is work and text.id == t, "{}: parent of {} is {!r} and not {!r}", what, t, text.parent, work)
            check_eq([p.id for p in text.parents][:2], [u, tg.id], "{}: parents of {}".format(what, t))
            check(tg[t] is text, "{}: [{}]", what, t)
            check_eq(text.subtype, TEXTS[t.split(".")[-1]], "{}: type of {}".format(what, t))
            model = [x for w in variants[origin]["works"] for x in w["texts"] if inv.text_urn(TG, w, x) == t][0]
            check_eq(sorted(c.name for c in text.citation) if text.citation is not None else None, names(model),
                     "{}: citation of {}".format(what, t))
    for obj in [tg] + tg.descendants:
        prop = {0: "groupname", 1: "title", 2: "label"}[obj.id.count(".")]
        from rdflib import URIRef
        got = {(str(x.language), str(x)) for x in obj.metadata.get(URIRef(inv.CTS + prop))}
        check_eq(got, values.get(obj.id, set()), "{}: {} of {}".format(what, prop, obj.id))
        label = obj.get_label()
        check((str(label.language), str(label)) in got if got else label is None, "{}: label of {} is {!r}", what, obj.id, label)


def run(case, ctx):
    from MyCapytain.errors import InvalidURN
    from MyCapytain.resources.prototypes.cts import inventory as proto
    variants = case["variants"]
    made, values, content = {}, {}, {}

    def get(i):
        if i not in made:
            v = variants[i]
            made[i] = make(v, case["how"][i % len(case["how"])], case["style"])
            content[i] = {inv.work_urn(TG, w): {inv.text_urn(TG, w, t): i for t in w["texts"]} for w in v["works"]}
            values.setdefault(inv.tg_urn(TG), set()).update(map(tuple, v["groupname"]))
            for w in v["works"]:
                values.setdefault(inv.work_urn(TG, w), set()).update(map(tuple, w["title"]))
                for t in w["texts"]:
                    values.setdefault(inv.text_urn(TG, w, t), set()).update(map(tuple, t["label"]))
        return made[i]

    if not case["late"]:
        for i in range(len(variants)):
            get(i)
    left = list(range(len(variants)))
    for n, (x, y) in enumerate(case["plan"]):
        if len(left) < 2:
            break
        a, b = left[x % len(left)], None
        others = [i for i in left if i != a]
        b = others[y % len(others)]
        A, B = get(a), get(b)
        parent, before = A.parent, picture(B)
        what = "merging {} and {} (step {})".format(a, b, n)
        res = A.update(B)
        check(res is A, "{}: result {!r}", what, res)
        check(A.parent is parent, "{}: parent of the textgroup has become {!r}", what, A.parent)
        check_eq(picture(B), before, what + ": the added textgroup")
        for u, texts in content[b].items():
            content[a].setdefault(u, {}).update(texts)
        check_merged(A, content[a], values, variants, what)
        if parent is not None:
            check_eq(set(parent.textgroups), {A.id}, what + ": inventory")
            check_eq(len(parent), len(A), what + ": len of the inventory")
        if case["again"]:
            A.update(B)
            check_merged(A, content[a], values, variants, what + ", again")
            A.update(A)
            check_merged(A, content[a], values, variants, what + ", and with itself")
        # metadata given to the merged objects are theirs
        for obj in A.descendants[:3]:
            prop = {1: "title", 2: "label"}[obj.id.count(".")]
            obj.set_cts_property(prop, "later {}".format(n), "lat")
            values[obj.id].add(("lat", "later {}".format(n)))
        check_merged(A, content[a], values, variants, what + ", with new labels")
        left.remove(b)
    # refusals leave everything as it was
    last = get(left[0])
    before = picture(last)
    raises(TypeError, "work added to a textgroup", last.update, proto.CtsWorkMetadata("urn:cts:latinLit:phi1294.phi002"))
    raises(TypeError, "inventory added to a textgroup", last.update, proto.CtsTextInventoryMetadata("x"))
    other = proto.CtsTextgroupMetadata("urn:cts:latinLit:phi129")
    proto.CtsWorkMetadata("urn:cts:latinLit:phi129.phi002", parent=other)
    raises(InvalidURN, "textgroup with another URN", last.update, other)
    check_eq(picture(last), before, "textgroup after refusals")
    ctx.label("late" if case["late"] else "all first")
    works = Counter(w["id"] for v in variants for w in v["works"])
    ctx.nontrivial(any(n > 1 for n in works.values()) and len(works) > 1)


def run_work(case, ctx):
    from MyCapytain.errors import InvalidURN
    from MyCapytain.resources.prototypes.cts import inventory as proto
    variants = [dict(v, works=v["works"][:1]) for v in case["variants"]]
    variants = [dict(v, works=[dict(w, id="phi002") for w in v["works"]]) for v in variants if v["works"]]
    if not variants:
        return
    groups = [make(v, case["how"][i % len(case["how"])], case["style"]) for i, v in enumerate(variants)]
    urn = inv.work_urn(TG, {"id": "phi002"})
    works = [g.works[urn] for g in groups]
    members = [set(w.texts) for w in works]
    parents = [w.parent for w in works]
    content = {inv.text_urn(TG, variants[0]["works"][0], t): 0 for t in variants[0]["works"][0]["texts"]}
    values = {}
    for v in variants:
        values.setdefault(inv.tg_urn(TG), set()).update(map(tuple, v["groupname"]))
        for w in v["works"]:
            values.setdefault(urn, set()).update(map(tuple, w["title"]))
            for t in w["texts"]:
                values.setdefault(inv.text_urn(TG, w, t), set()).update(map(tuple, t["label"]))
    for i in range(1, len(works)):
        for _ in range(2 if case["again"] else 1):
            check(works[0].update(works[i]) is works[0], "result of the merge of works")
        content.update({inv.text_urn(TG, variants[i]["works"][0], t): i for t in variants[i]["works"][0]["texts"]})
        check_merged(groups[0], {urn: content}, values, variants, "merging work {}".format(i))
        check_eq(set(works[i].texts), members[i], "texts of the added work")
        check(works[i].parent is parents[i] and works[0].parent is parents[0], "parents of the works")
    raises(TypeError, "textgroup added to a work", works[0].update, groups[0])
    raises(InvalidURN, "work with another URN", works[0].update, proto.CtsWorkMetadata("urn:cts:latinLit:phi1294.phi00"))
    check_eq(set(works[0].texts), set(content), "texts after refusals")
    ctx.nontrivial(len(works) > 1 and len(content) > 1)


@st.composite
def _variant(draw):
    works = []
    for w in draw(st.lists(st.sampled_from(WORKS), max_size=3, unique=True)):
        texts = []
        for t in draw(st.lists(st.sampled_from(sorted(TEXTS)), max_size=3, unique=True)):
            texts.append({"kind": TEXTS[t], "id": t, "lang": None, "label": draw(inv._values(0, 2)), "description": [], "about": [],
                          "citation": draw(st.one_of(st.none(), inv.citations.SCHEMES)), "sm": []})
        works.append({"id": w, "lang": "lat", "title": draw(inv._values(0, 2)), "texts": texts, "sm": []})
    return dict(TG, groupname=draw(inv._values(0, 2)), works=works, sm=[])


def _cases():
    return st.fixed_dictionaries({
        "variants": st.lists(_variant(), min_size=2, max_size=4), "late": st.booleans(), "again": st.booleans(), "style": inv.xml_style(),
        "how": st.lists(st.sampled_from(["parse", "xml", "proto", "xml"]), min_size=1, max_size=3),
        "plan": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=3, max_size=3)})


SUBS = [
    Sub("textgroups", _cases, run, quick=400, thorough=8000, rule="works in several textgroups, and two works or more"),
    Sub("works", _cases, run_work, quick=200, thorough=4000, rule="two works or more, with two texts or more"),
]
