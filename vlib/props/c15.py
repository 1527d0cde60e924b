""" C15 -- a CTS inventory survives export and parsing """
from hypothesis import strategies as st
from lxml import etree

from .. import inventories as inv, citations
from ..engine import Sub, check, check_eq

FORMATS = {"cts": "text/xml:CTS", "capitains": "text/xml:CTS_CapiTainS"}


def classes(which):
    from MyCapytain.resources.collections import cts as xml
    from MyCapytain.resources.prototypes.cts import inventory as proto
    if which == "xml":
        return {"inventory": xml.XmlCtsTextInventoryMetadata, "textgroup": xml.XmlCtsTextgroupMetadata, "work": xml.XmlCtsWorkMetadata,
                "edition": xml.XmlCtsEditionMetadata, "translation": xml.XmlCtsTranslationMetadata, "commentary": xml.XmlCtsCommentaryMetadata}
    return {"inventory": proto.CtsTextInventoryMetadata, "textgroup": proto.CtsTextgroupMetadata, "work": proto.CtsWorkMetadata,
            "edition": proto.CtsEditionMetadata, "translation": proto.CtsTranslationMetadata, "commentary": proto.CtsCommentaryMetadata}


def build(inventory, which, alone=None):
    """ Collections made through the API: the inventory, or only the textgroup, work or text given as alone, without parents """
    from rdflib import Literal, URIRef
    from rdflib.namespace import XSD
    from MyCapytain.common.reference import Citation
    from MyCapytain.resources.collections.cts import XmlCtsCitation
    cls = classes(which)

    def fill(obj, sm, **props):
        for prop, values in props.items():
            for lang, text in values:
                obj.set_cts_property(prop, text, lang)
        for s in sm:
            p, text = URIRef(inv.SM_NS[s["ns"]] + s["name"]), s["text"]
            if s["kind"] == "lang":
                obj.metadata.add(p, text, lang=s["lang"])
            elif s["kind"] == "uri":
                obj.metadata.add(p, URIRef(text))
            elif s["kind"] == "int":
                obj.metadata.add(p, int(text))
            elif s["kind"] == "float":
                obj.metadata.add(p, Literal(float(text), datatype=XSD.float))
            elif s["kind"] == "typed":
                obj.metadata.add(p, Literal(text, datatype=URIRef(inv.datatype_of(s))))
            else:
                obj.metadata.add(p, text)

    def text(g, w, t, parent):
        made = cls[t["kind"]](inv.text_urn(g, w, t), parent=parent, lang=t["lang"] if t["kind"] != "edition" else None)
        fill(made, t["sm"], label=t["label"], description=t["description"])
        for urn in t["about"]:
            made.set_link(URIRef(inv.CTS + "about"), urn)
        if t["citation"] is not None:
            level = None
            for i in reversed(range(len(t["citation"]["levels"]))):
                scope, xpath = citations.template(t["citation"], i + 1)
                level = (XmlCtsCitation if which == "xml" else Citation)(
                    name=t["citation"]["levels"][i]["name"], scope=scope, xpath=xpath, child=level)
            made.citation = level
        return made

    def work(g, w, parent):
        made = cls["work"](inv.work_urn(g, w), parent=parent)
        if w["lang"] is not None:
            made.lang = w["lang"]
        fill(made, w["sm"], title=w["title"])
        for t in w["texts"]:
            text(g, w, t, made)
        return made

    def textgroup(g, parent):
        made = cls["textgroup"](inv.tg_urn(g), parent=parent)
        fill(made, g["sm"], groupname=g["groupname"])
        for w in g["works"]:
            work(g, w, made)
        return made

    if alone is not None:
        return {"textgroup": textgroup, "work": work, "text": text}[alone[0]](*alone[1:], None)
    top = cls["inventory"](inventory["tiid"] or "")
    for g in inventory["textgroups"]:
        textgroup(g, top)
    return top


def tree(node, root=True):
    """ Canonical form, whatever the order and the prefixes """
    attrs = tuple(sorted((k, v) for k, v in node.attrib.items() if not (root and k in ("workUrn", "groupUrn"))))
    children = sorted((tree(c, False) for c in node if isinstance(c.tag, str) and c.tag.replace("{", "").replace("}", "") not in inv.BOOKKEEPING),
                      key=repr)
    return node.tag, attrs, (node.text or "").strip("\n ") if not len(node) else "", tuple(children)


def parse_xml(text):
    return etree.fromstring(text.encode("utf-8"))


def check_links(node, model_parent):
    """ groupUrn and workUrn of the exported elements """
    for child in node:
        if not isinstance(child.tag, str):
            continue
        if child.tag in ("{%s}edition" % inv.TI, "{%s}translation" % inv.TI, "{%s}commentary" % inv.TI):
            check_eq(child.get("workUrn"), node.get("urn"), "workUrn of {}".format(child.get("urn")))
        if child.tag == "{%s}work" % inv.TI:
            check_eq(child.get("groupUrn"), node.get("urn"), "groupUrn of {}".format(child.get("urn")))
        check_links(child, node)


def run(case, ctx):
    from MyCapytain.common.constants import Mimetypes
    from .. import support
    inventory = case["inventory"]
    cls = classes("xml")
    if case["how"] == "parse":
        writer = inv.Writer(case["style"])
        top = cls["inventory"].parse(writer.string(writer.inventory(inventory)))
    else:
        top = build(inventory, case["how"])
    statements = set(top.graph)

    g = inventory["textgroups"][0]
    w = g["works"][0] if g["works"] else None
    t = w["texts"][0] if w and w["texts"] else None
    level = case["level"]
    if level == "text" and t is None:
        level = "work"
    if level == "work" and w is None:
        level = "textgroup"
    if level == "inventory":
        source = top
    else:
        source = top[inv.tg_urn(g) if level == "textgroup" else inv.work_urn(g, w) if level == "work" else inv.text_urn(g, w, t)]

    kept = []
    for fmt in case["formats"]:
        if fmt == "etree":
            node = source.export(Mimetypes.PYTHON.ETREE)
            exported = etree.tostring(node, encoding=str)
            check_eq(tree(parse_xml(exported)), tree(parse_xml(source.export(Mimetypes.XML.CTS))), "tree export")
            check_eq(tree(parse_xml(etree.tostring(source.export(), encoding=str))), tree(parse_xml(exported)), "default export")
            sm = None
        else:
            exported = source.export(FORMATS[fmt])
            sm = True if fmt == "capitains" else None
        check(set(top.graph) == statements, "exporting changed the collections")
        kept.append((fmt, exported, sm))
        check_links(parse_xml(exported), None)
    for fmt, exported, sm in kept:
        support.reset()
        if level == "inventory":
            back = cls["inventory"].parse(exported)
            inv.check_inventory(back, inventory, sm)
        elif level == "textgroup":
            back = cls["textgroup"].parse(exported)
            inv.check_textgroup(back, g, None, sm)
        elif level == "work":
            back = cls["work"].parse(exported)
            inv.check_work(back, g, w, None, sm)
        else:
            back = cls[t["kind"]].parse(exported)
            # alone, an edition does not say its language
            inv.check_text(back, g, w if t["kind"] != "edition" or sm else dict(w, lang=None), t, None, sm)
        if fmt != "etree" and not (level == "text" and t["kind"] == "edition"):
            check_eq(tree(parse_xml(back.export(FORMATS[fmt]))), tree(parse_xml(exported)), "second export in " + fmt)
        ctx.label(fmt + " of " + level)
    ctx.label(case["how"])
    ctx.nontrivial(t is not None)


def run_alone(case, ctx):
    """ A collection which is in no inventory is exported on its own """
    from .. import support
    g = case["inventory"]["textgroups"][0]
    w = g["works"][0]
    t = w["texts"][0]
    level = case["level"]
    source = build(None, case["how"], alone={"textgroup": (level, g), "work": (level, g, w), "text": (level, g, w, t)}[level])
    exported = source.export(FORMATS[case["format"]])
    check_links(parse_xml(exported), None)
    support.reset()
    sm = True if case["format"] == "capitains" else None
    back = classes("xml")[t["kind"] if level == "text" else level].parse(exported)
    if level == "textgroup":
        inv.check_textgroup(back, g, None, sm)
    elif level == "work":
        inv.check_work(back, g, w, None, sm)
    else:
        inv.check_text(back, g, dict(w, lang=None), t, None, sm)
    ctx.label(case["format"] + " of " + (t["kind"] if level == "text" else level))
    ctx.nontrivial(True)


def run_collection(case, ctx):
    """ Inventories grouped in a collection are exported together """
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
    from .. import support
    merged, seen = {"tiid": "everything", "textgroups": []}, set()
    collection = CtsTextInventoryCollection("everything")
    n = 0
    for k, inventory in enumerate(case["inventories"]):
        inventory = dict(inventory, tiid="i{}".format(k), textgroups=[g for g in inventory["textgroups"] if g["id"] not in seen])
        seen |= {g["id"] for g in inventory["textgroups"]}
        merged["textgroups"] += inventory["textgroups"]
        top = build(inventory, case["how"])
        top.parent = collection
        n += bool(inventory["textgroups"])
    check_eq(len(collection), len(inv.summary(merged)), "len of the collection")
    exported = collection.export(FORMATS[case["format"]])
    check_links(parse_xml(exported), None)
    support.reset()
    inv.check_inventory(classes("xml")["inventory"].parse(exported), merged, True if case["format"] == "capitains" else None)
    ctx.label(case["format"])
    ctx.nontrivial(n > 1)


def _cases():
    return st.fixed_dictionaries({
        "inventory": inv.inventories(max_tg=2), "style": inv.xml_style(), "how": st.sampled_from(["parse", "xml", "proto"]),
        "level": st.sampled_from(["inventory", "textgroup", "work", "text"]), "formats": st.permutations(["cts", "capitains", "etree"])})


def _with_text(inventory):
    return bool(inventory["textgroups"] and inventory["textgroups"][0]["works"] and inventory["textgroups"][0]["works"][0]["texts"])


SUBS = [
    Sub("roundtrip", _cases, run, quick=600, thorough=12000, rule="the first textgroup has a work with a text"),
    Sub("collection", lambda: st.fixed_dictionaries({"inventories": st.lists(inv.inventories(max_tg=2), min_size=1, max_size=3),
                                                     "how": st.sampled_from(["xml", "proto"]), "format": st.sampled_from(["cts", "capitains"])}),
        run_collection, quick=150, thorough=3000, rule="two inventories which have textgroups or more"),
    Sub("alone", lambda: st.fixed_dictionaries({"inventory": inv.inventories(max_tg=1).filter(_with_text), "how": st.sampled_from(["xml", "proto"]),
                                                "level": st.sampled_from(["textgroup", "work", "text"]), "format": st.sampled_from(["cts", "capitains"])}),
        run_alone, quick=200, thorough=4000, rule="any"),
]
