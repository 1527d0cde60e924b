""" C14 -- parsing a CTS inventory yields exactly what the document says """
from hypothesis import strategies as st

from .. import inventories as inv
from ..engine import Sub


def run(case, ctx):
    from MyCapytain.resources.collections.cts import (
        XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata, XmlCtsWorkMetadata, XmlCtsEditionMetadata, XmlCtsTranslationMetadata,
        XmlCtsCommentaryMetadata)
    classes = {"edition": XmlCtsEditionMetadata, "translation": XmlCtsTranslationMetadata, "commentary": XmlCtsCommentaryMetadata}
    inventory, style = case["inventory"], case["style"]
    writer = inv.Writer(style)
    typed = style["input"] != "etree"
    level = case["level"]

    def parse(cls, node, **kwargs):
        xml = writer.string(node)
        res, close = inv.resource(xml, style["input"], ctx.tmpdir() if style["input"] == "file" else None)
        try:
            return cls.parse(res, **kwargs)
        finally:
            close()

    tg = inventory["textgroups"][0]
    works = [w for w in tg["works"]]
    if level == "inventory":
        inv.check_inventory(parse(XmlCtsTextInventoryMetadata, writer.inventory(inventory)), inventory, True, typed)
        n = len(inv.summary(inventory))
    elif level == "textgroup":
        parent = None
        if case["parent"]:
            parent = XmlCtsTextInventoryMetadata("x")
        obj = parse(XmlCtsTextgroupMetadata, writer.textgroup(None, tg), parent=parent)
        inv.check_textgroup(obj, tg, parent, True, typed)
        if parent is not None:
            inv.check_eq(list(parent.textgroups.values()), [obj], "textgroups of the parent")
        n = sum(len(w["texts"]) for w in works)
    elif level == "work" and works:
        parent = XmlCtsTextgroupMetadata(inv.tg_urn(tg)) if case["parent"] else None
        w = works[0]
        if parent is not None:
            for lang, text in tg["groupname"]:
                parent.set_cts_property("groupname", text, lang)
        if case["children"]:
            obj, children = parse(XmlCtsWorkMetadata, writer.work(None, tg, w), parent=parent, _with_children=True)
            inv.check_eq({c.id for c in children}, {inv.text_urn(tg, w, t) for t in w["texts"]}, "children given back")
            inv.check(all(obj.texts[c.id] is c for c in children), "children given back are not the texts of the work")
        else:
            obj = parse(XmlCtsWorkMetadata, writer.work(None, tg, w), parent=parent)
        inv.check_work(obj, tg, w, parent, True, typed)
        n = len(w["texts"])
    else:
        pairs = [(w, t) for w in works for t in w["texts"]]
        n = 0
        for w, t in pairs[:1]:
            n = 2
            parent = None
            if case["parent"]:
                parent = XmlCtsWorkMetadata(inv.work_urn(tg, w))
                if w["lang"] is not None:
                    parent.lang = w["lang"]
                for lang, text in w["title"]:
                    parent.set_cts_property("title", text, lang)
            obj = parse(classes[t["kind"]], writer.text(None, tg, w, t), parent=parent)
            inv.check_text(obj, tg, w if parent is not None else dict(w, lang=None), t, parent, True, typed)
    ctx.label(level, "input " + style["input"])
    for t in inv.summary(inventory):
        ctx.label(t["kind"])
    ctx.nontrivial(n > 1)


def _cases():
    return st.fixed_dictionaries({
        "inventory": inv.inventories(), "style": inv.xml_style(), "level": st.sampled_from(["inventory", "inventory", "textgroup", "work", "text"]),
        "parent": st.booleans(), "children": st.booleans()})


SUBS = [
    Sub("parse", _cases, run, quick=700, thorough=14000, rule="two texts or more in the parsed document (or one text on its own)"),
]
