""" A simulated CTS endpoint: an inventory and texts served in the formats of CTS 5 """
from hypothesis import strategies as st
from lxml import etree

from . import inventories as inv, texts
from .common import LANGS

URL = "http://cts.example.org/api/cts"
TI = inv.TI
#: declared and actual encoding of replies, Content-Type
CONTENT = [("utf-8", "text/xml; charset=utf-8"), ("utf-8", "application/xml"), ("utf-8", "application/xml;charset=UTF-8"), ("utf-8", None),
           ("utf-8", "text/xml"), ("iso-8859-1", "text/xml; charset=iso-8859-1"), ("utf-16", "application/xml; charset=utf-16")]
FAULTS = ["404", "500", "503", "error", "error", "error 404", "connection", "html", "xhtml", "empty", "truncated"]


def styles():
    return st.fixed_dictionaries({
        "prefix": st.sampled_from(["CTS", "", "cts"]), "tei": st.booleans(), "content": st.sampled_from(CONTENT), "declaration": st.booleans(), "pretty": st.booleans(),
        "request": st.sampled_from(["full", "full", "names", "bare"]), "strict": st.booleans(), "order": st.integers(0, 5), "comments": st.booleans(), "whole": st.booleans(),
        "prevnext": st.sampled_from(["empty", "omitted"]), "label_citation": st.sampled_from([True, True, True, False])})


class Server(object):
    """ :param model: as of :func:`vlib.inventories.inventories`
        :param documents: {identifier of a text: Document}
    """

    def __init__(self, model, documents, style, inventory=None):
        self.model, self.documents, self.style, self.inventory = model, documents, style, inventory
        self.entries = {inv.text_urn(g, w, t): (g, w, t) for g in model["textgroups"] for w in g["works"] for t in w["texts"]}
        #: requests to be answered until the fault: (number of replies before, kind)
        self.fault = None
        self.faulty = 0
        self._p = style["prefix"]
        if style["request"] != "full":
            # somewhere it says what the scheme is
            self.style = dict(style, label_citation=True)

    # ------------------------------------------------------------------------------------------ what it holds

    def split(self, urn):
        """ Document, start and end paths (or None) """
        parts = urn.split(":")
        if len(parts) not in (4, 5) or ":".join(parts[:4]) not in self.documents:
            raise KeyError(urn)
        document = self.documents[":".join(parts[:4])]
        if len(parts) == 4:
            return document, None, None
        ends = [tuple(p.split(".")) for p in parts[4].split("-")]
        if len(ends) > 2 or any(e not in document.by_path for e in ends):
            raise KeyError(urn)
        return document, ends[0], ends[-1]

    @staticmethod
    def reffs(document, start, end, level):
        if start is None:
            return document.level(level)
        if start == end:
            return document.below(start, level)
        return document.between(start, end, level) if level >= min(len(start), len(end)) else []

    @staticmethod
    def siblings(document, start, end):
        if len(start) != len(end):
            # Ranges between levels have none
            return None, None
        level = document.level(len(start))
        a, b = level.index(start), level.index(end)
        return (level[a - 1] if a else None), (level[b + 1] if b + 1 < len(level) else None)

    def cut(self, urn):
        """ Model tree of what GetPassage sends """
        document, start, end = self.split(urn)
        if start is None:
            return document.root
        lo, hi = document.span(start)[0], document.span(end)[1]

        def keep(node):
            if node.unit is not None and node.unit in (start, end):
                return node
            if node.unit is not None:
                a, b = document.span(node.unit)
                if a >= lo and b <= hi and not (start[:len(node.unit)] == node.unit or end[:len(node.unit)] == node.unit):
                    return node
                if b < lo or a > hi:
                    return None
            content = [k for k in (keep(c) for c in node.elements() if c.tag[0] != "#") if k is not None]
            if content:
                return texts.Node(node.tag, node.attrs, content, node.unit)
            return None
        return keep(document.root)

    # ------------------------------------------------------------------------------------------ replies

    def __call__(self, asked):
        import requests
        if self.fault is not None:
            left, kind = self.fault
            if left:
                self.fault = (left - 1, kind)
            else:
                self.faulty += 1
                if kind == "connection":
                    raise requests.ConnectionError("refused")
                if kind == "html":
                    return 200, {"Content-Type": "text/html; charset=utf-8"}, b"<html><body><p>Maintenance<br></body></html>"
                if kind == "xhtml":
                    return 200, {"Content-Type": "application/xml"}, b"<html xmlns='http://www.w3.org/1999/xhtml'><body><p>Maintenance</p></body></html>"
                if kind == "empty":
                    return 200, {"Content-Type": "text/xml; charset=utf-8"}, b""
                if kind in ("404", "500", "503"):
                    return int(kind), {"Content-Type": "text/plain"}, b"no"
                if kind == "truncated":
                    status, headers, body = self.answer(asked)
                    return status, headers, body[:len(body) * 2 // 3]
                return self.error("4", 404 if "404" in kind else 200)
        return self.answer(asked)

    def answer(self, asked):
        params = asked.params
        if asked.method != "GET" or asked.base != URL or len(asked.pairs) != len(params) or params.pop("inv", None) != self.inventory:
            return self.error("1")
        try:
            request = params.pop("request")
            fn = {"GetCapabilities": self.capabilities, "GetValidReff": self.valid_reff, "GetPassage": self.passage, "GetPassagePlus": self.passage_plus,
                  "GetFirstUrn": self.first_urn, "GetPrevNextUrn": self.prev_next, "GetLabel": self.label}[request]
            return self.reply(request, fn, **params)
        except (KeyError, ValueError, TypeError, IndexError):
            return self.error("3")

    def tag(self, name):
        return (self._p + ":" if self._p else "") + name

    def send(self, name, inner, status=200):
        p = self._p
        xml = "<{0} xmlns{1}=\"{2}\" xmlns:tei=\"{3}\">{4}</{0}>".format(self.tag(name), ":" + p if p else "", TI, texts.TEI, inner)
        encoding, content = self.style["content"]
        if self.style["declaration"]:
            xml = "<?xml version=\"1.0\" encoding=\"{}\"?>\n{}".format(encoding.upper(), xml)
        elif encoding != "utf-8":
            xml = "<?xml version='1.0' encoding='{}' ?>".format(encoding) + xml
        body = xml.encode(encoding, "xmlcharrefreplace")
        return status, ({"Content-Type": content} if content else {}), body

    def error(self, code, status=200):
        return self.send("CTSError", self.el("message", "Something is wrong") + self.el("code", code), status)

    def el(self, name, inner="", **attrs):
        attrs = "".join(" {}=\"{}\"".format({"xml_lang": "xml:lang", "elapsed_time": "elapsed-time"}.get(k, k), texts._esc(v).replace('"', "&quot;")) for k, v in attrs.items())
        return "<{0}{1}>{2}</{0}>".format(self.tag(name), attrs, inner) if inner else "<{}{}/>".format(self.tag(name), attrs)

    def values(self, name, values):
        cut = self.style["order"] % 3

        def written(text):
            # The parser drops pieces which are only blanks
            if not self.style["comments"] or any(piece and not piece.strip() for piece in (text[:cut], text[cut:])):
                return texts._esc(text)
            return texts._esc(text[:cut]) + "<!-- a comment -->" + texts._esc(text[cut:])
        return "".join(self.el(name, written(text),
                               # English is the language of what has none
                               **({"xml_lang": lang} if lang != "eng" or self.style["order"] % 2 else {})) for lang, text in values)

    def citation(self, document):
        out = ""
        q = document.spec["quote"]
        for i in range(document.depth, 0, -1):
            xpath = document.refsdecl(i)
            for n in range(i, 0, -1):
                xpath = xpath.replace("={0}${1}{0}".format(q, n), "={0}?{0}".format(q))
            lv = document.levels[i - 1]
            head = xpath.rindex(lv["glue"] + "tei:" + lv["tag"] + "[")
            out = self.el("citation", out, label=lv["name"], xpath=xpath[head:], scope=xpath[:head])
        return out

    def names(self, urn):
        g, w, t = self.entries[urn]
        return self.values("groupname", g["groupname"]) + self.values("title", w["title"]) + self.values("label", t["label"]) \
            + self.values("description", t["description"])

    def reply(self, request, fn, urn=None, **params):
        inner = fn(urn, **params) if urn is not None else fn(**params)
        how = self.style["request"]
        head = self.el("requestName", request)
        if urn is not None:
            head += self.el("requestUrn", urn)
            base = ":".join(urn.split(":")[:4])
            if base in self.documents and how != "bare":
                head += self.el("workurn", base.rpartition(".")[0]) + self.names(base)
                if how == "full" and request != "GetCapabilities":
                    head += self.citation(self.documents[base])
        return self.send(request, self.el("request", head, elapsed_time="12") + self.el("reply", inner))

    def urn(self, urn, path):
        return ":".join(urn.split(":")[:4]) + ":" + ".".join(path)

    def capabilities(self, urn=None):
        model = self.model if urn is None else self.narrow(urn)
        if not model["textgroups"]:
            raise KeyError(urn)
        writer = inv.Writer(dict(self.style, prefix="" if self._p == "" else "ti"))
        return etree.tostring(writer.inventory(model), encoding=str, pretty_print=self.style["pretty"])

    def narrow(self, urn):
        """ What the capabilities say when they are asked for one object: only it, or (of some endpoints) everything """
        model = narrow(self.model, urn)
        return self.model if self.style["whole"] and model["textgroups"] else model

    def valid_reff(self, urn, level):
        document, start, end = self.split(urn)
        level = int(level)
        if level < 1 or (self.style["strict"] and (level > document.depth or (start is not None and level <= len(start) and start == end))):
            raise ValueError(level)
        found = self.reffs(document, start, end, level)
        return self.el("reff", "".join(self.el("urn", texts._esc(self.urn(urn, p))) for p in found), level=str(level))

    def first_urn(self, urn):
        document, start, end = self.split(urn)
        found = self.reffs(document, start, end, 1 if start is None else min(len(start), len(end)) + 1)
        return self.el("urn", self.urn(urn, found[0]) if found else "")

    def _prevnext(self, urn):
        document, start, end = self.split(urn)
        if start is None:
            return self.el("prevnext", self.el("prev") + self.el("next"))
        out = ""
        for name, path in zip(("prev", "next"), self.siblings(document, start, end)):
            if path is not None:
                out += self.el(name, self.el("urn", self.urn(urn, path)))
            elif self.style["prevnext"] == "empty":
                out += self.el(name, self.el("urn") if self.style["order"] % 2 else "")
        return self.el("prevnext", out)

    def prev_next(self, urn):
        if len(urn.split(":")) < 5:
            raise ValueError(urn)
        return self._prevnext(urn)

    def passage(self, urn):
        tree = self.cut(urn)
        return self.el("urn", urn) + self.el("passage", self.tei(tree))

    def tei(self, tree):
        if not self.style["tei"]:
            return texts.serialize(tree)
        return _prefixed(tree)

    def label(self, urn):
        self.split(urn)
        base = ":".join(urn.split(":")[:4])
        return self.el("urn", urn) + self.el("label", self.names(base) + self.in_label(self.documents[base]))

    def passage_plus(self, urn):
        return self.passage(urn) + self.el("label", self.names(":".join(urn.split(":")[:4])) + self.in_label(self.split(urn)[0])) + self._prevnext(urn)

    def in_label(self, document):
        return self.citation(document) if self.style["label_citation"] else ""


def _prefixed(node):
    """ as serialize, with a tei prefix which an ancestor declares """
    if isinstance(node, str) or node.tag[0] == "#":
        return texts.serialize(node, False)
    attrs = "".join(" {}=\"{}\"".format(k, texts._esc(v).replace('"', "&quot;")) for k, v in node.attrs.items())
    return "<tei:{0}{1}>{2}</tei:{0}>".format(node.tag, attrs, "".join(_prefixed(c) for c in node.content))


def narrow(model, urn):
    """ Inventory restricted to one object, what it is in and what is in it """
    out = []
    for g in model["textgroups"]:
        if inv.tg_urn(g) == urn:
            return dict(model, textgroups=[g])
        for w in g["works"]:
            if inv.work_urn(g, w) == urn:
                return dict(model, textgroups=[dict(g, works=[w])])
            for t in w["texts"]:
                if inv.text_urn(g, w, t) == urn:
                    return dict(model, textgroups=[dict(g, works=[dict(w, texts=[t])])])
    return dict(model, textgroups=out)


_LANG = st.sampled_from(LANGS)
_LABELS = inv.values(_LANG, st.sampled_from(["Epigrammata", "A & B <c>", "été", "Ἰλιάς", "1984", "Martial", "", " Iliad ", "two  words"]), 1, 3)
_DESCRIPTIONS = st.sampled_from([[], [["eng", "An edition"]], [["fre", "d'après"], ["lat", "x"]], [["eng", "An edition"], ["lat", "x"], ["eng", " printed  in 1884 "]]])


@st.composite
def holdings(draw, max_depth=4):
    """ inventory model and documents: every text of the inventory has one """
    docs = draw(st.lists(texts.documents(max_depth=max_depth), min_size=1, max_size=2))
    groups = []
    for ident in draw(st.lists(st.tuples(inv._ID["ns"], inv._ID["tg"]), min_size=1, max_size=2, unique=True)):
        works = []
        for w in draw(st.lists(inv._ID["work"], min_size=1, max_size=2, unique=True)):
            members = []
            for v in draw(st.lists(inv._ID["version"], min_size=1, max_size=2, unique=True)):
                kind = draw(st.sampled_from(["edition", "edition", "translation", "commentary"]))
                members.append({"kind": kind, "id": v, "lang": draw(st.one_of(st.none(), _LANG)) if kind != "edition" else None, "label": draw(_LABELS),
                                "description": draw(_DESCRIPTIONS), "about": [],
                                "citation": None, "sm": draw(inv._SMS) if draw(st.booleans()) else [], "doc": draw(st.integers(0, len(docs) - 1))})
            works.append({"id": w, "lang": draw(_LANG), "title": draw(_LABELS), "texts": members, "sm": []})
        groups.append({"id": ":".join(ident), "groupname": draw(_LABELS), "works": works, "sm": draw(inv._SMS) if draw(st.booleans()) else []})
    return {"tiid": draw(st.sampled_from(["annotsrc", "default"])), "textgroups": groups, "docs": docs}


def serve(case):
    """ Server of a case made of "held", "style" and "inv" """
    docs = [texts.Document(dict(d, source="string")) for d in case["held"]["docs"]]
    model = {"tiid": case["held"]["tiid"], "textgroups": case["held"]["textgroups"]}
    documents = {inv.text_urn(g, w, t): docs[t["doc"]] for g in model["textgroups"] for w in g["works"] for t in w["texts"]}
    return Server(model, documents, case["style"], case["inv"])
