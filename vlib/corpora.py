""" Generated CapiTainS directories: model, files, and what a resolver over them should know """
import os

from hypothesis import strategies as st
from lxml import etree

from . import inventories as inv, texts
from .common import LANGS

_LANG = st.sampled_from(LANGS)
_TEXTS = st.sampled_from(["Epigrammata", "A & B <c>", "été", "Ἰλιάς", "1984", "Martial", " Iliad ", "two  words"])
_LABELS = inv.values(_LANG, _TEXTS, 1, 2)
_DESCRIPTIONS = st.sampled_from([[], [["eng", "An edition"]], [["fre", "d'après"], ["lat", "x"]], [["eng", "An edition"], ["lat", "x"], ["eng", " printed  in 1884 "]]])
#: ways for the file of an announced text not to be usable
BAD = ["missing", "missing", "malformed", "empty", "norefs", "emptyrefs", "directory", "truncated"]
ENCODINGS = ["utf-8", "utf-8", "utf-8", "declared", "bom", "utf-16", "latin-1"]
FOLDERS = ["plain", "plain", "plain", "other", "brackets", "unicode", "spaces"]
_DOCS = {True: texts.documents(max_depth=4), False: texts.documents(max_depth=4, plain=True)}


@st.composite
def corpora(draw, max_dirs=3, bad=True, big=False):
    n = draw(st.sampled_from([1, 2, 2, 3][:max_dirs + 1])) if max_dirs > 1 else 1
    docs = draw(st.lists(_DOCS[big], min_size=1, max_size=3))
    versions, everywhere = inv._ID["version"], st.sampled_from([True, False, False])

    def place():
        """ announced in each directory or not, and how its file is """
        out = []
        for _ in range(n):
            if n > 1 and not draw(everywhere) and draw(st.booleans()):
                out.append(None)
            else:
                kind = draw(st.sampled_from(["ok"] * 5 + (["bad"] * 2 if bad else [])))
                out.append({"file": "ok" if kind == "ok" else draw(st.sampled_from(BAD)), "doc": draw(st.integers(0, len(docs) - 1)),
                            "encoding": draw(st.sampled_from(ENCODINGS))})
        if all(o is None for o in out):
            out[draw(st.integers(0, n - 1))] = {"file": "ok", "doc": 0, "encoding": "utf-8"}
        return out

    @st.composite
    def text(draw):
        kind = draw(st.sampled_from(["edition", "edition", "edition", "translation", "commentary"]))
        return {"kind": kind, "id": draw(versions), "lang": draw(st.one_of(st.none(), _LANG)) if kind != "edition" else None,
                "label": draw(_LABELS), "description": draw(_DESCRIPTIONS),
                "about": [], "sm": draw(inv._SMS) if draw(st.booleans()) else [], "places": place()}

    groups = []
    for ident in draw(st.lists(st.tuples(inv._ID["ns"], inv._ID["tg"]), min_size=draw(st.sampled_from([1, 2])), max_size=3, unique=True)):
        works = []
        for w in draw(st.lists(inv._ID["work"], min_size=draw(st.sampled_from([1, 2])), max_size=2, unique=True)):
            members = draw(st.lists(text(), min_size=draw(st.sampled_from([1, 1, 2, 3])), max_size=4, unique_by=lambda t: t["id"]))
            members = inv._longer(members, draw(st.sampled_from([0] * 30 + [11, 12])))
            works.append({"id": w, "lang": draw(_LANG), "title": draw(_LABELS), "texts": members, "sm": draw(inv._SMS) if draw(st.booleans()) else [],
                          "alone": [draw(st.sampled_from([False, False, False, True])) for _ in range(n)]})
        groups.append({"id": ":".join(ident), "groupname": draw(_LABELS), "works": works, "sm": draw(inv._SMS) if draw(st.booleans()) else [],
                       "alone": [draw(st.sampled_from([False, False, False, True])) for _ in range(n)]})
    return {"dirs": n, "docs": docs, "groups": groups, "folders": draw(st.sampled_from(FOLDERS)), "style": draw(inv.xml_style()), "noise": draw(st.booleans()),
            "order": draw(st.permutations(range(n)))}


class Corpus(object):
    """ Writes the directories, and tells what they hold """

    def __init__(self, case, tmp):
        self.case = case
        self.docs = [texts.Document(dict(d, source="string")) for d in case["docs"]]
        kind = case["folders"]
        self.dirs = [os.path.join(tmp, {"brackets": "repo[{}]", "unicode": "dépôt*{}", "spaces": "my repo {}"}.get(kind, "repo{}").format(i)) for i in range(case["dirs"])]
        #: {identifier: [(path, document or None)]} in the order of the directories
        self.files = {}
        #: {identifier of a textgroup: its directories}
        self.groups = {}
        #: model of the merged inventory
        self.model = {"tiid": "default", "textgroups": []}
        for d in range(case["dirs"]):
            os.makedirs(os.path.join(self.dirs[d], "data"))
            if case["noise"]:
                os.makedirs(os.path.join(self.dirs[d], "data", "nothing", "here"))
                with open(os.path.join(self.dirs[d], "data", "README.xml"), "w") as f:
                    f.write("<not xml")
        for g in case["groups"]:
            self._group(g)
        self.paths = [self.dirs[i] for i in case["order"]]

    def directories(self, urn):
        """ Directories which announce a textgroup """
        return self.groups[urn]

    def _name(self, name):
        return {"other": "f-" + name[::-1], "brackets": name + "[ab]", "unicode": "é*" + name, "spaces": "a " + name}.get(self.case["folders"], name)

    def _xml(self, path, node):
        with open(path, "wb") as f:
            f.write(etree.tostring(node, encoding="utf-8", xml_declaration=self.case["style"]["order"] % 2 == 0, pretty_print=self.case["style"]["pretty"]))

    def _group(self, g):
        merged = dict(g, works=[])
        for d, root in enumerate(self.dirs):
            works = [w for w in g["works"] if w["alone"][d] or any(t["places"][d] for t in w["texts"])]
            if not works and not g["alone"][d]:
                continue
            self.groups.setdefault(inv.tg_urn(g), set()).add(root)
            folder = os.path.join(root, "data", self._name(g["id"].split(":")[1] + ("" if g["id"].startswith("latinLit") else g["id"].split(":")[0])))
            os.makedirs(folder)
            writer = inv.Writer(self.case["style"])
            self._xml(os.path.join(folder, "__cts__.xml"), writer.textgroup(None, dict(g, works=[])))
            for w in works:
                self._work(folder, d, g, w)
            if self.case["noise"]:
                os.makedirs(os.path.join(folder, "empty"))
        for w in g["works"]:
            if any(w["alone"]) or any(any(t["places"]) for t in w["texts"]):
                merged["works"].append(dict(w, texts=[dict(t, citation=None) for t in w["texts"]]))
        if merged["works"] or any(g["alone"]):
            self.model["textgroups"].append(merged)

    def _work(self, folder, d, g, w):
        folder = os.path.join(folder, self._name(w["id"]))
        os.makedirs(folder)
        writer = inv.Writer(self.case["style"])
        announced = [dict(t, citation=None) for t in w["texts"] if t["places"][d]]
        self._xml(os.path.join(folder, "__cts__.xml"), writer.work(None, g, dict(w, texts=announced)))
        for t in announced:
            urn, place = inv.text_urn(g, w, t), t["places"][d]
            path = os.path.join(folder, urn.rpartition(":")[2] + ".xml")
            document = self.docs[place["doc"]]
            self.files.setdefault(urn, []).append((path, document if place["file"] == "ok" else None, d))
            self._file(path, place, document)

    def _file(self, path, place, document):
        how, source = place["file"], document.source()
        if how == "missing":
            return
        if how == "directory":
            os.makedirs(path)
            return
        data = source.encode("utf-8")
        if how == "ok":
            encoding = place["encoding"]
            if encoding == "latin-1":
                try:
                    data = ('<?xml version="1.0" encoding="ISO-8859-1"?>\n' + source).encode("latin-1")
                except UnicodeEncodeError:
                    pass
            elif encoding == "utf-16":
                data = ('<?xml version="1.0" encoding="UTF-16"?>\n' + source).encode("utf-16")
            elif encoding == "declared":
                data = ('<?xml version="1.0" encoding="UTF-8"?>\n' + source).encode("utf-8")
            elif encoding == "bom":
                data = b"\xef\xbb\xbf" + data
        elif how == "malformed":
            data = b"<TEI xmlns='http://www.tei-c.org/ns/1.0'><text></TEI>"
        elif how == "truncated":
            data = data[:len(data) // 2]
        elif how == "empty":
            data = b""
        elif how == "norefs":
            data = b"<TEI xmlns='http://www.tei-c.org/ns/1.0'><teiHeader/><text><body><l n='1'>x</l></body></text></TEI>"
        elif how == "emptyrefs":
            data = b"<TEI xmlns='http://www.tei-c.org/ns/1.0'><teiHeader><encodingDesc><refsDecl n='CTS'/></encodingDesc></teiHeader><text/></TEI>"
        with open(path, "wb") as f:
            f.write(data)

    # what is expected

    def places(self, urn):
        """ (path, document or None) of a text, in the order in which the directories are given """
        return [(p, doc) for i in self.case["order"] for p, doc, d in self.files.get(urn, []) if d == i]

    def served(self, urn, path=None):
        """ Path and document of the directory which serves the text: any of those which have it """
        usable = [x for x in self.places(urn) if x[1] is not None and (path is None or x[0] == path)]
        return usable[-1] if usable else None

    def all(self):
        """ (textgroup, work, text, identifier) """
        for g in self.model["textgroups"]:
            for w in g["works"]:
                for t in w["texts"]:
                    yield g, w, t, inv.text_urn(g, w, t)

    def usable(self):
        return [x for x in self.all() if self.served(x[3])]

    def resolver(self, **kwargs):
        from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
        return CtsCapitainsLocalResolver(self.paths, **kwargs)
