""" Generated TEI documents with a citation scheme, and an independent model of what they hold

A document is plain data (see :func:`documents`).  :func:`build` turns it into a tree of :class:`Node`, from which both
the XML source (given to the code under test) and all expectations (units, canonical trees, texts) come: no XML library is involved on
the side of the model.
"""
import copy
import re
from io import StringIO

from hypothesis import strategies as st

from .engine import check_eq

TEI = "http://www.tei-c.org/ns/1.0"
XMLNS = "http://www.w3.org/XML/1998/namespace"
PY = "{http://codespeak.net/lxml/objectify/pytype}"

# ---------------------------------------------------------------------------------------------------- generation

#: content of units without children: list of strings, ["tag", attributes, content], ["#c", text], ["#p", text]
LEAVES = [
    ["Arma virumque cano"], ["Arma virumque cano"], ["Arma virumque cano"], ["1"], ["1"], ["01"], ["12"], ["0"], [], [], [" "],
    ["true"], ["None"], ["1.5"],
    ["Ἄνδρα μοι ἔννεπε"], ["a & b < c"], ["  two  spaces\n and lines "],
    ["Ibis ", ["note", {}, ["hello ", ["hi", {}, ["b"]]]], " ab excusso"],
    [["note", {}, ["only"]]], [["note", {"n": "1"}, ["numbered"]], "after"],
    ["x", ["#c", " 1 "], "y"], [["#c", "c"]], [["#p", "pi x='1'"], "z"],
    [["pb", {"n": "12"}, []], "page"], ["w", ["c", {"n": "1"}, ["v"]], ["c", {"n": "1"}, ["v"]], "t"],
    [["choice", {}, [["sic", {}, ["teh"]], ["corr", {}, ["the"]]]], " end"],
    ["a", ["foreign", {"lang": "grc"}, [["note", {}, ["deep"]], "καὶ"]], "b"],
]
_LEAF = st.sampled_from(LEAVES)

#: what may stand between units (never citable: tags which no level uses)
BETWEEN = [
    [["head", {}, ["Liber"]]], [["note", {}, ["n ", ["hi", {}, ["x"]]]]], [["note", {"n": "1"}, ["numbered note"]]],
    [["milestone", {"unit": "card", "n": "2"}, []]], [["#c", " comment "]], [["#p", "target data"]],
    [["#c", "a"], ["#c", "a"]], [["head", {}, ["1"]]], [["head", {}, []]], [["#c", "c"], ["head", {"n": "1"}, ["H"]]],
    ["decoy"], ["decoy"], [" et "]
]
_BETWEEN = st.sampled_from([None] * 40 + list(range(len(BETWEEN))))

_EXTRA_ATTRS = st.sampled_from([{}, {}, {}, {}, {"rend": "x"}, {"ana": "a&b \"c\""}, {"xml:lang": "lat"}])

_POOL = ["pr", "1a", "12b", "praef", "a", "b", "A", "I", "IV", "x_1", "e1", "None", "α", "β", "καὶ", "é", "99", "100", "0", "01", "10", "11", "2", "3",
         "1", "110", "111", "21", "true", "1'", "b\\g"]

_TAG_SETS = [
    ["div", "div", "div", "div"], ["div", "div", "l", "w"], ["div", "div", "p", "seg"], ["div", "lg", "l", "seg"], ["div1", "div2", "div3", "div4"],
    ["div", "p", "seg", "w"], ["div", "div", "div", "l"], ["div", "ab", "l", "seg"],
]
_TAG_SET = st.sampled_from(_TAG_SETS)
_SHORT_SET = st.sampled_from([["l"], ["p"], ["div"], ["div", "l"], ["div", "p"], ["div", "div"], ["lg", "l"]])
_WRAPS = st.sampled_from([None] * 9 + ["s", "sp", "quote", "sp/lg"])
_FIXED = st.sampled_from([None] * 8 + [["type", "textpart"], ["subtype", "book"], ["type", "2"]])
_ATTR = st.sampled_from(["n"] * 8 + ["corresp"])
_DEPTHS = st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4])
_WIDTH = {1: st.sampled_from([3, 2, 1, 4, 5, 6, 8, 10, 12]), 2: st.sampled_from([2, 3, 4, 1, 2, 3, 5]), 3: st.sampled_from([2, 3, 2, 1, 3]),
          4: st.sampled_from([2, 1, 2, 3])}
_IDS = st.sampled_from(["seq", "seq", "seq", "offset", "pool", "pool", "reverse"])
_POOL_START = st.integers(0, len(_POOL) - 1)
_POOL_STEP = st.sampled_from([1, 2, 3, 5, 7])
_SAME = st.sampled_from([False, False, False, True])
_SLASHES = st.sampled_from([False, False, True])
_CHILDLESS = st.sampled_from([False] * 15 + [True])
_NEST = st.sampled_from([0] * 6 + [1, 1, 2])
_BOOL = st.booleans()
_GROW = st.sampled_from([0] * 29 + [11, 11, 13, 13, 25, 25, 110])
_SOURCES = st.sampled_from(["string", "string", "objectify", "etree", "tree", "file", "declared"])
_XML_ID = st.sampled_from([False] * 14 + [True])
_EDITION = st.sampled_from([False, True, True])
_HEAD = st.sampled_from(["header", "header", "none", "comment"])


#: URNs of the texts under test: none, the one of an edition, the one of a work (in the order of generated indexes)
URNS = [None, "urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:latinLit:phi1294.phi002"]


def urns():
    return st.sampled_from([1, 0, 2, 1, 0])


def urn_of(case):
    return URNS[int(case["urn"])]


def lengthen(units, here, size):
    """ Make a list of units (the first of the deepest ones, or this one) longer, with copies of one of its units """
    while not here:
        inner = [u for u in units if u.get("u") is not None and u.get("k") and any("u" in k for k in u["k"])]
        if not inner:
            break
        units = inner[0]["k"]
    plain = [u for u in units if "u" in u]
    if not plain:
        return
    used = {u["u"] for u in plain} | {k["u"] for u in units if "w" in u for k in u["k"] if "u" in k}
    fresh = [str(i) for i in range(1, 4 * size) if str(i) not in used]
    for i in range(size - len(used)):
        units.append(dict(copy.deepcopy(plain[i % len(plain)]), u=fresh[i]))


def xml_ids(units, levels, level=0, count=None):
    """ The same units, those of the last level with identifiers which are names, and of one unit only """
    count = count if count is not None else iter(range(1, 100000))
    out = []
    for item in units:
        if "x" in item:
            if level == len(levels) - 1 and BETWEEN[item["x"]] == ["decoy"]:
                continue
        elif "w" in item:
            item = dict(item, k=xml_ids(item["k"], levels, level, count))
        elif level == len(levels) - 1:
            n = next(count)
            item = dict(item, u="{}{}".format(["l", "α", "w_"][n % 3], n))
        elif "k" in item:
            item = dict(item, k=xml_ids(item["k"], levels, level + 1, count))
        out.append(item)
    return out


@st.composite
def documents(draw, max_depth=4, leaf=_LEAF, irregular=True, plain=False):
    """ :param irregular: some inner units have no children
        :param plain: nothing uncited between the units
    """
    depth = min(draw(_DEPTHS), max_depth)
    tags = draw(_SHORT_SET) if depth < 3 else draw(_TAG_SET)
    if len(tags) < depth:
        tags = ["div"] + tags
    if len(tags) < depth:
        tags = draw(_TAG_SET)
    tags = (tags[:depth] if depth < len(tags) and draw(_BOOL) else tags[-depth:])
    levels = []
    for i, tag in enumerate(tags):
        fixed = draw(_FIXED)
        levels.append({
            "name": ["book", "chapter", "section", "word"][i], "tag": tag, "attr": draw(_ATTR),
            "glue": "//" if (tags.count(tag) == 1 and draw(_SLASHES)) else "/",
            "wrap": draw(_WRAPS), "fixed": fixed, "after": bool(fixed) and draw(_BOOL)})
    edition = draw(_EDITION)

    def unit_list(level, mine):
        """ items inside a unit of level-1 (0: top) """
        width = draw(_WIDTH[depth])
        how = draw(_IDS)
        if how == "seq":
            ids = [str(i + 1) for i in range(width)]
        elif how == "offset":
            ids = [str(i + 9) for i in range(width)]
        elif how == "reverse":
            ids = [str(width - i) for i in range(width)]
        else:
            start, step = draw(_POOL_START), draw(_POOL_STEP)
            ids = []
            for i in range(width):
                c = _POOL[(start + i * step) % len(_POOL)]
                if c not in ids:
                    ids.append(c)
        same = draw(_SAME)
        shared = draw(leaf) if same else None
        shared_list = None
        out = []
        for one in ids:
            if not plain:
                extra = draw(_BETWEEN)
                if extra is not None:
                    out.append({"x": extra})
            node = {"u": one, "a": draw(_EXTRA_ATTRS)}
            if level == depth - 1:
                node["l"] = shared if same else draw(leaf)
            elif irregular and draw(_CHILDLESS):
                node["l"] = draw(leaf)
            elif same and level == depth - 2:
                # the same content in several units
                if shared_list is None:
                    shared_list = unit_list(level + 1, True)
                node["k"] = shared_list
            else:
                node["k"] = unit_list(level + 1, True)
            nest = draw(_NEST) if levels[level]["glue"] == "//" else 0
            if nest and out and "w" in out[-1] and draw(_BOOL):
                out[-1]["k"].append(node)
            elif nest:
                out.append({"w": nest, "k": [node]})
            else:
                out.append(node)
        if not plain:
            extra = draw(_BETWEEN)
            if extra is not None:
                out.append({"x": extra})
        return out

    units = unit_list(0, True)
    grow = draw(_GROW)
    if grow > 30 and depth > 1:
        # units may share their lists
        grow = 25
    if grow:
        lengthen(units, draw(_BOOL) and depth < 3, grow)
    if draw(_XML_ID):
        levels[-1]["attr"] = "xml:id"
        units = xml_ids(units, levels)
    return {
        "levels": levels, "edition": edition, "units": units, "pretty": draw(_BOOL), "quote": draw(st.sampled_from(["'", "'", '"'])),
        "source": draw(_SOURCES), "head": draw(_HEAD), "rend": draw(_EXTRA_ATTRS)}


# ---------------------------------------------------------------------------------------------------- model

class Node(object):
    """ Element of the model """
    def __init__(self, tag, attrs=None, content=None, unit=None):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.content = list(content or [])
        self.unit = unit        # path (tuple of identifiers) if citable
        self.parent = None

    def elements(self):
        return [c for c in self.content if isinstance(c, Node)]


def _inline(item):
    if isinstance(item, str):
        return item
    if item[0] in ("#c", "#p"):
        return Node(item[0], {}, [item[1]])
    return Node(item[0], item[1], [_inline(i) for i in item[2]])


class Document(object):
    """ Model of a document """

    def __init__(self, spec):
        self.spec = spec
        self.levels = spec["levels"]
        self.depth = len(self.levels)
        self.units = []             # (path, Node) in document order
        body = Node("body", spec["rend"])
        top = body
        if spec["edition"]:
            top = Node("div", {"type": "edition", "xml:lang": "lat", "n": "urn:cts:latinLit:phi1294.phi002.perseus-lat2"})
            body.content.append(top)
        self._items(top, spec["units"], 0, ())
        text = Node("text", {}, [body])
        content = []
        if spec["head"] != "none":
            content.append(Node("#c", {}, ["header"]) if spec["head"] == "comment" else "")
        content.append(Node("teiHeader", {}, [Node("encodingDesc", {}, [self._refsdecl()])]))
        content.append(text)
        self.root = Node("TEI", {}, content)
        if spec["pretty"]:
            self._indent(self.root, 0)
        self._parents(self.root)
        self.by_path = dict(self.units)

    # building

    def _items(self, parent, items, level, prefix):
        lv = self.levels[level]
        wrapper = holder = None
        target = parent
        for item in items:
            if "x" in item:
                extra = BETWEEN[item["x"]]
                if extra == ["decoy"]:
                    target.content.append(self._decoy(lv, items))
                else:
                    for e in extra:
                        target.content.append(_inline(e))
                continue
            if "w" in item:
                node, inner = None, None
                for i in range(item["w"]):
                    n = Node("quote" if i else "q", {"type": "w"})
                    if inner is None:
                        node = n
                    else:
                        inner.content.append(n)
                    inner = n
                for one in item["k"]:
                    self._unit(inner, one, lv, level, prefix)
            else:
                inner = node = Node("_holder")
                self._unit(inner, item, lv, level, prefix)
                node = inner.content[0]
            if lv["wrap"]:
                # Each wrapper holds up to two units
                if wrapper is None or len([e for e in wrapper.elements()]) >= 2:
                    outer, _, inner = lv["wrap"].partition("/")
                    if not inner:
                        wrapper = Node(outer, {"rend": "w"})
                        target.content.append(wrapper)
                    else:
                        # ... and each wrapper of wrappers up to two of them
                        if holder is None or len(holder.elements()) >= 2:
                            holder = Node(outer, {"rend": "w"})
                            target.content.append(holder)
                        wrapper = Node(inner, {"rend": "w"})
                        holder.content.append(wrapper)
                wrapper.content.append(node)
            else:
                target.content.append(node)

    def _decoy(self, lv, items):
        """ An element which looks like a unit of this level but is none """
        if lv["fixed"]:
            # as a unit, but for the fixed predicate
            ids = [i["u"] for i in items if "u" in i] or [i["k"][0]["u"] for i in items if "k" in i]
            return Node(lv["tag"], {lv["attr"]: ids[-1], lv["fixed"][0]: "commentary"}, ["decoy"])
        return Node(lv["tag"], {"rend": "none"}, ["decoy"])

    def _unit(self, parent, item, lv, level, prefix):
        path = prefix + (item["u"],)
        attrs = {lv["attr"]: item["u"]}
        attrs.update(item["a"])
        if lv["fixed"]:
            attrs[lv["fixed"][0]] = lv["fixed"][1]
        node = Node(lv["tag"], attrs, unit=path)
        parent.content.append(node)
        self.units.append((path, node))
        if "k" in item:
            self._items(node, item["k"], level + 1, path)
        else:
            node.content = [_inline(i) for i in item["l"]]

    def _parents(self, node):
        for child in node.elements():
            child.parent = node
            self._parents(child)

    def _structural(self, node):
        return any(True for c in node.elements() if c.unit is not None or self._structural(c))

    def _indent(self, node, depth):
        if node.tag[0] == "#":
            return
        if node.unit is not None and not self._structural(node):
            return
        if node.tag not in ("TEI", "teiHeader", "encodingDesc", "refsDecl", "text", "body", "q", "quote", "s", "sp", "lg") and node.unit is None \
                and not self._structural(node):
            return
        out = []
        for c in node.content:
            if isinstance(c, Node):
                out.append("\n" + "  " * (depth + 1))
                self._indent(c, depth + 1)
            out.append(c)
        out.append("\n" + "  " * depth)
        node.content = out

    def _refsdecl(self):
        """ cRefPattern go from the deepest level to the first """
        out = []
        for i in range(self.depth, 0, -1):
            out.append(Node("cRefPattern", {
                "n": self.levels[i - 1]["name"],
                "matchPattern": "\\.".join(["(\\w+)"] * i),
                "replacementPattern": "#xpath({})".format(self.refsdecl(i))
            }, [Node("p", {}, ["This pointer pattern extracts {}".format(self.levels[i - 1]["name"])])]))
        return Node("refsDecl", {"n": "CTS"}, out)

    def refsdecl(self, depth):
        q = self.spec["quote"]
        out = "/tei:TEI/tei:text/tei:body"
        if self.spec["edition"]:
            out += "/tei:div[@type='edition']"
        for i, lv in enumerate(self.levels[:depth]):
            if lv["wrap"]:
                out += "/tei:" + lv["wrap"].replace("/", "/tei:")
            fixed = "[@{}={}{}{}]".format(lv["fixed"][0], q, lv["fixed"][1], q) if lv["fixed"] else ""
            own = "[@{}={}${}{}]".format(lv["attr"], q, i + 1, q)
            out += "{}tei:{}{}{}".format(lv["glue"], lv["tag"], own if lv["after"] else fixed, fixed if lv["after"] else own)
        return out

    # expectations

    def level(self, n):
        """ Paths at level n (1 based), document order """
        return [p for p, _ in self.units if len(p) == n]

    def below(self, path, n):
        return [p for p, _ in self.units if len(p) == n and p[:len(path)] == path]

    def between(self, start, end, n):
        """ Paths of level n which lie in start..end: their position intersects that of the range """
        lo, hi = self.span(start)[0], self.span(end)[1]
        out = []
        for p, _ in self.units:
            if len(p) == n:
                a, b = self.span(p)
                if a <= hi and b >= lo:
                    out.append(p)
        return out

    def span(self, path):
        """ Positions (in units) of the first and of the last unit within path """
        if not hasattr(self, "_spans"):
            self._spans = {}
            paths = [p for p, _ in self.units]
            # only units without units below count
            inner = set(p[:-1] for p in paths)
            leaves = [p for p in paths if p not in inner]
            for i, p in enumerate(leaves):
                for k in range(1, len(p) + 1):
                    a = self._spans.get(p[:k])
                    self._spans[p[:k]] = (i if a is None else a[0], i)
        return self._spans[path]

    def pick_range(self, a, b):
        """ Two units in document order, none of which contains the other (sometimes twice the same unit) """
        paths = [p for p, _ in self.units]
        x = paths[a % len(paths)]
        others = [p for p in paths if p[:len(x)] != x and x[:len(p)] != p]
        if not others or b % 12 == 11:
            return x, x
        y = others[b % len(others)]
        return (y, x) if self.span(x)[0] > self.span(y)[0] else (x, y)

    def source(self):
        return serialize(self.root)

    def text(self, urn=None, source=None):
        """ The text under test """
        from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
        return CapitainsCtsText(resource=resource(self.source(), source or self.spec["source"]), **({} if urn is None else {"urn": urn}))

    @property
    def blanks(self):
        """ Whether the parser keeps white space between elements (the one of lxml.objectify does not) """
        return self.spec["source"] in ("etree", "tree")

    def canon(self, thing):
        """ Canonical tree of a model node or of an element, without what the parser drops """
        out = canon_model(thing) if isinstance(thing, Node) else canon_any(thing)
        return out if self.blanks else drop_blanks(out)

    def check_unchanged(self, text):
        import lxml.etree as etree
        check_eq(self.canon(text.xml), self.canon(self.root), "XML of the text at the end")
        check_eq(etree.tostring(text.xml, encoding=str).count("pytype"), 0, "annotations which were added to the text")

    def chain(self, path):
        """ Elements from the root to the unit """
        node = self.by_path[path]
        out = [node]
        while node.parent is not None:
            node = node.parent
            out.insert(0, node)
        return out


def ref(path):
    return ".".join(path)


def resource(xml, kind):
    import lxml.etree
    import lxml.objectify
    if kind == "string":
        return xml
    if kind == "declared":
        return '<?xml version="1.0" encoding="UTF-8"?>\n' + xml
    if kind == "file":
        return StringIO(xml)
    if kind == "objectify":
        return lxml.objectify.parse(StringIO(xml)).getroot()
    if kind == "etree":
        return lxml.etree.parse(StringIO(xml)).getroot()
    if kind == "tree":
        return lxml.etree.parse(StringIO(xml))
    raise ValueError(kind)


def _esc(text):
    return text.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def serialize(node, root=True):
    if isinstance(node, str):
        return _esc(node)
    if node.tag == "#c":
        return "<!--{}-->".format(node.content[0])
    if node.tag == "#p":
        return "<?{}?>".format(node.content[0])
    attrs = "".join(" {}=\"{}\"".format(k, _esc(v).replace('"', "&quot;")) for k, v in node.attrs.items())
    if root:
        attrs = " xmlns=\"{}\"".format(TEI) + attrs
    if not node.content:
        return "<{}{}/>".format(node.tag, attrs)
    return "<{0}{1}>{2}</{0}>".format(node.tag, attrs, "".join(serialize(c, False) for c in node.content))


# ---------------------------------------------------------------------------------------------------- canonical trees

def _merge(content):
    out = []
    for c in content:
        if isinstance(c, str):
            if not c:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
                continue
        out.append(c)
    return tuple(out)


def canon_model(node, strip=False):
    """ (tag, attributes, content) of a model element """
    if isinstance(node, str):
        return node
    if node.tag == "#c":
        return ("#c", node.content[0])
    if node.tag == "#p":
        return ("#p", node.content[0])
    return (node.tag, tuple(sorted(node.attrs.items())), _merge([canon_model(c) for c in node.content]))


def _name(name):
    if name.startswith("{" + TEI + "}"):
        return name[len(TEI) + 2:]
    if name.startswith("{" + XMLNS + "}"):
        return "xml:" + name[len(XMLNS) + 2:]
    return name


def canon_lxml(elem):
    """ Serialized and parsed again: lxml.objectify does not tell comments from elements """
    import lxml.etree as etree
    return _canon(etree.fromstring(etree.tostring(elem, encoding="utf-8", with_tail=False)))


def _canon(elem):
    import lxml.etree as etree
    if elem.tag is etree.Comment:
        return ("#c", elem.text or "")
    if elem.tag is etree.PI:
        return ("#p", elem.target + (" " + elem.text if elem.text else ""))
    content = [elem.text or ""]
    for c in elem.iterchildren():
        content.append(_canon(c))
        content.append(c.tail or "")
    attrs = tuple(sorted((_name(k), v) for k, v in elem.attrib.items() if not k.startswith(PY)))
    return (_name(elem.tag), attrs, _merge(content))


def drop_blanks(canon):
    if isinstance(canon, str) or canon[0][0] == "#":
        return canon
    return (canon[0], canon[1], tuple(drop_blanks(c) for c in canon[2] if not (isinstance(c, str) and not c.strip())))


def canon_any(res):
    """ of an element or of an element tree """
    return canon_lxml(res.getroot() if hasattr(res, "getroot") else res)


def plain_canon(canon, exclude=(), join=" "):
    """ Expected plain text of a canonical tree """
    return collapse(join.join(texts_canon(canon, exclude)))


def texts_canon(canon, exclude=()):
    if isinstance(canon, str):
        return [canon]
    if canon[0][0] == "#" or canon[0] in exclude:
        return []
    return [t for c in canon[2] for t in texts_canon(c, exclude)]


def collapse(s):
    """ Runs of spaces are one space """
    return re.sub(" {2,}", " ", s)
