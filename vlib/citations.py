""" Generated citation schemes shared by C03, C04 and the inventories """
from hypothesis import strategies as st

_NAMES = st.sampled_from(["book", "poem", "line", "chapter", "section", "verse", "Livre", "étage", "act", "scene", "part", "κῶλον"])
_NAMES_SPECIAL = st.one_of(_NAMES, _NAMES, st.sampled_from(["a & b", "x<y", "l'un", "say \"hi\"", "two words", "book/poem"]))

_TAGS = st.sampled_from(["tei:div", "tei:l", "tei:p", "tei:ab", "tei:seg", "tei:lg", "tei:div1", "div", "*[self::tei:l or self::tei:p]",
                         "tei:*", "*"])
_FIXED = st.sampled_from([
    "", "", "", "", "[@type='textpart']", "[@type=\"edition\"]", "[@subtype='book']", "[@type='textpart'][@subtype='poem']",
    "[@subtype='sub-book']", "[@ana='x_y']", "[@n='1']", "[@n='12']", "[@n=\"3\"]", "[@n='urn:cts:latinLit:phi1294.phi002.perseus-lat2']",
    "[not(@rend)]", "[@xml:lang='lat']"])
_PRE = st.sampled_from(["/tei:TEI/tei:text/tei:body", "/TEI/text/body", "/tei:TEI/tei:text/tei:group/tei:text/tei:body",
                        "/tei:TEI/tei:text/tei:body/tei:div[@type='edition']",
                        "/tei:TEI/tei:text/tei:body/tei:div[@n='urn:cts:latinLit:phi1294.phi002.perseus-lat2']",
                        "/tei:TEI/tei:text/tei:body/tei:div[@n='2']"])
_ATTR = st.sampled_from(["@n", "@n", "@n", "@n", "@xml:id", "@corresp"])
_GLUE = st.sampled_from(["/", "/", "/", "//"])


@st.composite
def _scheme(draw, special):
    depth = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 11]) if special is not None else st.integers(1, 3))
    quote = draw(st.sampled_from(["'", "'", '"']))
    levels = []
    for _ in range(depth):
        levels.append({
            "name": draw(_NAMES_SPECIAL if special else _NAMES),
            "glue": draw(_GLUE), "tag": draw(_TAGS), "attr": draw(_ATTR), "fixed": draw(_FIXED),
            "after": draw(st.sampled_from([False, False, False, True])),
            "wrap": draw(st.sampled_from(["", "", "", "/tei:div", "/tei:lg[@type='stanza']"]))})
    return {"pre": draw(_PRE), "quote": quote, "levels": levels}


SCHEMES = _scheme(False)
SPECIAL_SCHEMES = _scheme(True)


def segment(level, quote, value):
    """ XPath step of a level. value: "$1", "?", a string or None (no value) """
    if value is None:
        pred = "[{}]".format(level["attr"])
    else:
        if "'" in value:
            quote = '"'
        pred = "[{}={}{}{}]".format(level["attr"], quote, value, quote)
    return level["glue"] + level["tag"] + (pred + level["fixed"] if level["after"] else level["fixed"] + pred)


def scope_xpath(scheme, depth, values):
    """ values: list of depth values (see segment). Returns (scope, xpath) """
    scope = scheme["pre"]
    for i, level in enumerate(scheme["levels"][:depth]):
        scope += level["wrap"]
        xpath = segment(level, scheme["quote"], values[i])
        if i < depth - 1:
            scope += xpath
    return scope, xpath


def refsdecl(scheme, depth):
    return "".join(scope_xpath(scheme, depth, ["$" + str(i + 1) for i in range(depth)]))


def template(scheme, depth):
    return scope_xpath(scheme, depth, ["?"] * depth)


def filled(scheme, depth, values):
    """ Expected result of fill: values are put between simple quotes, unless they hold one """
    return "".join(scope_xpath(dict(scheme, quote="'"), depth, values))


def filled_xpath(scheme, depth, value):
    return scope_xpath(dict(scheme, quote="'"), depth, [None] * (depth - 1) + [value])[1]
