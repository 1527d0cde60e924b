""" Strategies shared by several properties (all produce plain data) """
import functools

from hypothesis import strategies as st

# --- identifiers -------------------------------------------------------------------------------------------

def _pool():
    pool = [str(i) for i in range(1, 25)] + ["99", "100", "101", "130", "0", "00", "01"]
    pool += ["pr", "1a", "12b", "praef", "a", "b", "A", "I", "IV", "_x", "x_1", "1_2", "sub", "e1", "1e3", "None", "n"]
    pool += ["α", "β", "καὶ", "é", "ü1", "ñ", "Æ", "ж", "中", "αβγδ", "ﬁ"]
    return pool


def _word_pool():
    return ["Achilles", "the", "καὶ", "Ἀλκιβιάδου", "", "arma", "été", "x1", "12", "1", "a_b", "Δ", "Zeus", "0",
            "ἀλλ’", "don't", "μῆνιν", "μη\u0342νιν", "A.D.", "L. Lentulus", "τε,", "…"]


_COMPONENTS = st.sampled_from(_pool())
_WORDS = st.sampled_from(_word_pool())


def components():
    """ One level of a passage identifier: 1, 10, pr, 3a, α ... """
    return _COMPONENTS


def words():
    return _WORDS


@st.composite
def _subreferences(draw):
    """ None or {"word":..., "counter": None|int} """
    k = draw(st.integers(0, 5))
    if k < 3:
        return None
    word = draw(_WORDS)
    return {"word": word, "counter": None if k == 3 else draw(st.integers(0, 1000))}


_SUBREFERENCES = _subreferences()
_LISTS = {d: st.lists(_COMPONENTS, min_size=1, max_size=d) for d in range(1, 8)}


def subreferences():
    return _SUBREFERENCES


@functools.lru_cache(None)
def passages(max_depth=5, sub=True):
    return st.builds(
        lambda l, s: {"list": l, "sub": s}, _LISTS[max_depth], _SUBREFERENCES if sub else st.none())


def sub_str(sub):
    if sub is None:
        return ""
    if sub["counter"] is None:
        # an empty word without counter would be a lone "@"
        return "@" + sub["word"]
    return "@{}[{}]".format(sub["word"], sub["counter"])


def passage_str(p):
    return ".".join(p["list"]) + sub_str(p["sub"])


@functools.lru_cache(None)
def ranges(max_depth=5, sub=True):
    """ {"start":..., "end": None|...}; ends often share prefixes """
    kinds = st.sampled_from(["single", "free", "sibling", "same", "cousin", "deeper", "higher"])
    one = passages(max_depth, sub)

    @st.composite
    def _r(draw):
        start = draw(one)
        kind = draw(kinds)
        if kind == "single":
            return {"start": start, "end": None}
        if kind == "free":
            end = draw(one)
        else:
            end_sub = draw(_SUBREFERENCES) if sub else None
            l = list(start["list"])
            if kind == "sibling":
                l[-1] = draw(_COMPONENTS)
            elif kind == "cousin":
                k = draw(st.integers(0, len(l) - 1))
                l = l[:k] + [draw(_COMPONENTS) for _ in range(len(l) - k)]
            elif kind == "deeper" and len(l) < max_depth:
                l = l + [draw(_COMPONENTS)]
            elif kind == "higher" and len(l) > 1:
                l = l[:-1]
            end = {"list": l, "sub": end_sub}
        return {"start": start, "end": end}
    return _r()


def range_str(r):
    s = passage_str(r["start"])
    if r["end"] is not None:
        s += "-" + passage_str(r["end"])
    return s


# --- text ---------------------------------------------------------------------------------------------------

#: characters which are special for XML, JSON, templates, URLs
SPECIAL = "<>&\"'#?%{}[]$@\\/=;:,.()*+|~^ \t"

LANGS = ["eng", "fre", "lat", "grc", "ger", "mul", "fr-CA", "en", "fr"]


def labels(min_size=1, max_size=12, special=True):
    alphabet = "abcdefghij ABCDE 0123456789 éàüαβγ中🙂" + (SPECIAL.replace("\t", "") if special else "")
    return st.one_of(
        st.sampled_from(["Epigrammata", "Iliad", "Œuvre", "M. Valerius", "O'Neil", "A & B", "<b>", "\"q\"",
                         # texts which look like what a format writes for others
                         "A &amp; B", "&lt;b&gt;", "&#38;", "]]>", "<!-- a -->", "%20a+b", "100 %", "{0} %s", "\\n", "_:b0", "@id", "a\u00a0b", "e\u0301", "\u00e9"]
                        if special else ["Epigrammata", "Iliad", "Œuvre", "M. Valerius"]),
        st.text(alphabet=alphabet, min_size=min_size, max_size=max_size)
    ).filter(lambda s: s.strip() == s and len(s) >= min_size and "  " not in s)
