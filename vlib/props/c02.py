""" C02 -- CTS URNs: decomposition, truncation, recomposition after edits, order and equality """
from hypothesis import strategies as st

from ..common import ranges, range_str
from ..engine import Sub, check, check_eq, raises

FIELDS = ["urn_namespace", "namespace", "textgroup", "work", "version", "reference"]

_TOKENS = st.sampled_from([
    "phi1294", "phi002", "perseus-lat2", "tlg0012", "tlg001", "mth-01", "stoa0033a", "a", "x_1", "1st1K-grc1", "opp-lat1",
    "αβ", "tg", "wk", "w1", "urn", "cts", "opp-eng2", "phi0012", "phi00", "é"])
_NS = st.sampled_from(["latinLit", "greekLit", "pdlrefwk", "fre-Lit", "ns", "a"])


def urn_str(m):
    s = "urn:{}:{}".format(m["urn_namespace"], m["namespace"])
    if m["textgroup"]:
        s += ":" + ".".join(x for x in (m["textgroup"], m["work"], m["version"]) if x)
    if m["reference"]:
        s += ":" + range_str(m["reference"])
    return s


def _upto(m):
    """ Expected result of every truncation; None when the URN has no such part """
    base = "urn:{}:{}".format(m["urn_namespace"], m["namespace"])
    mid = ".".join(x for x in (m["textgroup"], m["work"], m["version"]) if x)
    r = m["reference"]
    from ..common import passage_str
    return {
        "COMPLETE": urn_str(m),
        "NAMESPACE": base,
        "TEXTGROUP": m["textgroup"] and base + ":" + m["textgroup"],
        "WORK": m["work"] and "{}:{}.{}".format(base, m["textgroup"], m["work"]),
        "VERSION": m["version"] and base + ":" + mid,
        "NO_PASSAGE": m["work"] and base + ":" + mid,
        "PASSAGE": r and "{}:{}:{}".format(base, mid, range_str(r)),
        "PASSAGE_START": r and "{}:{}:{}".format(base, mid, passage_str(r["start"])),
        "PASSAGE_END": r and r["end"] and "{}:{}:{}".format(base, mid, passage_str(r["end"])),
    }


def check_urn(urn, m, where):
    from MyCapytain.common.reference import URN, CtsReference
    check_eq(str(urn), urn_str(m), where + ": str")
    for f in FIELDS[:-1]:
        check_eq(getattr(urn, f), m[f], "{}: {}".format(where, f))
    if m["reference"]:
        check_eq(urn.reference, CtsReference(range_str(m["reference"])), where + ": reference")
        check_eq(str(urn.reference), range_str(m["reference"]), where + ": reference string")
    else:
        check(urn.reference is None, "{}: unexpected reference {!r}", where, urn.reference)
    check_eq(len(urn), len([f for f in FIELDS[:-1] if m[f]]), where + ": len")
    for key, expected in _upto(m).items():
        if expected:
            check_eq(urn.upTo(getattr(URN, key)), expected, "{}: upTo({})".format(where, key))
        else:
            raises(KeyError, "{}: upTo({}) of {}".format(where, key, urn_str(m)), urn.upTo, getattr(URN, key))
    check_eq(URN(str(urn)), urn, where + ": re-parsed from its string")


def run_parse(case, ctx):
    from MyCapytain.common.reference import URN
    m = case["urn"]
    text = urn_str(m)
    urn = URN(text)
    check_urn(urn, m, "parsed")
    # a truncation is itself the URN of the same object without its lower parts
    for key, keep in (("NAMESPACE", 2), ("TEXTGROUP", 3), ("WORK", 4), ("VERSION", 5)):
        if _upto(m)[key]:
            cut = {f: (m[f] if i < keep else None) for i, f in enumerate(FIELDS)}
            check_urn(URN(urn.upTo(getattr(URN, key))), cut, "truncated to " + key)
    if m["work"]:
        check_urn(URN(urn.upTo(URN.NO_PASSAGE)), dict(m, reference=None), "without passage")
    if m["reference"]:
        check_urn(URN(urn.upTo(URN.PASSAGE_START)),
                  dict(m, reference={"start": m["reference"]["start"], "end": None}), "start only")
    # a fragment is not part of the URN
    if case["fragment"] is not None:
        check_urn(URN(text + "#" + case["fragment"]), m, "with a fragment")
        ctx.label("fragment")
    ctx.label("parts{}".format(len([f for f in FIELDS if m[f]])))
    ctx.nontrivial(m["work"] is not None)


def holes(m):
    """ Is a part missing above one which is there? """
    parts = [m["textgroup"], m["work"], m["version"] or m["reference"]]
    return any(not above and any(parts[i + 1:]) for i, above in enumerate(parts))


def run_set(case, ctx):
    from MyCapytain.common.reference import URN, CtsReference
    m = dict(case["urn"])
    urn, twin = URN(urn_str(m)), URN(urn_str(m))
    for i, (field, value) in enumerate(case["ops"]):
        if field == "reference":
            if not m["work"]:
                continue
            if value is None:
                urn.reference = None
            elif i % 2:
                urn.reference = CtsReference(range_str(value))
            else:
                urn.reference = range_str(value)
        elif field == "work" and not m["textgroup"]:
            continue
        elif field == "version" and not m["work"]:
            continue
        else:
            setattr(urn, field, value)
        m[field] = value
        if holes(m):
            # a part was taken away from above others: nothing is said of the URN until it is given back
            ctx.label("hole")
        elif case["look"][i % len(case["look"])]:
            # observing must not change anything
            check_urn(urn, m, "after {}={}".format(field, value))
        ctx.label("set-" + field)
    for field in ("textgroup", "work"):
        if holes(m) and not m[field]:
            setattr(urn, field, "given-back")
            m[field] = "given-back"
            ctx.label("filled")
    check_urn(urn, m, "after the edits")
    check_urn(twin, case["urn"], "a URN made from the same text, which was not edited")
    check_urn(URN(urn_str(case["urn"])), case["urn"], "a URN made later from the same text")
    ctx.nontrivial(len(case["ops"]) >= 2)


def run_compare(case, ctx):
    from MyCapytain.common.reference import URN
    a, b = case["a"], case["b"]
    ua, ub = URN(urn_str(a)), URN(urn_str(b))
    same = urn_str(a) == urn_str(b)
    check_eq(ua == ub, same, "== of {} and {}".format(ua, ub))
    check_eq(ua != ub, not same, "!= of {} and {}".format(ua, ub))
    check(not (ua == urn_str(a)), "a URN is not a string")
    la, lb = (len([f for f in FIELDS[:-1] if x[f]]) for x in (a, b))
    check_eq(ua > ub, la > lb, "{} > {}".format(ua, ub))
    check_eq(ua < ub, la < lb, "{} < {}".format(ua, ub))
    check_eq(len(ua), la, "len")
    ctx.label("equal" if same else ("same-level" if la == lb else "different-level"))
    ctx.nontrivial()


def run_malformed(case, ctx):
    from MyCapytain.common.reference import URN
    raises(ValueError, "malformed URN {!r}".format(case["text"]), URN, case["text"])
    ctx.nontrivial(":" in case["text"])


_REFS = ranges(max_depth=4)


@st.composite
def _urn(draw):
    n = draw(st.sampled_from([2, 3, 4, 4, 5, 5, 5, 5]))
    m = dict.fromkeys(FIELDS)
    m["urn_namespace"] = draw(st.sampled_from(["cts", "cts", "cts", "dts"]))
    m["namespace"] = draw(_NS)
    for f in FIELDS[2:n]:
        m[f] = draw(_TOKENS)
    if n >= 4 and draw(st.booleans()):
        m["reference"] = draw(_REFS)
    return m


URNS = _urn()


def _parse():
    return st.fixed_dictionaries({"urn": URNS, "fragment": st.sampled_from([None, None, "", "frag", "a:b", "x.y:1", "a#b", "#"])})


@st.composite
def _op(draw):
    field = draw(st.sampled_from(FIELDS + ["reference", "version"]))
    if field == "reference":
        return [field, draw(st.one_of(_REFS, _REFS, st.none()))]
    if field == "urn_namespace":
        return [field, draw(st.sampled_from(["cts", "dts"]))]
    if field == "namespace":
        return [field, draw(_NS)]
    if field == "version":
        return [field, draw(st.one_of(_TOKENS, _TOKENS, st.none()))]
    return [field, draw(st.one_of(_TOKENS, _TOKENS, _TOKENS, st.none()))]


def _set():
    return st.fixed_dictionaries({
        "urn": URNS, "ops": st.lists(_op(), min_size=1, max_size=7),
        "look": st.lists(st.booleans(), min_size=1, max_size=4)})


def _near(token, how):
    """ Almost the same token """
    if how == 0:
        return token.swapcase() if token.swapcase() != token else token + "x"
    if how == 1:
        return token + token[-1]
    if how == 2:
        return token[:-1] or token + "0"
    if how == 3:
        return token[:1].swapcase() + token[1:]
    if how == 4:
        return "0" + token
    return token[::-1]


@st.composite
def _compare(draw):
    a = draw(URNS)
    if draw(st.booleans()):
        return {"a": a, "b": draw(URNS)}
    b = dict(a)
    kind = draw(st.sampled_from(["same", "reference", "version", "textgroup", "near", "near"]))
    if kind == "near":
        # one character away, in one of the fields
        field = draw(st.sampled_from([f for f in FIELDS[1:-1] if b[f]]))
        b[field] = _near(b[field], draw(st.integers(0, 5)))
    if kind == "reference" and b["work"]:
        b["reference"] = draw(_REFS)
    elif kind == "version" and b["work"]:
        b["version"] = draw(st.one_of(_TOKENS, st.none()))
    elif kind == "textgroup" and b["textgroup"]:
        b["textgroup"] = draw(_TOKENS)
    return {"a": a, "b": b}


def _malformed():
    return st.fixed_dictionaries({"text": st.one_of(
        st.sampled_from(["", "urn", "urn:cts", "urn:", "#urn:cts:a:b", "urn#:cts:latinLit:phi1.phi2", "cts"]),
        st.builds(lambda a, b: a + b, st.sampled_from(["urn:", "", "urn"]), st.text("abc.-@#0", max_size=6)))})


SUBS = [
    Sub("parse", _parse, run_parse, quick=2500, graph=False, rule="the URN goes down to a work at least"),
    Sub("set", _set, run_set, quick=2000, graph=False, rule="two edits or more"),
    Sub("compare", _compare, run_compare, quick=2000, graph=False, rule="every pair"),
    Sub("malformed", _malformed, run_malformed, quick=300, graph=False, rule="contains a colon"),
]
