""" C01 -- CTS passage references: parsing, structure, equality, copies, sets """
import copy
import pickle

from hypothesis import strategies as st

from ..common import ranges, passages, range_str, passage_str, sub_str
from ..engine import Sub, check, check_eq, raises


def _model_parent(r):
    """ Expected string of the parent or None (None: no parent) """
    start, end = r["start"], r["end"]
    if len(start["list"]) == 1 or (end is not None and len(end["list"]) == 1):
        return None
    up_start = ".".join(start["list"][:-1])
    if end is None:
        return up_start + sub_str(start["sub"])
    up_end = ".".join(end["list"][:-1])
    if up_start == up_end and start["sub"] is None and end["sub"] is None:
        return up_start
    return "{}{}-{}{}".format(up_start, sub_str(start["sub"]), up_end, sub_str(end["sub"]))


def _check_passage(got, p, where):
    check_eq(str(got), passage_str(p), where + " string")
    check(got == passage_str(p), "{} does not compare equal to its string", where)
    check_eq(list(got.list), p["list"], where + ".list")
    check_eq(list(iter(got)), p["list"], "iteration over " + where)
    check_eq(got.depth, len(p["list"]), where + ".depth")
    check_eq(len(got), len(p["list"]), "len of " + where)
    sub = got.subreference
    if p["sub"] is None:
        check(sub is None, "{} has an unexpected subreference {!r}", where, sub)
    else:
        check(sub is not None, "{} lost its subreference", where)
        check_eq(sub.word, p["sub"]["word"], where + " subreference word")
        check_eq(sub.counter, p["sub"]["counter"] or 0, where + " subreference counter")
        check_eq(tuple(sub), (sub.word, sub.counter), where + " subreference iteration")
        check_eq(sub.tuple(), (sub.word, sub.counter), where + " subreference tuple")
        check_eq(str(sub), sub_str(p["sub"]), where + " subreference string")


def check_structure(ref, r):
    from MyCapytain.common.reference import CtsReference
    text = range_str(r)
    check(isinstance(ref, CtsReference), "not a CtsReference: {!r}", ref)
    check_eq(str(ref), text, "str of the reference")
    _check_passage(ref.start, r["start"], "start")
    check_eq(bool(ref.is_range()), r["end"] is not None, "is_range")
    if r["end"] is None:
        check(ref.end is None, "end of a single passage is {!r}", ref.end)
        if r["start"]["sub"] is None:
            check(ref.subreference is None, "subreference appeared")
        else:
            check_eq(tuple(ref.subreference), tuple(ref.start.subreference), "subreference of a single passage")
    else:
        _check_passage(ref.end, r["end"], "end")
        check(ref.subreference is None, "a range has no subreference of its own")
    # highest
    expected = r["start"]
    if r["end"] is not None and len(r["end"]["list"]) < len(r["start"]["list"]):
        expected = r["end"]
    _check_passage(ref.highest, expected, "highest")
    check_eq(ref.depth, len(expected["list"]), "depth")


def run_structure(case, ctx):
    from MyCapytain.common.reference import CtsReference
    r = case["ref"]
    text = range_str(r)
    ref = CtsReference(text)
    check_structure(ref, r)
    start, end = passage_str(r["start"]), r["end"] and passage_str(r["end"])
    if end is not None:
        check_structure(CtsReference(start, end), r)
        check_eq(CtsReference(start, end), ref, "CtsReference(start, end)")
    check_structure(CtsReference((start, end)), r)
    check_eq(CtsReference((start, end)), ref, "CtsReference((start, end))")
    check_eq(CtsReference(tuple(ref)), ref, "CtsReference(tuple)")
    ctx.label("range" if end else "single", "depth{}".format(len(r["start"]["list"])))
    if r["end"] and len(r["end"]["list"]) != len(r["start"]["list"]):
        ctx.label("mixed-depth")
    if r["start"]["sub"] or (r["end"] and r["end"]["sub"]):
        ctx.label("subreference")
    ctx.nontrivial(end is not None or r["start"]["sub"] is not None or len(r["start"]["list"]) > 1)


def run_parent(case, ctx):
    from MyCapytain.common.reference import CtsReference
    r = case["ref"]
    ref = CtsReference(range_str(r))
    expected = _model_parent(r)
    parent = ref.parent
    if expected is None:
        check(parent is None, "parent of {} should be None, got {}", str(ref), parent)
        ctx.label("no-parent")
    else:
        check(isinstance(parent, CtsReference), "parent of {} is {!r}", str(ref), parent)
        check_eq(str(parent), expected, "parent of " + str(ref))
        check_eq(parent, CtsReference(expected), "parent as a reference of " + str(ref))
        # reaching the top: depth - 1 steps at most, each one level up
        depth, steps = ref.depth, 0
        current = ref
        while current.parent is not None:
            nxt = current.parent
            check_eq(nxt.start.depth, current.start.depth - 1, "parent depth")
            if nxt.end is not None:
                check_eq(nxt.end.depth, current.end.depth - 1, "parent end depth")
            current, steps = nxt, steps + 1
            check(steps < 20, "parents never end")
        ctx.label("steps{}".format(steps))
        ctx.nontrivial()
    # the receiver is left alone
    check_structure(ref, r)


def run_equality(case, ctx):
    from MyCapytain.common.reference import CtsReference
    a, b = range_str(case["a"]), range_str(case["b"])
    ra, rb = CtsReference(a), CtsReference(b)
    same = a == b
    check_eq(ra == rb, same, "{} == {}".format(a, b))
    check_eq(ra != rb, not same, "{} != {}".format(a, b))
    if same:
        check_eq(hash(ra), hash(rb), "hash")
    check_eq(len({ra, rb}), 1 if same else 2, "as members of a set")
    check(not (ra == a), "a reference is not a string")
    again = CtsReference(str(ra))
    check_eq(again, ra, "re-parsed")
    check_eq(hash(again), hash(ra), "hash of the re-parsed")
    for name, clone in (("pickle", pickle.loads(pickle.dumps(ra))), ("copy", copy.copy(ra)),
                        ("deepcopy", copy.deepcopy(ra)), ("pickle0", pickle.loads(pickle.dumps(ra, 2)))):
        check_eq(clone, ra, name)
        check_structure(clone, case["a"])
    ctx.label("equal" if same else "different")
    ctx.nontrivial(case["a"]["end"] is not None)


def run_set(case, ctx):
    from MyCapytain.common.reference import CtsReference, CtsReferenceSet, Citation
    strings = []
    for r in case["refs"]:
        s = range_str(r)
        if s not in strings:
            strings.append(s)
    refs = [CtsReference(s) for s in strings]
    citation = Citation(name="line")
    level = case["level"]
    variants = {
        "list": CtsReferenceSet(list(refs), citation=citation, level=level),
        "star": CtsReferenceSet(*refs, citation=citation, level=level),
    }
    other = range_str(case["other"])
    for name, rset in variants.items():
        check_eq(len(rset), len(refs), "{}: size".format(name))
        check_eq(list(rset), refs, "{}: members in order".format(name))
        check(rset.citation is citation, "{}: citation", name)
        check_eq(rset.level, level, "{}: level".format(name))
        for i, s in enumerate(strings):
            check(s in rset, "{}: string {} not found", name, s)
            check(refs[i] in rset, "{}: reference {} not found", name, s)
            check(CtsReference(s) in rset, "{}: equal reference {} not found", name, s)
            check_eq(rset.index(s), i, "{}: index of string {}".format(name, s))
            check_eq(rset.index(CtsReference(s)), i, "{}: index of reference {}".format(name, s))
            check_eq(rset[i], refs[i], "{}: item".format(name))
            for what, obj in (("string", s), ("reference", CtsReference(s))):
                for bounds in ((0,), (i,), (-len(refs),), (0, len(refs)), (i, i + 1)):
                    check_eq(rset.index(obj, *bounds), i, "{}: index of {} {} within {}".format(name, what, s, bounds))
                for bounds in ((i + 1,), (0, i), (i, i)):
                    raises(ValueError, "{}: index of {} {} within {}".format(name, what, s, bounds), rset.index, obj, *bounds)
        check_eq(other in rset, other in strings, "{}: membership of {}".format(name, other))
        check_eq(CtsReference(other) in rset, other in strings, "{}: membership of reference {}".format(name, other))
        if other not in strings:
            raises(ValueError, "{}: index of {}, which it does not hold".format(name, other), rset.index, other)
            raises(ValueError, "{}: index of the reference {}, which it does not hold".format(name, other), rset.index, CtsReference(other))
        check_eq(rset.count(CtsReference(other)), 1 if other in strings else 0, "{}: count of {}".format(name, other))
        for what, clone in (("pickle", pickle.loads(pickle.dumps(rset))), ("copy", copy.copy(rset)), ("deepcopy", copy.deepcopy(rset))):
            check(type(clone) is CtsReferenceSet, "{}: {}: is a {}", name, what, type(clone))
            check_eq(list(clone), refs, "{}: {}: members".format(name, what))
            check_eq(clone.level, level, "{}: {}: level".format(name, what))
            check_eq(clone.citation.name, "line", "{}: {}: citation".format(name, what))
    ctx.label("size{}".format(len(refs)))
    ctx.nontrivial(len(refs) > 1 or (len(refs) == 1))


def _refs():
    return st.fixed_dictionaries({"ref": ranges()})


@st.composite
def _pairs(draw):
    a = draw(ranges())
    kind = draw(st.integers(0, 3))
    b = [a, None, {"start": a["start"], "end": None}, {"start": a["start"], "end": a["start"]}][kind] or draw(ranges())
    return {"a": a, "b": b}


def _sets():
    return st.fixed_dictionaries({
        "refs": st.lists(ranges(max_depth=3), min_size=1, max_size=6), "other": ranges(max_depth=2),
        "level": st.integers(1, 5)})


SUBS = [
    Sub("structure", _refs, run_structure, quick=4000, rule="a range, several levels or a subreference", graph=False),
    Sub("parent", _refs, run_parent, quick=4000, rule="the reference has a parent", graph=False),
    Sub("equality", _pairs, run_equality, quick=2500, rule="the first reference is a range", graph=False),
    Sub("set", _sets, run_set, quick=2000, rule="at least one member", graph=False),
]
