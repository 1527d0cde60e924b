""" C11 -- answers of a local text do not depend on what was asked before

Differential check: every answer of a text with a history is compared with the answer of a freshly parsed text, on
which only the steps which lead to the passage asked are done again.
"""
from hypothesis import strategies as st

from .. import texts
from ..engine import Sub, check_eq, CaseTimeout
from ..texts import ref


QUESTIONS = ["prevId", "nextId", "siblingsId", "childIds", "firstId", "lastId", "parentId", "text", "xml", "str", "dict", "reffs", "valid", "whole",
             "exclude", "urn", "reference", "citation", "children", "depth", "xpath"]
MOVES = ["next", "prev", "first", "last", "parent"]


def plain_answer(value):
    """ An answer as plain data """
    if value is None or isinstance(value, (bool, int, float)):
        return value
    if isinstance(value, str):
        return str(value)
    if isinstance(value, dict):
        return ["dict"] + [(k, plain_answer(v)) for k, v in value.items()]
    if hasattr(value, "is_range"):
        return "ref " + str(value)
    if hasattr(value, "export") and hasattr(value, "resource"):
        return ["node", str(getattr(value, "reference", None)), str(value.urn), texts.canon_any(value.resource)]
    if hasattr(value, "getroottree") or hasattr(value, "getroot"):
        return texts.canon_any(value)
    if hasattr(value, "level") and hasattr(value, "citation"):
        return ["refs", value.level, value.citation.name if value.citation is not None else None, [str(v) for v in value]]
    if isinstance(value, (list, tuple)):
        return [plain_answer(v) for v in value]
    return str(value)


def attempt(fn):
    try:
        return "ok", fn()
    except (KeyboardInterrupt, CaseTimeout, MemoryError):
        raise
    except BaseException as E:
        return "raised", type(E).__name__


def ask(node, question, arg):
    """ Answer to a question to a text or to a passage """
    from MyCapytain.common.constants import Mimetypes, XPATH_NAMESPACES
    from MyCapytain.common.reference import CtsReference
    r = CtsReference(arg["ref"]) if arg["ref"] else None
    if question == "text":
        return node.export(Mimetypes.PLAINTEXT, exclude=[])
    if question == "exclude":
        return node.export(Mimetypes.PLAINTEXT, exclude=["tei:note"])
    if question == "xml":
        return node.export(Mimetypes.PYTHON.ETREE)
    if question == "str":
        return node.export(Mimetypes.XML.Std)
    if question == "dict":
        return node.export(Mimetypes.PYTHON.NestedDict)
    if question == "reffs":
        return node.getReffs(level=arg["level"], subreference=r)
    if question == "valid":
        return node.getValidReff(level=arg["level"], reference=r)
    if question == "whole":
        return node.reffs
    if question == "children":
        return list(node.children)
    if question == "xpath":
        return [texts.canon_lxml(x) for x in node.xpath("//tei:note", namespaces=XPATH_NAMESPACES)]
    if question == "citation":
        return [node.citation.name, node.citation.refsDecl, len(node.citation.root)]
    return getattr(node, question)


def move(node, step):
    from MyCapytain.common.reference import CtsReference
    if step["do"] == "get":
        r = step["ref"]
        how = step["how"]
        if how == "none":
            return node.getTextualNode()
        if how == "string":
            return node.getTextualNode(r)
        if how == "list":
            return node.getTextualNode(r.split("-")[0].split("."))
        if how == "simple":
            return node.getTextualNode(CtsReference(r.split("-")[0]), simple=True)
        return node.getTextualNode(CtsReference(r))
    return getattr(node, step["do"])


def run(case, ctx):
    doc = texts.Document(case["doc"])
    urn = texts.urn_of(case)
    text = doc.text(urn=urn)
    held = [(text, [])]
    paths = [p for p, _ in doc.units]

    def make_ref(op):
        kind = op["ref"]
        if kind == "unit":
            return ref(paths[op["a"] % len(paths)])
        if kind == "range":
            return "{}-{}".format(*[ref(p) for p in doc.pick_range(op["a"], op["b"])])
        if kind == "unknown":
            p = paths[op["a"] % len(paths)]
            return ref(p[:-1] + ("zz9",))
        if kind == "deep":
            p = paths[op["a"] % len(paths)]
            return ref(p + ("1",) * (doc.depth + 1 - len(p)))
        return None

    def fresh(path):
        node = doc.text(urn=urn)
        for step in path:
            node = move(node, step)
        return node

    done = 0
    for op in case["ops"]:
        if op.get("on_text") or op.get("question") == "whole":
            node, path = held[0]
        else:
            node, path = held[-1 - op["on"] % len(held)]
        where = "{!r} after {} other questions".format(path, done)
        if op["kind"] == "move":
            how = op["how"]
            r = make_ref(op)
            if op["move"] == "get" and r is None:
                r, how = "1", ("none" if node is text else how)
            step = {"do": op["move"], "ref": r, "how": how}
            status, new = attempt(lambda: move(node, step))
            status2, new2 = attempt(lambda: move(fresh(path), step))
            what = "{} of {}".format(step, where)
            check_eq((status, plain_answer(new)), (status2, plain_answer(new2)), what)
            if status == "ok" and new is not None:
                held.append((new, path + [step]))
                if len(held) > 8:
                    del held[1]
            ctx.label("{} {}".format(op["move"], status))
        else:
            arg = {"ref": make_ref(op), "level": op["level"]}
            status, got = attempt(lambda: plain_answer(ask(node, op["question"], arg)))
            status2, exp = attempt(lambda: plain_answer(ask(fresh(path), op["question"], arg)))
            what = "{} {} of {}".format(op["question"], arg, where)
            check_eq((status, got), (status2, exp), what)
            ctx.label("{} {}".format(op["question"], status))
        done += 1
    doc.check_unchanged(text)
    ctx.nontrivial(done > 4 and len(held) > 2)


def _ops():
    common = {"on": st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5, 6]), "a": st.integers(0, 40), "b": st.integers(0, 40),
              "ref": st.sampled_from(["unit", "unit", "unit", "range", "range", "none", "unknown", "deep"])}
    ask_ = st.fixed_dictionaries(dict(common, kind=st.just("ask"), question=st.sampled_from(QUESTIONS), level=st.sampled_from([1, 1, 2, 2, 0, 3, 5])))
    move_ = st.fixed_dictionaries(dict(common, kind=st.just("move"), move=st.sampled_from(["get"] * 5 + MOVES),
                                       how=st.sampled_from(["ref", "ref", "string", "list", "simple", "none"])))
    return st.one_of(ask_, ask_, move_)


def _cases():
    first = st.fixed_dictionaries({"on": st.just(0), "a": st.integers(0, 40), "b": st.integers(0, 40), "ref": st.sampled_from(["unit", "range"]),
                                   "kind": st.just("move"), "move": st.just("get"), "how": st.sampled_from(["ref", "string", "simple"])})
    return st.builds(lambda doc, urn, f, ops: {"doc": doc, "urn": urn, "ops": f + ops}, texts.documents(max_depth=3), texts.urns(),
                     st.lists(first, min_size=0, max_size=2), st.lists(_ops(), min_size=3, max_size=15))


def _same_cases():
    """ A few questions, each asked from every passage of a small set (got in the same way, or not) """
    def ops(moves, hows, asks, order):
        firsts = [{"kind": "move", "move": "get", "on": 40, "ref": "unit" if how == "simple" else m["ref"], "a": m["a"], "b": m["b"], "how": how}
                  for m, how in zip(moves, hows)]
        for f in firsts:
            f["on_text"] = True
        n = len(firsts) + 1
        todo = [dict(a, on=i) for a in asks for i in range(n)]
        keyed = sorted(range(len(todo)), key=lambda i: (order[i % len(order)], i))
        return firsts + [todo[i] for i in keyed] + todo[:n]
    moves = st.integers(2, 4).flatmap(lambda n: st.lists(st.fixed_dictionaries({"a": st.integers(0, 40), "b": st.integers(0, 40),
                                      "ref": st.sampled_from(["unit", "unit", "unit", "range"])}), min_size=n, max_size=n))
    hows = st.one_of(st.sampled_from(["ref", "string", "simple", "simple"]).map(lambda h: [h] * 4),
                     st.lists(st.sampled_from(["ref", "string", "list", "simple"]), min_size=4, max_size=4))
    asks = st.lists(st.fixed_dictionaries({"kind": st.just("ask"), "question": st.sampled_from(QUESTIONS), "level": st.sampled_from([1, 1, 1, 2, 0, 3]),
                                           "a": st.integers(0, 40), "b": st.integers(0, 40), "ref": st.sampled_from(["none", "none", "unit", "range"])}),
                    min_size=1, max_size=3)
    return st.builds(lambda doc, urn, m, h, a, o: {"doc": doc, "urn": urn, "ops": ops(m, h, a, o)}, texts.documents(max_depth=3), texts.urns(),
                     moves, hows, asks, st.lists(st.integers(0, 5), min_size=1, max_size=6))


SUBS = [
    Sub("same-question", _same_cases, run, quick=900, thorough=18000, rule="five questions or more, to two passages or more"),
    Sub("history", _cases, run, quick=900, thorough=18000, rule="five questions or more, to two passages or more"),
]
