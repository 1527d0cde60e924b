""" C24 -- the CTS HTTP resolver returns what the endpoint says """
from hypothesis import strategies as st

from .. import cts_server, inventories as inv, texts
from ..engine import Sub, check, check_eq
from ..texts import ref
from ..wire import Wire
from .c22 import check_metadata, outcome


class Handle(object):
    """ A text or a passage which was obtained, and what it stands for """
    def __init__(self, server, obj, base, span, what):
        self.server, self.obj, self.base, self.span, self.what = server, obj, base, span, what
        self.document = server.documents[base]

    @property
    def urn(self):
        return self.base if self.span is None else self.base + ":" + self.reference

    @property
    def reference(self):
        return show_span(self.span)

    @property
    def ends(self):
        return self.span or (None, None)

    @property
    def level(self):
        return 0 if self.span is None else depth(self.span)

    @property
    def is_text(self):
        return type(self.obj).__name__ == "CtsText"


def depth(span):
    """ Depth of the highest end """
    return min(len(p) for p in span)


def show_span(span):
    return ref(span[0]) if span[0] == span[1] else "{}-{}".format(ref(span[0]), ref(span[1]))


def strs(value):
    return [str(v) for v in value]


def one(path):
    return None if path is None else ref(path)


def check_passage(server, passage, base, span, what, plus):
    """ Everything about a passage which needs no further request """
    document = server.documents[base]
    urn = base if span is None else base + ":" + show_span(span)
    check_eq(str(passage.urn), urn, what + ": urn")
    expected = texts.drop_blanks(texts.canon_model(server.cut(urn)))
    check_eq(texts.drop_blanks(texts.canon_any(passage.export("python/lxml"))), expected, what + ": XML")
    check_eq(texts.drop_blanks(texts.canon_any(passage.xml)), expected, what + ": xml")
    # where the words are: the parser drops some of the blanks
    check_eq(passage.export("text/plain").split(), texts.plain_canon(expected).split(), what + ": plain text")
    check_eq(passage.depth, None if span is None else depth(span), what + ": depth")
    if plus or server.style["request"] == "full":
        inv.check_citation(passage, document, what)
    else:
        check(not passage.citation.is_set(), "{}: citation {!r} which nobody sent", what, passage.citation)
    if plus:
        check_metadata(passage, *server.entries[base], what)
    if span is not None:
        check_eq(passage.id, show_span(span), what + ": identifier")
        if span[0] == span[1]:
            check_eq(passage.parentId, one(span[0][:-1] or None), what + ": parentId")
    else:
        check_eq(passage.parentId, None, what + ": parentId")


def forms(case_form, base, span):
    """ A reference in one of the forms which are accepted """
    from MyCapytain.common.reference import CtsReference, URN
    text = show_span(span)
    if case_form == "reference":
        return CtsReference(text)
    if case_form == "list" and span[0] == span[1]:
        return list(span[0])
    if case_form == "urn":
        return URN(base + ":" + text)
    if case_form == "full":
        return base + ":" + text
    return text


def pick(document, op):
    start, end = document.pick_range(op["a"], op["b"])
    if op["range"] and op["b"] % 3 == 0:
        # perhaps between levels
        return start, end
    if op["range"]:
        level = document.level(len(start))
        other = level[op["b"] % len(level)]
        return (start, other) if document.span(start)[0] <= document.span(other)[0] else (other, start)
    return start, start


def chain(document):
    from MyCapytain.common.reference import Citation
    below = None
    for i in range(len(document.levels), 0, -1):
        below = Citation(name=document.levels[i - 1]["name"], refsDecl=document.refsdecl(i), child=below)
    return below


def run(case, ctx):
    from MyCapytain.common.reference import CtsReference, URN
    from MyCapytain.resolvers.cts.api import HttpCtsResolver
    from MyCapytain.resources.texts.remote.cts import CtsText
    from MyCapytain.retrievers.cts5 import HttpCtsRetriever
    server = cts_server.serve(case)
    urns = sorted(server.documents)
    with Wire(server) as wire:
        retriever = HttpCtsRetriever(cts_server.URL, inventory=case["inv"]) if case["inv"] else HttpCtsRetriever(cts_server.URL)
        resolver = HttpCtsResolver(retriever)
        check(resolver.endpoint is retriever, "endpoint of the resolver")
        handles = []
        done = set()

        def attempt(what, fn, op, expected_error=False):
            """ Result of fn (or None if it had to fail) """
            server.fault, server.faulty = (None, 0) if op["fault"] is None else ((op["after"], op["fault"]), 0)
            kind, value = outcome(fn)
            failed, server.fault = server.faulty, None
            if failed:
                check(kind == "raised", "{}: the endpoint replied with the failure {!r} and the answer is {!r}", what, op["fault"], value)
                ctx.label("fault " + op["fault"])
                # and later it answers
                kind, value = outcome(fn)
            if expected_error:
                check(kind == "raised", "{}: the endpoint has no such thing and the answer is {!r}", what, value)
                return None
            if kind == "raised":
                # shows the exception
                fn()
            check_eq(kind, "returned", "{}: {!r}; last request: {!r}".format(what, value, wire.log[-1].pairs if wire.log else None))
            return value

        def got_passage(passage, base, span, what, plus):
            check_eq(type(passage).__name__, "CtsPassage", what + ": type")
            check_passage(server, passage, base, span, what, plus)
            handles.append(Handle(server, passage, base, span, what))

        for n, op in enumerate(case["ops"]):
            base = urns[op["text"] % len(urns)]
            document = server.documents[base]
            span = pick(document, op)
            on_handle = op["handle"] is not None and handles
            if not on_handle:
                do = op["do"]
                given = URN(base) if op["form"] in ("urn", "reference") else base
                what = "step {}: {} of {} {}".format(n, do, base, show_span(span))
                as_ref = CtsReference(show_span(span)) if op["form"] == "reference" else show_span(span)
                if do == "unknown":
                    bad, expects = [(base + "x", "1"), (base, ref(span[0]) + ".zzz"), (base, "nowhere")][op["a"] % 3], op["b"] % 3
                    fn = [lambda: resolver.getTextualNode(bad[0], bad[1], metadata=op["range"]), lambda: resolver.getReffs(bad[0], subreference=bad[1]),
                          lambda: resolver.getSiblings(bad[0], bad[1])][expects]
                    attempt(what, fn, op, True)
                elif do == "inventory":
                    attempt_inventory(server, resolver, op, base, what, attempt)
                elif do == "text":
                    if op["a"] % 3:
                        text = CtsText(given, retriever)
                    else:
                        # its citation is known beforehand
                        text = CtsText(given, retriever, citation=chain(document))
                        inv.check_citation(text, document, what + ": citation given")
                        ctx.label("citation given")
                    handles.append(Handle(server, text, base, None, what))
                elif do == "siblings":
                    got = attempt(what, lambda: resolver.getSiblings(given, as_ref), op)
                    check_eq(tuple(got), tuple(one(p) for p in server.siblings(document, *span)), what)
                elif do == "reffs":
                    whole, level = op["whole"], op["level"]
                    above = 0 if whole else depth(span)
                    level = min(level, document.depth - above) or None
                    if level is not None:
                        kwargs = {} if level == 1 and op["a"] % 2 else {"level": level}
                        if whole:
                            fn = lambda: resolver.getReffs(given, **kwargs)
                        elif op["form"] == "full":
                            fn = lambda: resolver.getReffs(base + ":" + show_span(span), **kwargs)
                        else:
                            fn = lambda: resolver.getReffs(given, subreference=as_ref, **kwargs)
                        expected = server.reffs(document, *((None, None) if whole else span), above + level)
                        check_eq(strs(attempt(what + " level {}".format(level), fn, op)), [ref(p) for p in expected], what + ": references")
                else:
                    flags = {k: True for k in ("metadata", "prevnext") if op[k]}
                    if op["whole"]:
                        fn, span = lambda: resolver.getTextualNode(given, **flags), None
                    elif op["form"] == "full":
                        fn = lambda: resolver.getTextualNode(base + ":" + show_span(span), **flags)
                    else:
                        fn = lambda: resolver.getTextualNode(given, subreference=as_ref, **flags)
                    passage = attempt(what + " " + ", ".join(flags), fn, op)
                    got_passage(passage, base, span, what, bool(flags))
                done.add(do)
                ctx.label(do)
            else:
                handle = handles[op["handle"] % len(handles)]
                done.add(on_a_handle(n, handle, op, attempt, got_passage, ctx))
        check_eq({a.method for a in wire.log} - {"GET"}, set(), "methods of requests")
    ctx.nontrivial(len(handles) > 1 and len(done) > 3)


def attempt_inventory(server, resolver, op, base, what, attempt):
    from MyCapytain.common.constants import set_graph, bind_graph
    g, w, t = server.entries[base]
    kind = ["all", "textgroup", "work", "text", "unknown"][op["a"] % 5]
    set_graph(bind_graph())
    if kind == "all":
        got = attempt(what + " (all)", lambda: resolver.getMetadata(), op)
        set_graph(bind_graph())
        got = resolver.getMetadata()
        inv.check_inventory(got, server.model, True)
        return
    if kind == "unknown":
        attempt(what + " (unknown)", lambda: resolver.getMetadata("urn:cts:nothing:a.b"), op, True)
        return
    urn = {"textgroup": inv.tg_urn(g), "work": inv.work_urn(g, w), "text": base}[kind]
    got = attempt("{} ({})".format(what, urn), lambda: resolver.getMetadata(urn) if op["b"] % 2 else resolver.getMetadata(objectId=urn), op)
    check_eq(got.id, urn, what + ": identifier")
    if not server.style["whole"]:
        (g,) = cts_server.narrow(server.model, urn)["textgroups"]
        w = w if kind == "textgroup" else g["works"][0]
    if kind == "textgroup":
        inv.check_textgroup(got, g, got.parent, True)
    elif kind == "work":
        inv.check_work(got, g, w, got.parent, True)
    else:
        inv.check_text(got, g, w, t, got.parent, True)


def on_a_handle(n, handle, op, attempt, got_passage, ctx):
    from MyCapytain.common.reference import CtsReference
    server, document, base, obj = handle.server, handle.document, handle.base, handle.obj
    do = op["navigate"]
    span = pick(document, op)
    what = "step {}: {} from {} ({})".format(n, do, handle.urn, type(obj).__name__)
    start, end = handle.ends
    level = handle.level
    if start is not None and len(start) != len(end):
        ctx.label("range between levels")
    too_deep = server.style["strict"] and start is not None and (level + 1 > document.depth)
    children = [] if too_deep else server.reffs(document, start, end, level + 1)
    ctx.label(("text " if handle.is_text else "passage ") + do)
    if do in ("next", "prev", "siblingsId", "nextId", "prevId"):
        if handle.is_text:
            attempt(what, lambda: getattr(obj, do), dict(op, fault=None), True)
            return do
        expected = (None, None) if start is None else server.siblings(document, start, end)
        got = attempt(what, lambda: getattr(obj, do), op)
        if do == "siblingsId":
            check_eq(tuple(got), tuple(one(p) for p in expected), what)
            return do
        path = expected[do.startswith("next")]
        if do.endswith("Id"):
            check_eq(got, one(path), what)
        elif path is None:
            check_eq(got, None, what)
        else:
            got_passage(got, base, (path, path), what, False)
    elif do in ("childIds", "children", "last", "lastId"):
        fn = (lambda: list(obj.children)) if do == "children" else lambda: getattr(obj, do)
        got = attempt(what, fn, op, too_deep)
        if too_deep:
            return do
        if do == "childIds":
            check_eq(strs(got), [ref(p) for p in children], what)
        elif do == "children":
            check_eq([str(c.urn) for c in got], [base + ":" + ref(p) for p in children], what)
            for c, p in list(zip(got, children))[:4]:
                got_passage(c, base, (p, p), what, False)
        elif not children:
            check_eq(got, None, what)
        elif do == "lastId":
            check_eq(str(got), ref(children[-1]), what)
        else:
            got_passage(got, base, (children[-1], children[-1]), what, False)
    elif do in ("first", "firstId"):
        got = attempt(what, lambda: getattr(obj, do), op)
        path = children[0] if children else None
        if do == "firstId":
            check_eq(got, one(path), what)
        elif path is None:
            check_eq(got, None, what)
        else:
            got_passage(got, base, (path, path), what, False)
    elif do == "parent":
        if handle.is_text or (start is not None and start != end):
            return do
        got = attempt(what, lambda: obj.parent, op)
        if start is None or len(start) == 1:
            check_eq(got, None, what)
        else:
            got_passage(got, base, (start[:-1],) * 2, what, False)
    elif do == "reffs":
        relative = min(op["level"], document.depth - level)
        if relative < 1:
            return do
        got = attempt("{} (level {})".format(what, relative), lambda: obj.getReffs(relative) if op["a"] % 2 else obj.getReffs(level=relative), op)
        check_eq(strs(got), [ref(p) for p in server.reffs(document, start, end, level + relative)], what)
    elif do == "validreff":
        # absolute levels, references of the text
        whole = op["whole"]
        lowest = (level if whole else depth(span)) + 1
        wanted = min(lowest + op["level"] - 1, document.depth)
        if wanted < lowest:
            return do
        given = None if whole else forms("reference" if op["form"] == "reference" else "text", base, span)
        got = attempt("{} level {} in {}".format(what, wanted, given), lambda: obj.getValidReff(level=wanted, reference=given), op)
        check_eq(strs(got), [ref(p) for p in server.reffs(document, *(handle.ends if whole else span), wanted)], what)
    elif do == "deepest":
        if level == document.depth or (not server.style["label_citation"] and not obj.citation.is_set()):
            return do
        for fn in (lambda: obj.getValidReff(level=-1), lambda: obj.getReffs(level=-1)):
            got = attempt(what, fn, op)
            check_eq(strs(got), [ref(p) for p in server.reffs(document, start, end, document.depth)], what)
    elif do == "passage":
        given = None if op["whole"] else forms(op["form"], base, span)
        got = attempt("{} to {!r}".format(what, given), lambda: obj.getTextualNode() if given is None else obj.getTextualNode(given), op)
        got_passage(got, base, handle.span if given is None else span, what, False)
    elif do == "plus":
        given = None if op["whole"] else forms("reference" if op["form"] == "reference" else "text", base, span)
        got = attempt("{} to {!r}".format(what, given), lambda: obj.getPassagePlus(given), op)
        got_passage(got, base, handle.span if given is None else span, what, True)
        inv.check_citation(obj, document, what + ": of the object asked")
    elif do == "firsturn":
        form = op["form"] if op["form"] in ("reference", "full") else "text"
        got = attempt("{} of {} ({})".format(what, show_span(span), form), lambda: obj.getFirstUrn(forms(form, base, span)), op)
        found = server.reffs(document, span[0], span[1], depth(span) + 1)
        check_eq(got, one(found[0] if found else None), what)
    elif do == "prevnexturn":
        got = attempt("{} of {}".format(what, show_span(span)), lambda: obj.getPrevNextUrn(forms("reference" if op["form"] == "reference" else "text", base, span)), op)
        check_eq(tuple(got), tuple(one(p) for p in server.siblings(document, *span)), what)
    elif do == "label":
        got = attempt(what, lambda: obj.getLabel(), op)
        check(got is obj.metadata, "{}: metadata", what)
        check_metadata(obj, *server.entries[base], what)
        if server.style["label_citation"]:
            inv.check_citation(obj, document, what)
    elif do == "all":
        if not handle.is_text:
            return do
        if not server.style["label_citation"] and not obj.citation.is_set():
            return do
        got = attempt(what, lambda: obj.reffs, op)
        check_eq(strs(got), [ref(p) for i in range(1, document.depth + 1) for p in document.level(i)], what)
    elif do == "export":
        got = attempt(what, lambda: obj.export("python/lxml"), op)
        check_eq(texts.drop_blanks(texts.canon_any(got)), texts.drop_blanks(texts.canon_model(server.cut(handle.urn))), what)
        got = attempt(what, lambda: obj.export("text/xml"), op)
        import lxml.etree as etree
        check_eq(texts.drop_blanks(texts.canon_any(etree.fromstring(got))), texts.drop_blanks(texts.canon_model(server.cut(handle.urn))), what)
    elif do == "nested":
        if handle.is_text or not obj.citation.is_set():
            return do
        got = attempt(what, lambda: obj.export("python/NestedDict"), op)
        deepest = server.reffs(document, start, end, document.depth)
        if start is not None and start == end and level == document.depth:
            deepest = [start]
        expected = {}
        for p in deepest:
            at = expected
            for i in p[:-1]:
                at = at.setdefault(i, {})
            at[p[-1]] = words(texts.plain_canon(texts.drop_blanks(texts.canon_model(server.cut(base + ":" + ref(p))))))
        check_eq(plain(got), expected, what)
        check_eq([k for k in order(got)], deepest, what + ": order")
    return do


def plain(tree):
    return {k: plain(v) for k, v in tree.items()} if hasattr(tree, "items") else words(tree)


def words(text):
    return " ".join(text.split())


def order(tree, prefix=()):
    for k, v in tree.items():
        if hasattr(v, "items"):
            yield from order(v, prefix + (k,))
        else:
            yield prefix + (k,)


def _cases():
    op = st.fixed_dictionaries({
        "do": st.sampled_from(["passage"] * 4 + ["text", "text", "siblings", "reffs", "reffs", "inventory", "unknown"]), "text": st.integers(0, 7),
        "handle": st.sampled_from([None, 0, 1, 2, 3, 4, 5, 6, 7]), "navigate": st.sampled_from([
            "next", "prev", "siblingsId", "nextId", "prevId", "childIds", "children", "last", "lastId", "first", "firstId", "parent", "reffs", "validreff", "deepest",
            "passage", "plus", "firsturn", "prevnexturn", "label", "all", "export", "nested"]),
        "a": st.integers(0, 40), "b": st.integers(0, 40), "range": st.sampled_from([False, False, False, True]), "whole": st.sampled_from([False, False, False, True]),
        "form": st.sampled_from(["text", "text", "reference", "list", "urn", "full"]), "level": st.integers(1, 3), "metadata": st.booleans(), "prevnext": st.booleans(),
        "fault": st.sampled_from([None] * 12 + cts_server.FAULTS), "after": st.sampled_from([0, 0, 0, 1, 2])})
    return st.fixed_dictionaries({"held": cts_server.holdings(max_depth=3), "style": cts_server.styles(), "inv": st.sampled_from([None, "annotsrc", "my inv & more"]),
                                  "ops": st.lists(op, min_size=6, max_size=16)})


SUBS = [
    Sub("endpoint", _cases, run, quick=5000, thorough=60000, graph=True, rule="several objects were obtained and more than three different things asked"),
]
