""" C27 -- collections of a DTS endpoint, read lazily and in any order, are those of the endpoint """
from collections import Counter

from hypothesis import strategies as st

from .. import dts
from ..dts import HYDRA
from ..dts_server import ROOT, Endpoint, reply, view, view_forms
from ..engine import Sub, Violation, check, check_eq, raises
from .c22 import outcome

DIRECTIONS = ["children", "parents"]
WRONG_NEXT = ["http://foobar.com/api/dts/collections?id=x", "?page=", "?page=abc", "?npage=2", "/page=2/collections", "?page=0"]
NOWHERE = "urn:nowhere"


class Nodes(object):
    """ The collections of the endpoint: a directed acyclic graph """

    def __init__(self, case):
        self.case = case
        self.models, self.children, self.parents = {}, {}, {}
        names = []
        for n, spec in enumerate(case["nodes"]):
            # relative identifiers: known finding relative-members of C20
            base = dts.ID_BASES[max(spec["model"]["base"], dts.RELATIVE)]
            name, i = base, 1
            while name in self.models:
                i += 1
                name = base + str(i)
            names.append(name)
            self.models[name] = dict(spec["model"], id=name)
            self.children[name], self.parents[name] = [], []
            for p in dict.fromkeys(p % n for p in spec["parents"]) if n else []:
                self.children[names[p]].append(name)
                self.parents[name].append(names[p])
        self.names = names
        self.specs = dict(zip(names, case["nodes"]))
        for name in names:
            self.models[name]["total"] = len(self.children[name])
            if self.children[name] and case["nodes"][0]["model"]["links"]:
                self.models[name]["type"] = "Collection"
        self.fault = None

    def brief(self, name):
        """ What the listing of another collection says """
        model = self.models[name]
        return dict(model, dublincore=[], extensions=[], cite=[], cite_depth=None) if self.specs[name]["brief"] else model

    def related(self, name, direction):
        return (self.children if direction == "children" else self.parents)[name]

    def pages(self, name, direction):
        """ [(number, names)] """
        members, size = list(self.related(name, direction)), self.specs[name]["size"]
        out = [members[i:i + size] for i in range(0, len(members), size)] or [[]]
        if self.specs[name]["empty_end"] and members:
            out.append([])
        numbers = [1] + [n + 2 for n in self.specs[name]["numbers"]]
        numbers = list(dict.fromkeys(numbers + list(range(2, 20 + len(out)))))
        return list(zip(numbers, out))

    def below(self, name):
        """ Names below, as many times as there are ways """
        out = []
        for c in self.children[name]:
            out.append(c)
            out += self.below(c)
        return out

    def document(self, name, direction, n, after="next"):
        w = dts.Writer(self.case["style"])
        pages = self.pages(name, direction)
        number, members = pages[n]
        body = w.collection(self.models[name], members=False)
        if members:
            body[w.name(HYDRA + "member")] = w.listed([w.collection(self.brief(m), members=False) for m in members])
        if after == "next":
            after = pages[n + 1][0] if n + 1 < len(pages) else None
        if len(pages) > 1 or after is not None or (members and self.specs[name]["lone_view"]):
            body.update(view(w, "collections", name, pages[n - 1][0] if n else None, number, after, pages[-1][0], self.specs[name]["form"]))
        if not w.context:
            return body
        return dict([("@context", dict(w.context))] + list(body.items()))

    def __call__(self, asked):
        params = dict(asked.params)
        name, direction, number = params.pop("id", self.names[0]), params.pop("nav", "children"), int(params.pop("page", "1"))
        if params or name not in self.models or direction not in DIRECTIONS:
            return reply({"title": "Not Found"}, 404)
        numbers = [p[0] for p in self.pages(name, direction)]
        if number not in numbers:
            return reply({"title": "Not Found"}, 404)
        n = numbers.index(number)
        fault = self.fault
        if fault and (fault["name"], fault["direction"], fault["page"] % len(numbers)) == (name, direction, n):
            kind = fault["kind"]
            fault["met"] = True
            if kind == "status":
                return reply(self.document(name, direction, n), [404, 500, 503][fault["which"] % 3])
            if kind == "connection":
                import requests
                raise requests.ConnectionError("reset")
            if kind == "text":
                return 200, {"Content-Type": "text/html"}, [b"<html/>", b"", b"{\"@id\": \"x\", "][fault["which"] % 3]
            if kind == "bare":
                # a reply without the size and the title
                return reply({"@id": name, "@type": HYDRA + self.models[name]["type"], "http://purl.org/dc/terms/x": "y"})
            if kind == "nothing":
                return reply([{}, []][fault["which"] % 2])
            if kind == "next":
                return reply(self.document(name, direction, n, {"text": WRONG_NEXT[fault["which"] % len(WRONG_NEXT)]}))
            if kind == "loop":
                return reply(self.document(name, direction, n, numbers[fault["which"] % (n + 1)]))
        return reply(self.document(name, direction, n))


class Known(object):
    """ What is known of an object of the code under test """

    def __init__(self, obj, name, pages, full, top=None):
        self.obj, self.name = obj, name
        #: pages which were read, by direction
        self.read = {"children": set(pages), "parents": set()}
        self.full = full
        self.kids = {}
        self.up = {}
        self.held = {}


class Reader(object):

    def __init__(self, nodes, endpoint, ctx):
        self.nodes, self.endpoint, self.ctx = nodes, endpoint, ctx
        self.known = []
        #: names whose complete metadata was read
        self.full = set()
        self.seen = 0
        self.partly = False

    def register(self, obj, name, pages=(), full=False):
        for k in self.known:
            if k.obj is obj:
                return k
        check_eq(obj.id, name, "identifier")
        out = Known(obj, name, pages, full)
        self.known.append(out)
        return out

    def requests(self):
        """ Requests since last time, as (name, direction, page) """
        out = []
        log = self.endpoint.asked["collections"]
        for asked in log[self.seen:]:
            check_eq(len(asked.pairs), len(asked.params), "repeated parameters of " + asked.url)
            out.append((asked.params.get("id"), asked.params.get("nav", "children"), int(asked.params.get("page", "1"))))
        self.seen = len(log)
        return out

    def unread(self, k, direction):
        if direction == "children" and not self.nodes.children[k.name]:
            return []
        return [(k.name, direction, n) for n, _ in self.nodes.pages(k.name, direction) if n not in k.read[direction]]

    def unread_below(self, k):
        out = self.unread(k, "children")
        for c in self.nodes.children[k.name]:
            if c in k.kids:
                out += self.unread_below(k.kids[c])
            else:
                # not created yet, or not seen yet
                for name in [c] + self.nodes.below(c):
                    if self.nodes.children[name]:
                        out += [(name, "children", n) for n, _ in self.nodes.pages(name, "children")]
        return out

    def spent(self, k, direction, allowed, what):
        """ Requests are among those allowed, each once """
        got = self.requests()
        extra = Counter(got) - Counter(allowed)
        check(not extra, "{}: asked again or without need {}: requests {}, pages not read before {}", what, sorted(extra, key=str), got, allowed)
        if direction:
            k.read[direction] |= {r[2] for r in got if r[1] == direction}
        return got

    # --- operations

    def saw_children(self, k, found, what, complete=True):
        """ found: {name: object} """
        expected = self.nodes.children[k.name]
        if complete:
            check_eq(list(found), expected, what + ": children")
        for name, obj in found.items():
            check(name in expected, "{}: {} is no child", what, name)
            check_eq(obj.id, name, what + ": key")
            if name in k.kids:
                check(k.kids[name].obj is obj, "{}: another object for the child {}", what, name)
            else:
                k.kids[name] = self.register(obj, name)
                k.kids[name].up[k.name] = k

    def children(self, k, op, what):
        how, obj, name = op["how"] % 10, k.obj, k.name
        expected = self.nodes.children[name]
        allowed = self.unread(k, "children")
        source = obj.children if op["n"] % 2 or "children" not in k.held else k.held["children"]
        if op["m"] % 3 == 0:
            k.held.setdefault("children", source)
        if how == 0:
            self.saw_children(k, dict(source.items()), what)
        elif how == 1:
            self.saw_children(k, {v.id: v for v in source.values()}, what)
        elif how == 2:
            check_eq(list(source.keys()), expected, what + ": keys")
        elif how == 3:
            check_eq(list(source), expected, what + ": iteration")
        elif how == 4:
            check_eq(len(source), len(expected), what + ": length")
        elif how == 5 and expected:
            target = expected[op["m"] % len(expected)]
            self.saw_children(k, {target: source[target]}, what, complete=False)
        elif how == 6:
            raises(KeyError, what + ": missing child", lambda: source[NOWHERE])
            check(source.get(NOWHERE) is None, "{}: get of a missing child", what)
        elif how == 7:
            for target in expected:
                check(target in source, "{}: {} is not in", what, target)
            check(NOWHERE not in source, "{}: {} is in", what, NOWHERE)
        elif how == 8:
            self.saw_children(k, {m.id: m for m in obj.members}, what)
        else:
            for target in expected:
                self.saw_children(k, {target: source.get(target)}, what, complete=False)
        got = self.spent(k, "children", allowed, what)
        self.partly = self.partly or (len(expected) > 1 and len(got) > 1)

    def parents(self, k, op, what):
        how, obj = op["how"] % 3, k.obj
        expected = self.nodes.parents[k.name]
        allowed = self.unread(k, "parents")
        source = obj.parents if op["n"] % 2 or "parents" not in k.held else k.held["parents"]
        if op["m"] % 3 == 0:
            k.held.setdefault("parents", source)
        if how == 0:
            check_eq(len(source), len(expected), what + ": number of parents")
        elif how == 1:
            for other in k.up.values():
                check(other.obj in source, "{}: {} is not in", what, other.name)
        if how != 1:
            found = list(source)
            check_eq(sorted(p.id for p in found), sorted(expected), what + ": parents")
            for p in found:
                if p.id in k.up:
                    check(k.up[p.id].obj is p, "{}: the parent {} is another object than the one which was read before", what, p.id)
                else:
                    k.up[p.id] = self.register(p, p.id)
        got = self.spent(k, "parents", allowed, what)
        self.partly = self.partly or (len(expected) > 1 and len(got) > 1)

    def adopt(self, k):
        """ Everything below is read now """
        k.read["children"] |= {n for n, _ in self.nodes.pages(k.name, "children")}
        before = self.seen
        self.saw_children(k, dict(k.obj.children.items()), "children of " + k.name)
        for other in k.kids.values():
            self.adopt(other)
        check_eq(len(self.endpoint.asked["collections"]), before, "requests for what was read already, below " + k.name)

    def below(self, k, op, what):
        how, obj, name = op["how"] % 6, k.obj, k.name
        below = self.nodes.below(name)
        allowed = self.unread_below(k)
        from MyCapytain.errors import UnknownCollection
        if how == 0:
            check(obj[name] is obj, "{}: item of its own identifier", what)
            self.spent(k, None, [], what)
            return
        if how == 1:
            raises(UnknownCollection, what + ": unknown item", lambda: obj[NOWHERE])
        elif how == 2:
            check(NOWHERE not in obj, "{}: {} is in", what, NOWHERE)
        elif how == 3 and below:
            target = below[op["m"] % len(below)]
            check_eq(obj[target].id, target, what + ": item")
            check(target in obj, "{}: {} is not in", what, target)
        elif how == 4:
            check_eq(sorted(d.id for d in obj.readableDescendants), sorted(n for n in below if self.nodes.models[n]["type"] == "Resource"), what + ": readable descendants")
        check_eq(sorted(d.id for d in obj.descendants), sorted(below), what + ": descendants")
        got = self.spent(k, None, allowed, what)
        self.partly = self.partly or len(got) > 1
        self.adopt(k)

    def retrieve(self, k, op, what):
        allowed = [] if k.full else [(k.name, "children", 1)]
        fault = op["fault"]
        if fault:
            if fault["kind"] in ("next", "loop"):
                # of the pages, which this does not read
                fault = dict(fault, kind="bare")
            self.nodes.fault = dict(fault, name=k.name, direction="children", page=0)
            kind, value = outcome(k.obj.retrieve)
            self.nodes.fault = None
            self.spent(k, None, allowed, what + ", with a fault")
            if not k.full:
                check(kind == "raised" and value != "CaseTimeout", "{}: fault {} gives {!r}", what, fault, value)
                self.ctx.label("fault in retrieve: " + fault["kind"])
            else:
                check_eq((kind, value), ("returned", True), what + ": already retrieved")
        check(k.obj.retrieve(), "{}: retrieve returns nothing", what)
        self.spent(k, None, allowed, what)
        k.full = True
        self.full.add(k.name)

    def describe(self, k, op, what):
        """ Titles, metadata, size, type: without request """
        obj, model = k.obj, self.nodes.models[k.name]
        full = k.name in self.full
        check_eq(obj.size, model["total"], what + ": size")
        check_eq(str(obj.type), HYDRA + model["type"], what + ": type")
        check_eq(obj.readable, model["type"] == "Resource", what + ": readable")
        check(str(obj.get_label()) in [t["text"] for t in model["titles"]], "{}: label is {!r}", what, obj.get_label())
        if full:
            dts.check_statements(obj, model, what)
            if k.full:
                check_eq(obj.citation.depth, dts.cite_depth(model), what + ": depth of the citation scheme")
        else:
            _, least = dts.expected_statements(self.nodes.brief(k.name))
            _, most = dts.expected_statements(model)
            got = {(str(p), dts.canon(o)) for p, o in obj.graph.predicate_objects(obj.asNode()) if str(p) not in dts._TEXTUAL}
            check(least <= got <= most, "{}: metadata before retrieval: lacks {}, has more {}", what, least - got, got - most)
        self.spent(k, None, [], what)


def run(case, ctx):
    from MyCapytain.errors import PaginationBrowsingError
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    from MyCapytain.resources.collections.dts import HttpResolverDtsCollection
    nodes = Nodes(case)
    trail = []
    with Endpoint(collections=nodes) as endpoint:
        resolver = HttpDtsResolver(ROOT)
        reader = Reader(nodes, endpoint, ctx)
        done = Counter()
        for n, op in enumerate(case["ops"]):
            name = op["op"]
            if not reader.known or name == "get":
                target = nodes.names[op["n"] % len(nodes.names)]
                ask = (None,) if target == nodes.names[0] and op["m"] % 2 else (target,)
                trail.append("get {}".format(ask[0]))
                if op["fault"] and op["fault"]["kind"] not in ("next", "loop"):
                    nodes.fault = dict(op["fault"], name=target, direction="children", page=0)
                    kind, value = outcome(lambda: resolver.getMetadata(*ask))
                    check(kind == "raised", "step {}, {}: fault {} gives {!r}", n, trail[-1], nodes.fault, value)
                    nodes.fault = None
                obj = resolver.getMetadata(*ask) if ask[0] else resolver.getMetadata()
                check(type(obj) is HttpResolverDtsCollection, "is a {}", type(obj))
                reader.requests()
                reader.full.add(target)
                # the first page came with it
                reader.register(obj, target, pages=[1], full=True)
                continue
            k = reader.known[op["on"] % len(reader.known)]
            what = "step {} after {}: {} {} of {}".format(n, trail, name, op["how"], k.name)
            trail.append("{} {} of {}".format(name, op["how"], k.name))
            fault = op["fault"]
            if fault and name in DIRECTIONS:
                nodes.fault = dict(fault, name=k.name, direction=name)
                allowed = reader.unread(k, name)
                kind, value = outcome(lambda: list(getattr(k.obj, name)))
                got = reader.requests()
                met = nodes.fault.get("met")
                nodes.fault = None
                extra = Counter(got) - Counter(allowed)
                check(not extra, "{} with a fault: asked again or without need {}: pages not read before {}", what, sorted(extra, key=str), allowed)
                if met:
                    check(kind == "raised", "{}: fault {} gives {!r}", what, fault, value)
                    if fault["kind"] in ("next", "loop"):
                        check_eq(value, "PaginationBrowsingError", what + ": fault {}".format(fault))
                    ctx.label("fault " + fault["kind"])
                    # the faulty reply may be asked again
                    k.read[name] |= {r[2] for r in got[:-1]}
                else:
                    k.read[name] |= {r[2] for r in got}
            getattr(reader, name)(k, op, what)
            done[name] += 1
            ctx.label(name)
        # in the end
        for k in list(reader.known):
            what = "at the end, after {}: {}".format(trail, k.name)
            op = {"how": 0, "n": 1, "m": 1}
            reader.children(k, op, what)
            reader.describe(k, op, what)
    ctx.nontrivial(reader.partly and len(done) > 1)


def _cases():
    fault = st.fixed_dictionaries({"kind": st.sampled_from(["status", "connection", "text", "nothing", "next", "loop"]), "page": st.integers(0, 3), "which": st.integers(0, 11)})
    node = st.fixed_dictionaries({
        "model": dts._one(False, st.just([])), "parents": st.lists(st.one_of(st.integers(0, 6), st.integers(0, 1)), min_size=1, max_size=3), "size": st.sampled_from([1, 1, 2, 3]), "empty_end": st.sampled_from([False, False, False, True]),
        "numbers": st.lists(st.integers(0, 15), max_size=3, unique=True), "lone_view": st.booleans(), "brief": st.sampled_from([True, True, False]), "form": view_forms()})
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["get", "children", "children", "children", "parents", "parents", "below", "retrieve", "describe"]), "on": st.integers(0, 30), "how": st.one_of(st.integers(0, 29), st.sampled_from([5, 5, 7, 9])), "n": st.integers(0, 11), "m": st.integers(0, 11),
        "fault": st.sampled_from([0, 0, 0, 1]).flatmap(lambda some: fault if some else st.none())})
    return st.fixed_dictionaries({
        "nodes": st.sampled_from([1, 2, 3, 4, 5, 6, 7, 5, 6, 7, 8]).flatmap(lambda n: st.lists(node, min_size=n, max_size=n)), "style": dts.styles(), "ops": st.integers(3, 14).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))})


# ------------------------------------------------------------------------------------------- long lists

def run_long(case, ctx):
    """ A collection with many members (or many parents), listed by pages of few of them """
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    plain = dict(case["model"], id=None, dublincore=[], extensions=[], links=[], cite=[], cite_depth=None, type="Collection")
    count = case["pages"] * case["size"]
    specs = [{"model": plain, "parents": [], "size": case["size"], "empty_end": False, "numbers": case["numbers"], "lone_view": False, "brief": True, "form": case["form"]}]
    many = [dict(specs[0], parents=[0], numbers=[]) for _ in range(count)]
    if case["direction"] == "parents":
        # one collection in all of the others
        many.append(dict(specs[0], parents=list(range(1, count + 1))))
    nodes = Nodes({"nodes": specs + many, "style": case["style"]})
    name = nodes.names[-1 if case["direction"] == "parents" else 0]
    with Endpoint(collections=nodes) as endpoint:
        obj = HttpDtsResolver(ROOT).getMetadata(name)
        check_eq(obj.id, name, "collection asked")
        found = obj.children.values() if case["direction"] == "children" else obj.parents
        check_eq(Counter(c.id for c in found), Counter(nodes.related(name, case["direction"])), "{} of a collection which has {} pages of them".format(case["direction"], case["pages"]))
        asked = Counter(a.params.get("page", "1") for a in endpoint.asked["collections"] if a.params.get("nav", "children") == case["direction"])
        check_eq(asked, Counter(str(number) for number, _ in nodes.pages(name, case["direction"])), "pages asked")
    ctx.label(case["direction"])
    ctx.nontrivial(case["pages"] > 20)


def _long_cases():
    return st.fixed_dictionaries({
        "model": dts._one(False, st.just([])), "pages": st.one_of(st.integers(9, 60), st.integers(60, 130)), "size": st.sampled_from([1, 1, 2, 3]), "direction": st.sampled_from(DIRECTIONS),
        "numbers": st.lists(st.integers(0, 15), max_size=2, unique=True), "form": view_forms(), "style": dts.styles()})


SUBS = [Sub("lazy", _cases, run, quick=1200, thorough=24000, rule="several pages are read for one collection, among operations of several kinds"),
        Sub("long", _long_cases, run_long, quick=24, thorough=400, rule="more than twenty pages")]
ASSUMPTIONS = ["identifiers are absolute (known finding relative-members of C20)", "what a listing says of a collection is part of what the endpoint says of it when asked",
               "comparing a lazy view with == does not fetch (asserted by the tests of the repository)"]
