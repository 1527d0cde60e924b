""" C25 -- the CTS retriever asks exactly what it was asked to ask """
from collections import Counter

from hypothesis import strategies as st

from .. import common
from ..engine import Sub, check, check_eq, raises
from ..wire import Wire
from .c22 import outcome

ENDPOINTS = [("http://cts.example.org/api/cts", []), ("https://cts.example.org:8080/a%20b/CTS.xq?", []), ("http://cts.example.org/rest?key=a%26b+c", [("key", "a&b c")]),
             ("http://cts.example.org", []), ("http://cts.example.org/", [])]
#: name of the method: name of the request, parameters
METHODS = {
    "getCapabilities": ("GetCapabilities", ["inventory", "urn"]), "getValidReff": ("GetValidReff", ["urn", "inventory", "level"]),
    "getFirstUrn": ("GetFirstUrn", ["urn", "inventory"]), "getPrevNextUrn": ("GetPrevNextUrn", ["urn", "inventory"]), "getLabel": ("GetLabel", ["urn", "inventory"]),
    "getPassage": ("GetPassage", ["urn", "inventory", "context"]), "getPassagePlus": ("GetPassagePlus", ["urn", "inventory", "context"]),
}
SENT = {"inventory": "inv"}
COMMON = ["getMetadata", "getTextualNode", "getSiblings", "getReffs"]
BODY = "<r>Arma & ἄνδρα été “x” \x85\n</r>"
DECLARATIONS = [("", None), ("", None), ("<?xml version=\"1.0\"?>\n", None), ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "utf-8"),
                ("<?xml version='1.0' encoding='ISO-8859-1' standalone='yes'?>", "iso-8859-1"), ("<?xml version=\"1.0\" encoding=\"windows-1253\"?>\n\n", "windows-1253")]
HEADERS = [("text/xml; charset=utf-8", "utf-8"), ("text/xml; charset=\"utf-8\"", "utf-8"), ("application/xml", "utf-8"), ("text/xml", "utf-8"), ("TEXT/XML; Charset=UTF-8", "utf-8"),
           (None, "utf-8"), ("text/xml; charset=iso-8859-1", "iso-8859-1"), ("text/plain; charset=windows-1252", "windows-1252"), ("application/xml; charset=utf-16", "utf-16"),
           ("text/html", "utf-8"), ("text/xml; charset=iso-8859-7", "iso-8859-7"), ("application/xml; version=1.0", "utf-8"), ("text/xml;charset=ISO-8859-1", "iso-8859-1")]


def run(case, ctx):
    import requests
    from MyCapytain.common.reference import CtsReference, URN
    from MyCapytain.retrievers.cts5 import HttpCtsRetriever
    url, own = ENDPOINTS[case["endpoint"] % len(ENDPOINTS)]
    state = {}

    def handler(asked):
        return state["status"], ({"Content-Type": state["type"]} if state["type"] else {}), state["body"]

    retriever = HttpCtsRetriever(url, case["inventory"]) if case["inventory"] is not None else HttpCtsRetriever(url)
    check_eq(retriever.endpoint, url, "endpoint")
    inventory = case["inventory"]
    with Wire(handler) as wire:
        for n, op in enumerate(case["ops"]):
            content, encoding = HEADERS[op["header"] % len(HEADERS)]
            declaration, declared = DECLARATIONS[op["declaration"] % len(DECLARATIONS)]
            if "charset" not in (content or "").lower() and declared is not None:
                # the header says nothing: the document does
                encoding = declared
            text = declaration + BODY
            body = text.encode(encoding, "ignore")
            state.update(status=op["status"], type=content, body=body)
            if op["inventory"] is not None:
                # another inventory from now on
                retriever.inventory = inventory = op["inventory"][0]
                ctx.label("inventory changed")
            check_eq(retriever.inventory, inventory, "inventory of the retriever")
            name, values = op["method"], op["values"]
            given, expected = {}, {}
            if name in METHODS:
                request, params = METHODS[name]
                for p in params:
                    value = values.get(p)
                    if value is None and (p != "urn" or name == "getCapabilities"):
                        if op["explicit"]:
                            given[p] = None
                        continue
                    value = "urn:cts:a:b" if value is None else value
                    expected[SENT.get(p, p)] = str(value)
                    given[p] = value
                if op["object"] and name != "getCapabilities":
                    given["urn"] = URN("urn:cts:latinLit:phi1294.phi002.perseus-lat2:1.1@a[2]-1.3")
                    expected["urn"] = str(given["urn"])
                positional = [given.pop("urn")] if op["positional"] and params[0] == "urn" else []
                what = "step {}: {}({!r}, {!r})".format(n, name, positional, given)
                fn = lambda: getattr(retriever, name)(*positional, **given)
            else:
                text_id = values.get("urn") or "urn:cts:a:b.c.d"
                ref = CtsReference(op["ref"]) if op["object"] else op["ref"]
                if name == "getMetadata":
                    request = "GetCapabilities"
                    if values.get("urn") is not None:
                        how = op["level"]
                        given = {"objectId": text_id} if how == 1 else {"urn": text_id}
                        positional = ()
                        if how == 2:
                            given, positional = {}, (text_id,)
                        expected["urn"] = text_id
                    else:
                        positional = ()
                        if op["explicit"]:
                            given["objectId"] = None
                    if values.get("inventory") is not None:
                        given["inv" if op["flags"][0] else "inventory"] = values["inventory"]
                        expected["inv"] = values["inventory"]
                    fn = lambda: retriever.getMetadata(*positional, **given)
                elif name == "getTextualNode":
                    flags = {k: True for k, v in zip(("prevnext", "metadata"), op["flags"]) if v}
                    request = "GetPassagePlus" if flags else "GetPassage"
                    expected["urn"] = text_id if ref is None else "{}:{}".format(text_id, ref)
                    given = dict(flags) if ref is None and not op["explicit"] else dict(flags, subreference=ref)
                    fn = lambda: retriever.getTextualNode(text_id, **given)
                elif name == "getSiblings":
                    ref = ref if ref is not None else "1.1"
                    request, expected["urn"] = "GetPrevNextUrn", "{}:{}".format(text_id, ref)
                    given = {"subreference": ref}
                    fn = lambda: retriever.getSiblings(text_id, ref) if op["positional"] else retriever.getSiblings(textId=text_id, subreference=ref)
                else:
                    request, expected["urn"] = "GetValidReff", text_id if ref is None else "{}:{}".format(text_id, ref)
                    level = 1 if op["explicit"] else op["level"]
                    expected["level"] = str(level + (0 if ref is None else len(str(ref).partition("-")[0].partition("@")[0].split("."))))
                    given = {} if op["explicit"] else {"level": level}
                    if ref is not None:
                        given["subreference"] = ref
                    fn = lambda: retriever.getReffs(text_id, **given)
                what = "step {}: {}({!r}, {!r})".format(n, name, text_id, given)
            expected["request"] = request
            if inventory is not None:
                expected.setdefault("inv", inventory)
            before = len(wire.log)
            if op["status"] >= 400:
                raises(requests.HTTPError, "{} with status {}".format(what, op["status"]), fn)
                ctx.label("HTTP error")
            else:
                kind, got = outcome(fn)
                if kind == "raised":
                    fn()
                check_eq(got, body.decode(encoding), "{}: reply sent as {!r} ({})".format(what, content, encoding))
                check(type(got) is str, "{}: a {} is returned", what, type(got))
            check_eq(len(wire.log), before + 1, what + ": number of requests")
            asked = wire.log[-1]
            check_eq(asked.method, "GET", what + ": method")
            check_eq(asked.base.rstrip("/"), url.partition("?")[0].rstrip("/"), what + ": address")
            check_eq(Counter(asked.pairs), Counter(own + list(expected.items())), what + ": parameters")
            check(not asked.body and not asked.fragment, "{}: {!r} {!r}", what, asked.body, asked.fragment)
            ctx.label(name)
    ctx.nontrivial(len({op["method"] for op in case["ops"]}) > 1 and any(v and not v.isascii() or v and set("&=#+ %?") & set(v) for op in case["ops"] for v in op["values"].values()
                                                                          if isinstance(v, str)))


_CHARS = ["a", "1", "&", "=", "?", "#", "%", "+", " ", "é", "Ἀ", "/", ":", "@", "[", "]", "'", '"', "\n", "%20", "&inv=x", "中", "😀", "<", ";", ",", ".", "-", "~", "\\", "|", "{}"]


def _cases():
    text = st.one_of(st.sampled_from(["urn:cts:latinLit:phi1294.phi002.perseus-lat2:1.1@Hic[1]-1.2", "urn:cts:greekLit:tlg0012.tlg001:1@μῆνιν", "annotsrc", "urn:cts:a:b.c.d"]),
                     st.lists(st.sampled_from(_CHARS), min_size=1, max_size=6).map("".join))
    number = st.one_of(st.none(), st.integers(0, 12))
    op = st.fixed_dictionaries({
        "method": st.sampled_from(sorted(METHODS) + COMMON), "values": st.fixed_dictionaries({
            "urn": st.one_of(st.none(), text, text, text), "inventory": st.one_of(st.none(), text), "level": number, "context": number}),
        "explicit": st.booleans(), "object": st.booleans(), "positional": st.booleans(), "level": st.integers(1, 3), "flags": st.tuples(st.booleans(), st.booleans()).map(list),
        "ref": st.sampled_from([None, "1", "1.1", "1.pr.3", "1.1-1.2", "1.1@Hic[1]", "α.β", "1.1@a-1.3@b[2]"]), "status": st.sampled_from([200, 200, 200, 200, 201, 400, 401, 404, 418, 500, 503]),
        "header": st.integers(0, len(HEADERS) - 1), "inventory": st.sampled_from([None] * 5 + [["other"], ["my inv & more"], [None]]),
        "declaration": st.integers(0, len(DECLARATIONS) - 1)})
    return st.fixed_dictionaries({"endpoint": st.integers(0, len(ENDPOINTS) - 1), "inventory": st.one_of(st.none(), text), "ops": st.lists(op, min_size=2, max_size=8)}) \
        .map(lambda c: dict(c, ops=[dict(o, object=o["object"] and (o["method"] in METHODS or o["ref"] is not None)) for o in c["ops"]]))


SUBS = [
    Sub("requests", _cases, run, quick=6000, thorough=60000, rule="different methods, and values which need to be escaped in a URL"),
]
