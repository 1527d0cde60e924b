""" Simulated DTS endpoint: answers from plain data, and remembers what it was asked """
import json
from urllib.parse import quote

from .dts import HYDRA
from .engine import HarnessError
from .wire import Wire

ROOT = "http://foobar.com/api/dts"
JSON_LD = {"Content-Type": "application/ld+json; charset=utf-8"}


def reply(data, status=200):
    return status, dict(JSON_LD), json.dumps(data).encode("utf-8")


def page_url(route, identifier, page, form, first=None):
    """ URL of a page as endpoints write it. Other parameters hold misleading texts """
    encoded = identifier if form["raw"] and not set("#&?%") & set(identifier) else quote(identifier, safe="")
    params = [("id", encoded)]
    params.insert(form["at"] % 2, ("page", quote(str(page), safe="")))
    if form["noise"]:
        params.insert(form["at"] % 3, [("npage", "77"), ("page_size", "20"), ("q", "page=78"), ("q", quote("a&page=79", safe=""))][form["noise"] % 4])
    base = [ROOT + "/" + route, "/api/dts/{}/".format(route), "https://other.org/page=76/" + route][form["base"] % 3]
    return base + "?" + "&".join("{}={}".format(k, v) for k, v in params) + ("#members" if form["fragment"] else "")


def view(writer, route, identifier, before, page, after, last, form):
    """ hydra:view of a page; `after` is the next page (None: the last one) or a text put as it is """
    links = {"first": 1, "previous": before, "next": after, "last": last}
    out = {writer.kw("@id"): page_url(route, identifier, page, form), writer.kw("@type"): writer.name(HYDRA + "PartialCollectionView")}
    for name, n in links.items():
        if n is None and not (name == "next" and form["null"]):
            continue
        if n is not None:
            url = n["text"] if isinstance(n, dict) else page_url(route, identifier, n, form)
            key = writer.name(HYDRA + name)
            if form["link"] == 1 or (form["link"] == 2 and name == "next"):
                n = {writer.kw("@id"): url}
            elif form["link"] == 3 and key != HYDRA + name:
                writer.context[key] = {"@id": HYDRA + name, "@type": "@id"}
                n = url
            else:
                n = url
        out[writer.name(HYDRA + name)] = n
    return {writer.name(HYDRA + "view"): [out] if form["listed"] else out}


def view_forms():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"raw": st.booleans(), "at": st.integers(0, 5), "noise": st.integers(0, 4), "base": st.integers(0, 2), "null": st.booleans(), "fragment": st.sampled_from([False, False, False, True]), "link": st.sampled_from([0, 0, 1, 2, 3]),
                                  "listed": st.booleans()})


class Endpoint(Wire):
    """ Context of a DTS endpoint at ROOT

    :param routes: for each route, function of Asked which returns (status, headers, bytes)
    :ivar asked: for each route, the requests
    """

    def __init__(self, **routes):
        super(Endpoint, self).__init__(self.answer)
        self.routes = routes
        self.asked = {name: [] for name in ("entry", "collections", "navigation", "documents")}

    def answer(self, asked):
        if asked.base.rstrip("/") == ROOT:
            self.asked["entry"].append(asked)
            return reply({"@context": "/dts/api/contexts/EntryPoint.jsonld", "@id": "/api/dts/", "@type": "EntryPoint", "collections": "/api/dts/collections", "documents": "/api/dts/documents",
                          "navigation": "/api/dts/navigation"})
        for name in self.routes:
            if asked.base == ROOT + "/" + name:
                self.asked[name].append(asked)
                return self.routes[name](asked)
        raise HarnessError("nothing answers " + asked.url)
