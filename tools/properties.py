""" Source of /verif/properties.jsonl and /verif/MANIFEST.json (python3 tools/properties.py) """
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "MyCapytain/common/reference/"
LOCAL = "MyCapytain/resources/texts/local/capitains/cts.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, level_note=""):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe or [], "state": state or [], "hook_needed": None},
        "_note": level_note})


prop("C01", "CTS passage references keep and expose exactly what was written",
     "A CTS passage reference (single or range, any depth, with or without @word[n] subreferences) prints as it was "
     "written and exposes its start, end, levels, depth, subreference and highest end accordingly, whichever way it "
     "was built, and survives copying and pickling. Its parent drops exactly the last level of each end (None at the "
     "first level). Equality, hashing and membership/index in a reference set follow the written form.",
     ["inputs"], "every well-formed reference: 1-5+ levels, unicode identifiers, subreferences, mixed-depth ranges",
     "tests look at a dozen literal references; parents of deep or mixed ranges, copies and single-member sets are not exercised",
     [REF + "_capitains_cts.py", REF + "_base.py"],
     [("CtsReference / CtsSinglePassageId / CtsWordReference", REF + "_capitains_cts.py"),
      ("BaseReference, BaseReferenceSet", REF + "_base.py")],
     ["str, start, end, list, depth, parent, highest, subreference, ==, hash, in, index"])

prop("C02", "CTS URNs decompose, truncate, recompose and compare consistently",
     "Parsing a CTS URN yields its namespace, textgroup, work, version and passage; every truncation is exactly the URN "
     "of that part and asking for a part it lacks raises KeyError. After any sequence of edits of its components the "
     "URN prints and truncates as the URN made of the current components. Equality follows the text, order and length "
     "follow the number of components (passage excluded), a fragment is ignored, and too short a URN raises ValueError.",
     ["inputs", "histories"], "every URN from namespace level to passage ranges; every sequence of setter calls and reads",
     "tests set each component once on one URN, and truncate a few literal URNs",
     [REF + "_capitains_cts.py"], [("URN.__parse__, URN.upTo, URN.__str__, setters", REF + "_capitains_cts.py")],
     ["URN properties, str(), upTo(), len(), comparisons"],
     [{"name": "cached string", "meaning": "printed form, dropped by setters", "where": REF + "_capitains_cts.py URN"}])

prop("C03", "CTS citation schemes: declaration, scope/xpath, filling and hierarchy agree",
     "The reference declaration of a citation and its scope+xpath pair are two forms of the same thing: each gives the other, and "
     "replacing one half keeps the other. Filling puts the given identifiers, in order, in place of the placeholders "
     "(None: any value) and changes nothing else. However a scheme was assembled, each level knows its descendants, "
     "its depth and the common root, and matching a reference returns the level of its depth.",
     ["inputs", "configurations"], "schemes of 1-11 levels, / or // steps, extra predicates, wrappers, both quote styles; every way of assembling them",
     "tests use four or five literal declarations of two levels",
     [REF + "_capitains_cts.py", REF + "_base.py"],
     [("Citation.fill, _parseXpathScope, _fromScopeXpathToRefsDecl, match", REF + "_capitains_cts.py"),
      ("BaseCitationSet.children, BaseCitation.root", REF + "_base.py")],
     ["refsDecl, scope, xpath, attribute, fill(), match(), root, depth, len, iteration, indexing"])

prop("C04", "A citation scheme survives export and ingestion",
     "Exporting a citation scheme to CTS inventory XML gives well-formed XML which is ingested back as the same chain of levels "
     "with the same names and declarations (up to quote style), and exporting each level as a TEI cRefPattern and ingesting "
     "the patterns does too; the exported match pattern accepts references of its level. An unset citation exports as nothing.",
     ["inputs"], "schemes of 1-11 levels with arbitrary names (including characters special to XML) and predicates, exported from any level",
     "tests compare two exports with literal strings and never read an export back",
     [REF + "_capitains_cts.py", "MyCapytain/resources/collections/cts.py", "MyCapytain/common/utils/xml.py"],
     [("Citation.__export__, Citation.ingest", REF + "_capitains_cts.py"),
      ("XmlCtsCitation.ingest", "MyCapytain/resources/collections/cts.py"), ("make_xml_node", "MyCapytain/common/utils/xml.py")],
     ["export(Mimetypes.XML.CTS), export(Mimetypes.XML.TEI), ingest()"])

prop("C05", "DTS citation structures and DTS references keep their structure",
     "Ingesting a DTS citeStructure (compacted or expanded, one or several alternatives per level) yields a citation "
     "set with exactly these citations, in document order, with the right depth, size, levels (from the top and from the bottom, of the set and of each citation) "
     "and root; exporting it to DTS JSON and ingesting the result gives it back. DTS references compare by start, end "
     "and type, carry their own metadata, and reference sets keep members in order and compare by members, level and citation.",
     ["inputs"], "forests of up to 4 levels with any branching; reference sets of any size including one",
     "tests ingest three literal structures; equality of nested citations and one-member sets are not exercised",
     [REF + "_dts_1.py", REF + "_base.py"],
     [("DtsCitationSet.ingest, DtsCitation.__eq__, DtsReference, DtsReferenceSet", REF + "_dts_1.py"),
      ("BaseCitationSet.__getitem__, depth, __export__", REF + "_base.py")],
     ["ingest(), export(Mimetypes.JSON.DTS.Std), depth, len, iteration, indexing, =="])

prop("C06", "Valid references of a local text are complete, ordered and exact",
     "For a text and its citation scheme, listing references at a level returns exactly the identifiers of the citable "
     "units of that level, in document order and without invention; below a given reference, exactly those it contains; "
     "within a range, exactly those from its start to its end at the level asked. Asking deeper than the scheme raises a citation "
     "depth error, an unknown reference raises KeyError, and duplicates or empty identifiers are reported in debug mode.",
     ["inputs"], "generated TEI documents (depth 1-4, / and // steps, wrappers, notes, comments, extra predicates, unicode identifiers) x every level x references and ranges, with both XML parsers",
     "tests look at a handful of fixed classical texts with regular numbering",
     [LOCAL], [("_SharedMethods.getReffs / getValidReff", LOCAL)], ["getReffs(), getValidReff()"])

prop("C07", "Retrieving one passage returns exactly that passage",
     "For any citable unit, retrieving it by reference (string, reference or list of levels) returns a passage whose content is "
     "exactly the content of that unit, under copies of its ancestors with their attributes and nothing else in it; the lightweight "
     "retrieval returns the same content. Retrieval with no reference returns the whole text, too deep a reference raises a "
     "citation depth error, an unknown one raises, and the text itself is never changed.",
     ["inputs"], "generated TEI documents x every citable unit at every level x both retrieval modes x both XML parsers",
     "tests retrieve some dozens of references out of three texts",
     [LOCAL, "MyCapytain/common/utils/xml.py"],
     [("getTextualNode, _getSimplePassage", LOCAL), ("passageLoop, copyNode, performXpath", "MyCapytain/common/utils/xml.py")],
     ["getTextualNode(), export()"])

prop("C08", "Retrieving a range returns exactly what lies from its start to its end",
     "For any two citable units in document order, of equal or different levels, retrieving the range between them returns "
     "all the units from the start to the end included, each with its full content, in order, and nothing before the start or after the end; "
     "reading the result with the same scheme lists exactly these units. This does not depend on the content of the units (identical, numeric, empty, mixed). Ranges whose ends are deeper than the text or unknown raise errors.",
     ["inputs"], "generated TEI documents x pairs of units (same parent, different parents, different levels) including identical content, comments and notes between units",
     "tests retrieve a few ranges whose units have distinct content",
     [LOCAL, "MyCapytain/common/utils/xml.py"],
     [("getTextualNode", LOCAL), ("passageLoop", "MyCapytain/common/utils/xml.py")], ["getTextualNode(range), export()"])

prop("C09", "Navigation from passage to passage follows the document",
     "From any passage, previous and next are the adjacent unit(s) of the same level in document order across parents (None at the ends); for a range, "
     "the adjacent windows of the same size, clipped at the ends of the text. Children, first and last are the units directly below, in order. "
     "Walking next from the first unit visits every unit of the level once; ranges between different levels refuse to navigate.",
     ["inputs", "histories"], "every unit and generated ranges of generated documents; walks over whole levels",
     "tests step a few times at chosen places of two texts",
     [LOCAL, "MyCapytain/resources/prototypes/text.py"],
     [("siblingsId, nextId, prevId, childIds, next, prev", LOCAL), ("InteractiveTextualNode", "MyCapytain/resources/prototypes/text.py")],
     ["prevId, nextId, siblingsId, next, prev, childIds, firstId, lastId, children, first, last"])

prop("C10", "Exports of a text or passage keep its words and structure",
     "Plain text holds all the text of the resource in document order, minus the text inside the excluded elements, joined with the chosen "
     "separator and with runs of spaces collapsed; XML and tree exports are the resource itself; the nested dictionary maps every deepest reference, in order, "
     "to the plain text of that unit. The same holds for remote passages; formats which are not supported raise NotImplementedError.",
     ["inputs"], "generated mixed content (nested notes, comments, whitespace, entities) x exclude lists x separators x object kinds",
     "tests compare a few literal exports",
     ["MyCapytain/resources/texts/base/tei.py", "MyCapytain/common/base.py", "MyCapytain/common/utils/_generic.py"],
     [("TeiResource.__export__", "MyCapytain/resources/texts/base/tei.py"), ("Exportable.export", "MyCapytain/common/base.py")],
     ["export(), text, str(), xml"])

prop("C11", "Answers of a local text do not depend on what was asked before",
     "Whatever sequence of listing, retrieval, navigation, export and failing requests was made on a text and on passages obtained from it, each "
     "answer equals the answer of a freshly parsed text to the same request, and the parsed XML is left unchanged.",
     ["histories"], "random sequences of up to 15 operations over one text and the passages it returned, each compared with a fresh text",
     "each test asks one or two questions to a fresh object",
     [LOCAL, "MyCapytain/resources/prototypes/text.py"], [("cached siblings / children ids, shared XML tree", LOCAL)],
     ["every public method of texts and passages"])

prop("C12", "Metadata behave as a multi-valued, language-aware store per object",
     "After any sequence of set, add, remove and unlink, the values read back for a key (all, by language, or single with fallback "
     "on another language) are exactly those of a plain model, per object: no operation on an object changes what another object holds.",
     ["histories"], "random sequences of operations over several objects, with literals, language literals, numbers, URIs, blank nodes",
     "tests add a few values to one or two objects",
     ["MyCapytain/common/metadata.py"], [("Metadata.set/add/get/get_single/remove/unlink", "MyCapytain/common/metadata.py")],
     ["Metadata API"])

prop("C13", "Metadata exports contain exactly the selected statements",
     "Exporting metadata (JSON, RDF/XML, JSON-LD, CapiTainS XML) gives exactly the statements of the object, restricted to the predicates or namespaces "
     "of only, or without those of exclude; RDF exports parse back to the same statements and the XML one to the same values and languages. Exporting changes "
     "neither the metadata nor the arguments.",
     ["inputs"], "generated statement sets x selections by predicate or namespace x formats",
     "tests compare one literal export per format",
     ["MyCapytain/common/metadata.py"], [("Metadata.__export__", "MyCapytain/common/metadata.py")], ["Metadata.export()"])

prop("C14", "Parsing a CTS inventory yields exactly what the document says",
     "Parsing inventory XML (full inventory, textgroup, work or text documents) yields collections with exactly the textgroups, works, editions, "
     "translations and commentaries of the document under the right parents, with their URNs, languages, labels and descriptions per language, "
     "citation schemes, links and structured metadata.",
     ["inputs"], "generated inventories: several textgroups/works/versions, several languages, missing optional parts, special characters, typed structured metadata",
     "tests parse three fixed documents",
     ["MyCapytain/resources/collections/cts.py", "MyCapytain/resources/prototypes/cts/inventory.py"],
     [("XmlCts*Metadata.parse", "MyCapytain/resources/collections/cts.py")], ["parse() and the collection API"])

prop("C15", "A CTS inventory survives export and parsing",
     "Exporting an inventory, textgroup, work or text to CTS XML or CapiTainS XML gives well-formed XML which parses back to the same tree of URNs, languages, "
     "labels, descriptions, links and citation schemes, and for CapiTainS XML the same structured metadata with their language or datatype; exporting again gives the same.",
     ["inputs"], "generated inventories as in C14, exported from every level",
     "tests compare exports with literal strings or check their type only",
     ["MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/resources/collections/cts.py", "MyCapytain/common/metadata.py"],
     [("__export__, __xml_export_generic__", "MyCapytain/resources/prototypes/cts/inventory.py")], ["export(), parse()"])

prop("C16", "Collections form a consistent tree under every operation",
     "After any sequence of creations, additions, removals and lookups, members, descendants, readable descendants, parents, size, containment and item access of every collection "
     "agree with the tree the operations describe; item access finds any descendant (or the object itself) by identifier and raises UnknownCollection otherwise; labels, "
     "titles and readability stay those of each object. Two collections are equal when they are of the same kind and have the same identifier.",
     ["histories"], "random sequences of operations on trees of CTS and generic collections",
     "tests look at one or two static trees",
     ["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/prototypes/cts/inventory.py"],
     [("Collection.__getitem__, __delitem__, __contains__, descendants, parents", "MyCapytain/resources/prototypes/metadata.py")],
     ["Collection API"])

prop("C17", "Merging CTS collections is a union by identifier",
     "Adding up collections describing the same textgroup or work gives the union of their works and texts by URN, keeping metadata of both; merging is idempotent, does not depend on order or grouping as "
     "to the set of objects it holds, leaves an added textgroup untouched, gives every merged object one consistent parent, and refuses collections with different URNs.",
     ["inputs", "histories"], "generated families of overlapping textgroups and works, merged in random order and grouping",
     "tests merge one pair of collections",
     ["MyCapytain/resources/prototypes/cts/inventory.py"], [("update()", "MyCapytain/resources/prototypes/cts/inventory.py")], ["update()"])

prop("C18", "The dispatcher files every text under the right collection",
     "For any set of registered filters, dispatching a collection adds it under the inventory of the last registered filter which accepts it, or under the default one if none does, and nowhere else; "
     "when there is no default it raises the undispatched error. Registered inventories stay reachable and the general collection holds all of them.",
     ["inputs", "histories"], "random filter sets and sequences of dispatched collections",
     "tests dispatch one corpus with a handful of filters",
     ["MyCapytain/resolvers/utils.py"], [("CollectionDispatcher", "MyCapytain/resolvers/utils.py")], ["CollectionDispatcher.dispatch()"])

prop("C19", "Collections exported to DTS JSON or RDF describe the collection",
     "The DTS JSON export of a collection is valid JSON-LD which states its identifier, type, title, description, size, members, citation structure and metadata with their language or datatype, and parses back as a DTS collection with the same "
     "content, whichever prefixes a given namespace manager asks for; RDF exports parse as graphs which hold the statements of the collection and none which is not its own or of what it is linked to.",
     ["inputs"], "generated CTS inventories and DTS collections exported from every level",
     "tests compare a few literal exports",
     ["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/collections/dts/_base.py"],
     [("Collection.__export__", "MyCapytain/resources/prototypes/metadata.py")], ["export(Mimetypes.JSON.DTS.Std / JSON.LD / XML.RDF)"])

prop("C20", "Parsing a DTS collection yields exactly what the document says",
     "Parsing the JSON-LD of a DTS collection, whatever equivalent JSON-LD form it takes, yields its identifier, type, titles, descriptions, size, readability, dublincore and extension metadata with languages, citation structure, "
     "and its members as children or as parents according to the navigation direction.",
     ["inputs"], "generated DTS collection documents in several equivalent JSON-LD forms",
     "tests parse a few documents of the DTS specification",
     ["MyCapytain/resources/collections/dts/_base.py", "MyCapytain/common/utils/dts.py", "MyCapytain/common/utils/_json_ld.py"],
     [("DtsCollection.parse", "MyCapytain/resources/collections/dts/_base.py"), ("parse_metadata", "MyCapytain/common/utils/dts.py")], ["DtsCollection.parse()"])

prop("C21", "The local resolver knows exactly the texts of its directories",
     "Loading one or several CapiTainS directories gives an inventory with exactly the textgroups, works and texts they announce, merged over directories whatever their order and encodings, each text with the "
     "citation scheme of its file; texts whose file is missing or unusable are never found by queries and do not hide or lose the others, including the same text in another directory.",
     ["inputs", "configurations"], "generated directory trees: split over several directories, overlapping, missing files, texts without scheme",
     "tests load one fixed corpus",
     ["MyCapytain/resolvers/cts/local.py"], [("CtsCapitainsLocalResolver.parse", "MyCapytain/resolvers/cts/local.py")], ["CtsCapitainsLocalResolver.inventory / texts"])

prop("C22", "The local resolver serves texts as the texts themselves would",
     "Through the resolver, references, siblings and passages of any text equal those of the text read directly, with the metadata of its edition, work and textgroup attached; a work URN serves one of its own usable editions; unknown objects raise.",
     ["inputs"], "generated corpora x texts x levels, references, ranges",
     "tests query a fixed corpus at a few places",
     ["MyCapytain/resolvers/cts/local.py"], [("getTextualNode, getReffs, getSiblings, __getText__", "MyCapytain/resolvers/cts/local.py")],
     ["getTextualNode(), getReffs(), getSiblings()"])

prop("C23", "Inventory queries and paging of the local resolver are exact",
     "Looking up metadata by identifier returns that object; filtering texts by textgroup, work, language, category or text yields exactly the matching texts; pages partition the list: consecutive pages are disjoint, ordered, "
     "of the size asked except the last, and their union is the whole list.",
     ["inputs"], "generated corpora x filters x page sizes and numbers",
     "tests use a few filters and pages on one corpus",
     ["MyCapytain/resolvers/cts/local.py"], [("getMetadata, __getTextMetadata__, pagination", "MyCapytain/resolvers/cts/local.py")], ["getMetadata(), pagination()"])

prop("C24", "The CTS HTTP resolver returns what the endpoint says",
     "Against a CTS endpoint, the resolver and the texts and passages it returns give exactly the references, passages, neighbours, children, labels and inventory the endpoint holds for the object asked, "
     "and navigating from a passage asks for the right neighbours. CTS error and HTTP error replies surface as errors and never as data.",
     ["inputs", "histories", "fault_sequences"], "a simulated CTS endpoint over generated texts x sequences of requests x injected error replies",
     "tests replay a few recorded replies",
     ["MyCapytain/resolvers/cts/api.py", "MyCapytain/resources/texts/remote/cts.py"],
     [("HttpCtsResolver", "MyCapytain/resolvers/cts/api.py"), ("CtsText, CtsPassage", "MyCapytain/resources/texts/remote/cts.py")], ["HttpCtsResolver API"])

prop("C25", "The CTS retriever asks exactly what it was asked to ask",
     "Each CTS retriever method issues one GET to its endpoint with the request name and exactly the given parameters (those left out are not sent, the default inventory is added where CTS takes one), "
     "values being transported unchanged whatever characters they hold; replies are returned as text with the encoding they declare and HTTP errors raise.",
     ["inputs", "fault_sequences"], "all methods x argument combinations x special characters x reply encodings and error statuses",
     "tests look at one call per method",
     ["MyCapytain/retrievers/cts5.py", "MyCapytain/retrievers/prototypes.py"], [("HttpCtsRetriever.call", "MyCapytain/retrievers/cts5.py")], ["HTTP requests"])

prop("C26", "DTS reference listing collects all pages in order",
     "Listing references of a DTS resource returns every reference of every page of the reply, in order and once, with level, citation type and metadata as sent by the endpoint, whatever the page sizes, asking each page once; "
     "a page which cannot be read raises a pagination error and never silently truncates.",
     ["inputs", "fault_sequences"], "simulated DTS navigation endpoint x page sizes x reference shapes (ranges, typed, titled) x request options x injected faults",
     "tests replay two recorded page sequences",
     ["MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/common/utils/_http.py"], [("HttpDtsResolver.getReffs", "MyCapytain/resolvers/dts/api_v1.py")], ["HttpDtsResolver.getReffs()"])

prop("C27", "DTS collections fetched lazily equal the collections of the endpoint",
     "Whatever the order in which children, parents, titles and metadata are read, a DTS collection obtained from an endpoint shows exactly the children and parents the endpoint has for it over all pages, fetching each page and the metadata at most once, also when requests failed in between; "
     "going down then up comes back to the same objects, and reading again gives the same objects.",
     ["histories", "inputs"], "simulated DTS collection endpoint (generated DAG, paged) x random read sequences",
     "tests follow two recorded sequences",
     ["MyCapytain/resources/collections/dts/_resolver.py", "MyCapytain/resolvers/dts/api_v1.py"],
     [("HttpResolverDtsCollection, PaginatedProxy", "MyCapytain/resources/collections/dts/_resolver.py")], ["HttpDtsResolver.getMetadata()"])

prop("C28", "A DTS document exposes the passage and the links the endpoint sent",
     "A passage fetched from a DTS document endpoint has exactly the content sent, and its previous, next and parent references are those of the links of the reply, each absent when the reply does not have it; "
     "references below it are those which the endpoint lists at the level asked, the first and last child are the ends of that list; following any of them asks once for the right passage; siblings agree with them; "
     "the collection of the document is fetched at most once and gives its depth and titles.",
     ["inputs", "histories"], "simulated DTS document endpoint over generated texts x link subsets x walks",
     "tests read two recorded replies",
     ["MyCapytain/resources/texts/remote/dts/_resolver_v1.py", "MyCapytain/resolvers/dts/api_v1.py"],
     [("DtsResolverDocument", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py")], ["HttpDtsResolver.getTextualNode()"])

prop("C29", "The DTS retriever follows the routes and parameters of the endpoint",
     "The DTS retriever finds the routes announced by the endpoint (relative or absolute, with fixed query parameters), and each call asks the right route with exactly the given parameters, transported unchanged whatever characters they hold; "
     "HTTP errors raise.",
     ["inputs", "fault_sequences"], "generated endpoint descriptions x calls x special characters x error statuses",
     "tests use one endpoint description",
     ["MyCapytain/retrievers/dts/__init__.py", "MyCapytain/common/utils/_http.py"], [("HttpDtsRetriever", "MyCapytain/retrievers/dts/__init__.py")], ["HTTP requests"])

prop("C30", "Shared utilities: export dispatch, paging headers, XML and graph helpers",
     "Exporting an object uses the implementation of the most derived class which supports the format and refuses other formats; pagination headers yield the page of each relation wherever the page parameter stands; URIs resolve against their endpoint with their query; "
     "nested dictionaries keep order, values and, copied, their factory; a known prefix of a name is expanded to its namespace and the rest is kept; made XML nodes parse to the tag, attributes and text given; a sub-graph holds exactly the statements within the distance asked.",
     ["inputs"], "generated class hierarchies, Link headers, URIs, key paths, RDF graphs",
     "tests have one or two examples for each helper",
     ["MyCapytain/common/base.py", "MyCapytain/common/utils/_http.py", "MyCapytain/common/utils/_generic.py", "MyCapytain/common/utils/_graph.py", "MyCapytain/common/utils/xml.py"],
     [("Exportable.export", "MyCapytain/common/base.py"), ("parse_pagination, parse_uri", "MyCapytain/common/utils/_http.py"), ("Subgraph.graphiter", "MyCapytain/common/utils/_graph.py")],
     ["utility functions"])

prop("C31", "Objects stay in the graph which was current when they were made",
     "Whatever graphs are made current before, between and after (set_graph, graphs made with bind_graph, with whatever prefixes of their own), a collection, its metadata and a text read and write the statements of the graph which was current when they were made, "
     "and change no other graph; objects of one identifier made in different graphs share nothing; their exports hold the same statements, in the same namespaces, whatever graph is current, and export changes no graph; "
     "bind_graph names the usual namespaces in a graph and keeps what it holds.",
     ["histories"], "histories of making, editing, reading and exporting objects while 2-3 graphs with prefixes of their own take turns as current graph",
     "tests reset the graph between tests and never use two graphs side by side",
     ["MyCapytain/common/constants.py", "MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/prototypes/text.py"],
     [("set_graph, bind_graph", "MyCapytain/common/constants.py"), ("Metadata.export", "MyCapytain/common/metadata.py")],
     ["set_graph()", "bind_graph()", "Metadata.export()", "Collection.export()"])

prop("C32", "Copies and pickles equal what they were made of and are independent of it",
     "A reference (of any kind), a set of references, a URN, a collection or a whole inventory or DTS collection, a local text and its passages, which are deeply copied or pickled and loaded again (in whatever graph is then current), have the type, values, tree, statements and answers of the original, which does not change; "
     "the tree of a copied collection is complete, of copies only; what changes afterwards in the one does not change the other; references and URNs survive shallow copies too.",
     ["inputs", "histories"], "generated references, URNs, inventories, DTS collections, texts x pickle protocols and deepcopy x edits and questions afterwards",
     "tests pickle one inventory",
     ["MyCapytain/common/reference/_base.py", "MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/common/reference/_dts_1.py", "MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/texts/local/capitains/cts.py"],
     [("BaseReference", "MyCapytain/common/reference/_base.py"), ("Collection", "MyCapytain/resources/prototypes/metadata.py")],
     ["pickle", "copy.deepcopy()"])

TECH = {}


def main():
    out, checks, na = [], [], []
    for p in P:
        note = p.pop("_note")
        out.append(json.dumps(p, ensure_ascii=False))
        if os.path.exists(os.path.join(HERE, "vlib", "props", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 check.py {} --tier quick".format(p["id"]),
                "thorough_cmd": "python3 check.py {} --tier thorough".format(p["id"]),
                "evidence_file": "evidence/{}.json".format(p["id"]),
                "technique": TECH.get(p["id"], "property-based testing (Hypothesis): generated inputs against a reference model"),
                "level": "exploration",
                "level_note": note or "Search over generated cases against an independent oracle: no violation found within the cases of a run, "
                                      "not a proof. Trusts lxml, rdflib, requests and the reference models in vlib."})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        f.write("\n".join(out) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "python3 setup_check.py",
            "checks": checks,
            "not_applicable": na,
            "notes": "Every check: check.py <id>; VERIF_SEED selects the cases; replay with check.py <id> --replay <file>."
        }, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
