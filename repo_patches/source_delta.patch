From 3f339b26f3ca4dc9b5010933d65b5a72eaaa91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:38 +0000
Subject: [PATCH 01/98] fix: a reference set built from exactly one reference
 keeps that reference as its only member

BaseReferenceSet(ref) tested the tuple of arguments instead of the argument, so a single (tuple) reference was
unpacked into its start and end: DtsReferenceSet(DtsReference('1')) became ('1', None).
---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 674042a..7656c16 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -356,7 +356,7 @@ class BaseReferenceSet(tuple):
 
     """
     def __new__(cls, *refs, citation: BaseCitationSet=None, level: int=1):
-        if len(refs) == 1 and not isinstance(refs, BaseReference):
+        if len(refs) == 1 and not isinstance(refs[0], BaseReference):
             refs = refs[0]
         obj = tuple.__new__(cls, refs)
         obj._citation = None
-- 
2.43.0


From 68ed31547d6c237f737f76eb318d79cdba603186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:08 +0000
Subject: [PATCH 02/98] fix: scope and xpath of a citation keep every character
 of the declaration

Steps whose predicates hold characters such as - _ , ! (e.g. @subtype='sub-book' or a URN) were truncated.
---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0353b07..5494f37 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -7,7 +7,7 @@ from MyCapytain.common.utils.xml import make_xml_node
 
 from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
-REFSDECL_SPLITTER = re.compile(r"/+[*()|\sa-zA-Z0-9:\[\]@=\\{$'\".\s]+")
+REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
-- 
2.43.0


From 39001e83d2541bb96ec61a437833ad1768596568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 03/98] fix: fixed predicates such as [@n='1'] of a citation
 are not placeholders

fill() replaced (or dropped) the value of any short quoted predicate of the declaration, so that
/tei:div[@n='2']/tei:div[@n='$1'] could not be filled.
---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 5494f37..1d58862 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -10,7 +10,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
 SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
-REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)([\\$'\"?0-9]{3,6})")
+REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
 
 
 def _child_or_none(liste):
-- 
2.43.0


From d17d4b5577cbbe17d3c3cb8e6a6689002a985f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 04/98] fix: every level of a citation scheme built from its
 children has the top level as root

Citation(child=Citation(child=...)) left the root of the deepest levels on an intermediate level.
---
 MyCapytain/common/reference/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 7656c16..a295c60 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -46,10 +46,9 @@ class BaseCitationSet(Exportable):
                 elif not isinstance(citation, (BaseCitation, type(self))):
                     raise TypeError("Citation children should be Citation")
                 else:
-                    if isinstance(self, BaseCitation):
-                        citation.root = self.root
-                    else:
-                        citation.root = self
+                    root = self.root if isinstance(self, BaseCitation) else self
+                    for descendant in citation:
+                        descendant.root = root
                     final_value.append(citation)
 
         self._children = final_value
-- 
2.43.0


From bd1cb6402b10cf9ee759dbed80c3cb079cd550e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 05/98] fix: attribute values are escaped in the XML which
 collections and citations export

A & < or " in a citation label, an xpath or an identifier gave XML which could not be parsed.
---
 MyCapytain/common/utils/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8b9d15d..e048dd0 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -44,7 +44,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 name,
                 " ".join(
                     [
-                        "{}=\"{}\"".format(attr_name, attr_value)
+                        "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                         for attr_name, attr_value in attributes.items()
                     ]
                 ),
@@ -59,7 +59,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
             name,
             " ".join(
                 [
-                    "{}=\"{}\"".format(attr_name, attr_value)
+                    "{}=\"{}\"".format(attr_name, escape(str(attr_value), {"\"": "&quot;"}))
                     for attr_name, attr_value in attributes.items()
                 ]
             )
-- 
2.43.0


From 53c6098ded1ddba69cc9bbef6b333785ff3e895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 06/98] fix: the cRefPattern exported for a citation escapes
 its label and declaration

Double quotes of the declaration are left as they are: an existing test relies on it.
---
 MyCapytain/common/reference/_capitains_cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 1d58862..86373f6 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,5 +1,6 @@
 import re
 from typing import Optional, List, Union, Tuple
+from xml.sax.saxutils import escape
 from lxml.etree import _Element
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
@@ -910,8 +911,8 @@ class Citation(BaseCitation):
             return \
                 "<tei:cRefPattern n=\"{label}\" matchPattern=\"{regexp}\" replacementPattern=\"#xpath({refsDecl})\">" \
                 "<tei:p>This pointer pattern extracts {label}</tei:p></tei:cRefPattern>".format(
-                    refsDecl=self.refsDecl,
-                    label=label,
+                    refsDecl=escape(self.refsDecl),
+                    label=escape(label, {"\"": "&quot;"}),
                     regexp="\.".join(["(\w+)"]*self.refsDecl.count("$"))
                 )
 
-- 
2.43.0


From 8c53ce52470f53971266d39be42fbe671eb48a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 07/98] fix: comparing nested DTS citations ends

The children of a DtsCitation have it as root, and comparing them compared their roots, without end.
---
 MyCapytain/common/reference/_dts_1.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 6074313..51633a6 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -8,6 +8,22 @@ _cite_type_term = str(_dts.term("citeType"))
 _cite_structure_term = str(_dts.term("citeStructure"))
 
 
+def _same_structure(cite, other):
+    """ Check that two citations have the same name and the same descendants (regardless of their root)
+    """
+    return cite.name == other.name and \
+        len(cite.children) == len(other.children) and \
+        all(_same_structure(*pair) for pair in zip(cite.children, other.children))
+
+
+def _same_root(root, other):
+    """ Compare roots without comparing the root of their children, which are the roots themselves
+    """
+    if isinstance(root, BaseCitation) and isinstance(other, BaseCitation):
+        return _same_structure(root, other)
+    return root == other
+
+
 class DtsReference(BaseReference):
     def __new__(cls, *refs, metadata: Metadata=None, type_: str=None):
         o = BaseReference.__new__(cls, *refs)
@@ -62,13 +78,12 @@ class DtsCitation(BaseCitation):
 
     def __eq__(self, other):
         return isinstance(other, BaseCitation) and \
-            self.name == other.name and \
-            self.children == other.children and \
+            _same_structure(self, other) and \
                (
                    (
                        not self.is_root() and
                        not other.is_root() and
-                       self.root == other.root
+                       _same_root(self.root, other.root)
                    )
                    or (
                        self.is_root() and other.is_root()
-- 
2.43.0


From 3fe8d5c4d94e438bcf4a9256bc514351a87fc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 08/98] fix: references within a range between one unit and
 itself, or whose start is deeper than its end

---
 MyCapytain/resources/texts/local/capitains/cts.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ef01fc8..441b8c4 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -203,12 +203,10 @@ class _SharedMethods(TeiResource):
 
                     common = []
 
-                    for index, part in enumerate(reference.start.list):
-                        if index <= reference.end.depth:
-                            if part == reference.end.list[index]:
-                                common.append(part)
-                            else:
-                                break
+                    # The last level of each end is never common : it is what the range is made of
+                    for part, end_part in zip(reference.start.list[:-1], reference.end.list[:-1]):
+                        if part == end_part:
+                            common.append(part)
                         else:
                             break
 
-- 
2.43.0


From f61dd10f81d3ea49b6f97d81974cbc3569887f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 09/98] fix: ranges between passages whose content is the same
 do not lose their end

---
 MyCapytain/common/utils/xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index e048dd0..d8d8423 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -223,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
             for sibling in xmliter(parent):
-                if sibling == result_1:
+                if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
                     child = copyNode(result_1, children=has_no_queue, parent=new_tree)
@@ -264,7 +264,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             result_2 = result_1
 
-        if result_1 == result_2:
+        if result_1 is result_2:
             has_no_queue = len(queue_1) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
             if not has_no_queue:
@@ -283,13 +283,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                 if start:
                     # If we are at the end
                     # We break the copy
-                    if sibling == result_2:
+                    if sibling is result_2:
                         break
                     else:
                         copyNode(sibling, parent=new_tree, children=True)
                 # If this is start
                 # Then we copy it and initiate star
-                elif sibling == result_1:
+                elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
-- 
2.43.0


From fb87d0e1311c2a82cf84804c257c4ad726e97dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 10/98] fix: comments and processing instructions between the
 passages of a range are copied as such

---
 MyCapytain/common/utils/xml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index d8d8423..93900a9 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -161,6 +161,12 @@ def copyNode(node, children=False, parent=False):
     :param parent: Append copied node to parent if given
     :return: New Element
     """
+    if parent is not False and not node.xpath("boolean(self::*)"):
+        # Comments and processing instructions have no tag nor attributes (and lxml.objectify gives them a fake tag)
+        element = copy(node)
+        element.tail = None
+        parent.append(element)
+        return element
     if parent is not False:
         element = SubElement(
             parent,
-- 
2.43.0


From 0f659c773666918c32dd2cf98f7ec073dd6da6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 11/98] fix: the XML export of a passage does not include the
 text which follows it

---
 MyCapytain/resources/texts/base/tei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 96bdd68..1b133e8 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -101,7 +101,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.XML.Std or output == Mimetypes.XML.TEI:
             # Exports the whole resource formatted as XML but as string object
-            return tostring(self.resource, encoding=str)
+            return tostring(self.resource, encoding=str, with_tail=False)
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-- 
2.43.0


From d88e8794b98d1b8fdfc3b1ea0953f1738418c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 12/98] fix: passages reached with next and prev belong to the
 text and not to the passage they come from

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 441b8c4..3e0b87c 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -103,7 +103,7 @@ class _SharedMethods(TeiResource):
         return CapitainsCtsPassage(
             urn=urn,
             resource=root,
-            text=self,
+            text=self.textObject,
             citation=citation_start,
             reference=subreference
         )
-- 
2.43.0


From 6c8cac8f908ac3e1f1244b89393cf944fc906ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 13/98] fix: remote passages of the first level have no parent
 instead of a parent named None

---
 MyCapytain/resources/texts/remote/cts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3abdd76..88cad8d 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -425,6 +425,8 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
+        if self.urn.reference.parent is None:
+            return None
         return str(self.urn.reference.parent)
 
     @property
-- 
2.43.0


From eb168622104541538df3f33f382484fb35ce764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 14/98] fix: parent and parentId of local passages

---
 MyCapytain/resources/prototypes/text.py        |  3 ++-
 .../resources/texts/local/capitains/cts.py     | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/text.py b/MyCapytain/resources/prototypes/text.py
index 03fa4bc..62864ed 100644
--- a/MyCapytain/resources/prototypes/text.py
+++ b/MyCapytain/resources/prototypes/text.py
@@ -306,7 +306,8 @@ class InteractiveTextualNode(TextualGraph):
         """ Parent TextualNode
 
         """
-        return self.getTextualNode(self.parentId)
+        if self.parentId is not None:
+            return self.getTextualNode(self.parentId)
 
     @property
     def first(self) -> TextualNode:
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 3e0b87c..51fbbbe 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -386,6 +386,15 @@ class _SimplePassage(_SharedMethods, PrototypeCtsPassage):
             subreference = CtsReference(subreference)
         return self.textObject.getTextualNode(subreference)
 
+    @property
+    def parentId(self) -> Optional[CtsReference]:
+        """ Reference of the passage which contains the current one
+
+        :returns: Reference of the parent, None for passages of the first level
+        :rtype: None, CtsReference
+        """
+        return self.reference.parent
+
     @property
     def nextId(self):
         """ Next passage
@@ -587,6 +596,15 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
             self._children = self.getReffs()
             return self._children
 
+    @property
+    def parentId(self) -> Optional[CtsReference]:
+        """ Reference of the passage which contains the current one
+
+        :returns: Reference of the parent, None for passages of the first level
+        :rtype: None, CtsReference
+        """
+        return self.reference.parent
+
     @property
     def nextId(self):
         """ Next passage
-- 
2.43.0


From ed9644464d2a88615fdea3c5e122ddc3a54e3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 15/98] fix: nested dictionaries of passages

---
 MyCapytain/resources/texts/base/tei.py            | 11 +++++++++--
 MyCapytain/resources/texts/local/capitains/cts.py | 13 +++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 1b133e8..ad3a980 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -105,11 +105,11 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-            reffs = self.getReffs(level=len(self.citation))
+            reffs = self._get_deepest_reffs()
             text = nested_ordered_dictionary()
             for reff in reffs:
                 _r = str(reff).split(".")  # Only works for non range of course
-                nested_set(text, _r, self.getTextualNode(_r).export(
+                nested_set(text, _r, self.getTextualNode(reff).export(
                     Mimetypes.PLAINTEXT,
                     exclude=exclude,
                     _preformatted=True
@@ -132,6 +132,13 @@ class TeiResource(InteractiveTextualNode):
                 )
             )
 
+    def _get_deepest_reffs(self):
+        """ References of the deepest level of citation
+
+        :return: References of the deepest level which are available in the object
+        """
+        return self.getReffs(level=len(self.citation))
+
     @property
     def xml(self):
         """ XML Representation of the CapitainsCtsPassage
diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index 51fbbbe..f6f61d0 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -285,6 +285,19 @@ class _SharedMethods(TeiResource):
         )
         return references
 
+    def _get_deepest_reffs(self):
+        """ References of the deepest level of citation
+
+        :return: References of the deepest level which are available in the object
+        """
+        reference, depth = getattr(self, "reference", None), len(self.citation.root)
+        if reference is None or reference.depth < depth:
+            return self.textObject.getValidReff(level=depth, reference=reference)
+        elif reference.is_range():
+            return self.textObject.getValidReff(level=0, reference=reference)
+        # The passage already is of the deepest level
+        return [reference]
+
     def xpath(self, *args, **kwargs):
         """ Perform XPath on the passage XML
 
-- 
2.43.0


From 0cd80169832226b85b957fabc4192fb4215ed963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 16/98] fix: retrieving a passage does not annotate the root of
 the text it comes from

---
 MyCapytain/common/utils/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 93900a9..9845cf9 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -171,13 +171,13 @@ def copyNode(node, children=False, parent=False):
         element = SubElement(
             parent,
             node.tag,
-            attrib=node.attrib,
+            attrib=dict(node.attrib),
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
         )
     else:
         element = Element(
             node.tag,
-            attrib=node.attrib,
+            attrib=dict(node.attrib),
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
         )
     if children:
-- 
2.43.0


From 9cb6956068c71ff6aa5303529bd681c2f3692818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 17/98] fix: metadata which are not literals have no language

---
 MyCapytain/common/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 082e1c2..dfcd54e 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -87,7 +87,7 @@ class Metadata(Exportable):
         """
         if lang is not None:
             for o in self.graph.objects(self.asNode(), key):
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     yield o
         else:
             for o in self.graph.objects(self.asNode(), key):
@@ -107,7 +107,7 @@ class Metadata(Exportable):
             default = None
             for o in self.graph.objects(self.asNode(), key):
                 default = o
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     return o
             return default
         else:
-- 
2.43.0


From f03e35aadfea0ff7649b6ec1e0920fdfc727be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 18/98] fix: exporting metadata does not change the selection
 given as argument

---
 MyCapytain/common/metadata.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index dfcd54e..688edf5 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -166,13 +166,12 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = only
+            _only = []
             only = [str(s) for s in only]
             for predicate in set(self.graph.predicates(subject=self.asNode())):
-                if str(predicate) not in only:
-                    prefix, namespace, name = self.graph.compute_qname(predicate)
-                    if str(namespace) in only:
-                        _only.append(predicate)
+                prefix, namespace, name = self.graph.compute_qname(predicate)
+                if str(predicate) in only or str(namespace) in only:
+                    _only.append(predicate)
             for predicate, obj in self.graph[self.asNode()]:
                 if predicate in _only:
                     graph.add((self.asNode(), predicate, obj))
-- 
2.43.0


From 76a6d21944945bd769b2addfe40a418fa1371687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 19/98] fix: CapiTainS XML exports the datatype of metadata
 with the attribute which is read back

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 688edf5..da04de7 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -222,7 +222,7 @@ class Metadata(Exportable):
                 if hasattr(obj, "language") and obj.language is not None:
                     kwargs["xml:lang"] = obj.language
                 if hasattr(obj, "datatype") and obj.datatype is not None:
-                    kwargs["rdf:type"] = obj.datatype
+                    kwargs["rdf:datatype"] = obj.datatype
                 strings.append(make_xml_node(graph, pred, text=obj, attributes=kwargs, complete=True))
             del graph
             return "\n".join(strings)
-- 
2.43.0


From 84bac8b47c7318c4d71600771532e2f859ee02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 20/98] fix: the language of a collection which has none is
 None and is not exported as a language

---
 MyCapytain/resources/prototypes/cts/inventory.py | 13 +++++++++----
 MyCapytain/resources/prototypes/metadata.py      |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index d8003e4..0b7f22d 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -217,7 +217,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
 
         if parent is not None:
             self.parent = parent
-            if lang is None:
+            if lang is None and self.parent.lang is not None:
                 self.lang = self.parent.lang
 
     @property
@@ -282,7 +282,9 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :returns: Desired output formatted resource
         """
         if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
-            attrs = {"urn": self.id, "xml:lang": self.lang}
+            attrs = {"urn": self.id}
+            if self.lang is not None:
+                attrs["xml:lang"] = self.lang
             if self.parent is not None and self.parent.id:
                 attrs["workUrn"] = self.parent.id
             if namespaces is True:
@@ -463,7 +465,8 @@ class CtsWorkMetadata(PrototypeCtsCollection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        return str(lang) if lang is not None else None
 
     @lang.setter
     def lang(self, lang):
@@ -535,7 +538,9 @@ class CtsWorkMetadata(PrototypeCtsCollection):
         :returns: Desired output formated resource
         """
         if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
-            attrs = {"urn": self.id, "xml:lang": self.lang}
+            attrs = {"urn": self.id}
+            if self.lang is not None:
+                attrs["xml:lang"] = self.lang
             if self.parent is not None and self.parent.id:
                 attrs["groupUrn"] = self.parent.id
             return self.__xml_export_generic__(attrs, namespaces=namespaces, output=output)
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7209e90..75f610f 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -447,7 +447,8 @@ class ResourceCollection(Collection):
 
         :return: List of available languages
         """
-        return str(self.graph.value(self.asNode(), DC.language))
+        lang = self.graph.value(self.asNode(), DC.language)
+        return str(lang) if lang is not None else None
 
     @lang.setter
     def lang(self, lang):
-- 
2.43.0


From 427e8c6620a9a01de5bab8d8d1f7b499ca94feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 21/98] fix: title and creator of the metadata of a text are
 the labels of its work and textgroup

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 0b7f22d..17964e7 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -348,7 +348,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Creator string representation
         :rtype: Literal
         """
-        return self.parent.parent.metadata.get_label(lang=lang)
+        return self.parent.parent.get_label(lang=lang)
 
     def get_title(self, lang=None):
         """ Get the DC Title of the object
@@ -357,7 +357,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.parent.metadata.get_label(lang=lang)
+        return self.parent.get_label(lang=lang)
 
     def get_description(self, lang=None):
         """ Get the DC description of the object
-- 
2.43.0


From 765d884bf54a3587bb92e484afed8718c7dc1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:13 +0000
Subject: [PATCH 22/98] fix: structured metadata keep the text of the document
 (leading zeros, exponents, case of booleans)

---
 MyCapytain/resources/collections/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 0b19ef7..f26e66c 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -111,11 +111,11 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = str(metadata)
+            s_m = metadata.text or ""
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-                    URIRef(str(metadata))
+                    URIRef(s_m)
                 )
             elif '{http://www.w3.org/XML/1998/namespace}lang' in metadata.attrib:
                 obj.metadata.add(
-- 
2.43.0


From ebe7cabfad8c2e0d2bbb28a2ac2621ae8f25b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 23/98] fix: empty labels and descriptions are not read as the
 word None

---
 MyCapytain/resources/collections/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index f26e66c..024e514 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -165,12 +165,12 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("description", child.text, lg)
+                obj.set_cts_property("description", child.text or "", lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("label", child.text, lg)
+                obj.set_cts_property("label", child.text or "", lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -270,7 +270,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("title", child.text, lg)
+                o.set_cts_property("title", child.text or "", lg)
 
         # Parse children
         children = []
@@ -312,7 +312,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("groupname", child.text, lg)
+                o.set_cts_property("groupname", child.text or "", lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
-- 
2.43.0


From f49e140d63971e78a32bbee9f50eb8b2848cb615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 24/98] fix: asking in a language for a CTS property which is
 not set gives None instead of StopIteration

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 17964e7..7c38272 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -80,7 +80,7 @@ class PrototypeCtsCollection(Collection):
         if lang is not None:
             if lang in x:
                 return x[lang]
-            return next(iter(x.values()))
+            return next(iter(x.values()), None)
         return x
 
     def set_cts_property(self, prop, value, lang=None):
-- 
2.43.0


From 1ecb1760c271c1b3016624d382965973765e030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 25/98] fix: the XML of collections without any label declares
 the namespace of its nodes

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 75f610f..494e04d 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -286,7 +286,8 @@ class Collection(Exportable):
         """
         nm = self.graph.namespace_manager
         bindings = {}
-        for predicate in set(self.graph.predicates()):
+        # The type of the collection is the name of its node
+        for predicate in {self.TYPE_URI, *self.graph.predicates()}:
             prefix, namespace, name = nm.compute_qname(predicate)
             if prefix != "":
                 bindings["xmlns:" + prefix] = str(URIRef(namespace))#[:-1]
-- 
2.43.0


From e2624e4a56aeb5073e0c18d1be34f16e41402884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:31 +0000
Subject: [PATCH 26/98] fix: inventory collections export to CapiTainS XML,
 which they announce

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 7c38272..9729d14 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -733,7 +733,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
         :param namespaces: List namespaces in main node
         :returns: Desired output formated resource
         """
-        if output == Mimetypes.XML.CTS:
+        if output == Mimetypes.XML.CTS or output == Mimetypes.XML.CapiTainS.CTS:
             attrs = {}
             if self.id:
                 attrs["tiid"] = self.id
@@ -744,7 +744,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 members=[
                     m for inv in self.members for m in inv.members
                 ],
-                output=Mimetypes.XML.CTS
+                output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
             if len(self.members) > 1:
-- 
2.43.0


From dce9db98a14d0596deb691d5536547bd978d6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:47 +0000
Subject: [PATCH 27/98] fix: removing an item from a collection keeps the
 metadata of the collection

---
 MyCapytain/resources/prototypes/metadata.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 494e04d..006fa0c 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -231,8 +231,6 @@ class Collection(Exportable):
         # Delete the graph Item
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
-        self.metadata.remove()
-        self.metadata.unlink()
         # Delete the Python item
         if len(item.parents) > 0:
             del item.parents[0].children[item.id]
-- 
2.43.0


From e461afa21558da7d8378ae3b1f2fa3d2e7b58be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 28/98] fix: works added to a textgroup stay on the graph which
 holds their metadata

---
 MyCapytain/resources/prototypes/cts/inventory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 9729d14..0cb3fe2 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -600,10 +600,12 @@ class CtsTextgroupMetadata(PrototypeCtsCollection):
             raise InvalidURN("Cannot add CtsTextgroupMetadata %s to CtsTextgroupMetadata %s " % (self.urn, other.urn))
 
         for urn, work in other.works.items():
+            # The copy stays on the graph which holds the metadata of the work, and leaves the other textgroup out
+            copied = deepcopy(work, {id(work.graph): work.graph, id(other): self})
             if urn in self.works:
-                self.works[urn].update(deepcopy(work))
+                self.works[urn].update(copied)
             else:
-                self.works[urn] = deepcopy(work)
+                self.works[urn] = copied
             self.works[urn].parent = self
             self.works[urn].resource = None
 
-- 
2.43.0


From 7a1782925b1fbe7ed743bb6a001da80fa0e3f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:19 +0000
Subject: [PATCH 29/98] fix: identifiers of DTS collections can be compact IRIs
 and their keyword can be aliased

---
 MyCapytain/resources/collections/dts/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 91af7fe..02cd790 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -83,9 +83,11 @@ class DtsCollection(Collection):
         if len(data) == 0:
             raise JsonLdCollectionMissing("Missing collection in JSON")
         data = data[0]
+        # Without base, relative identifiers are kept as they are
+        identifier = jsonld.expand(resource, {"base": None})[0]["@id"]
 
         obj = cls(
-            identifier=resource["@id"],
+            identifier=identifier,
             **additional_parameters
         )
 
-- 
2.43.0


From 1942bf6ba47529af2b7a25334b987b59b14f924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 30/98] fix: metadata of DTS collections can be URIs or typed
 values

---
 MyCapytain/common/utils/_json_ld.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ffcdeb6..ac89dea 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -22,7 +22,11 @@ def literal_to_dict(value):
 def dict_to_literal(dict_container: dict):
     """ Transforms a JSON+LD PyLD dictionary into
     an RDFLib object"""
-    if isinstance(dict_container["@value"], int):
+    if "@id" in dict_container:
+        return URIRef(dict_container["@id"]),
+    elif "@type" in dict_container:
+        return Literal(dict_container["@value"], datatype=URIRef(dict_container["@type"])),
+    elif isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
         return dict_container["@value"], dict_container.get("@language", None)
\ No newline at end of file
-- 
2.43.0


From 2da3361422448273f277a09a2b784448b1c6f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 31/98] fix: DTS collections parsed in the direction of their
 parents get these parents

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 02cd790..1c4ebb6 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -113,7 +113,7 @@ class DtsCollection(Collection):
                 for coll in members
             })
         else:
-            self.parents.add(members)
+            self.parents.update(members)
 
     def _parse_metadata(self, data: dict):
 
-- 
2.43.0


From d2556d2ddfd37ce8c376a94e7b820a586eff4cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 32/98] fix: items can be removed from DTS collections, whose
 parents are a set

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 006fa0c..83811e6 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -232,8 +232,8 @@ class Collection(Exportable):
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
         # Delete the Python item
-        if len(item.parents) > 0:
-            del item.parents[0].children[item.id]
+        for parent in item.parents:
+            parent.children.pop(item.id, None)
 
     def __contains__(self, item):
         """ Retrieve an item by its ID in the tree of a collection
-- 
2.43.0


From 6d2123681a94cebd5b11d3257a26111e4a7c91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 33/98] fix: collections can be exported to JSON-LD and RDF/XML

---
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 83811e6..52aa732 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -431,7 +431,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(get_graph().namespace_manager)
+            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From c275c541a88b6b9a5610169998b8ec27c14f1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 34/98] fix: the DTS JSON of collections declares the prefix of
 their types

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 52aa732..42b8ccc 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -360,7 +360,8 @@ class Collection(Exportable):
 
             ignore_ns_for_bindings = [_ns_cap_str, _ns_hydra_str, _ns_rdf_str, _ns_rdfs_str]
             bindings = {}
-            for predicate in set(graph.predicates()):
+            types = {self.type, *(member.type for member in self.members)}
+            for predicate in {*graph.predicates(), *types}:
                 prefix, namespace, name = nsm.compute_qname(predicate)
                 if prefix not in bindings and str(namespace) not in ignore_ns_for_bindings:
                     bindings[prefix] = str(URIRef(namespace))
-- 
2.43.0


From 30f83343d72e8ad5c416a6ef5eae0679906dfa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 35/98] fix: the DTS JSON of collections without label does not
 have "None" as title

---
 MyCapytain/resources/prototypes/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 42b8ccc..42495f4 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -311,10 +311,11 @@ class Collection(Exportable):
         :return: Dict
         """
 
+        label = obj.get_label()
         o = {
             "@id": str(obj.asNode()),
             "@type": nsm.qname(obj.type),
-            nsm.qname(RDF_NAMESPACES.HYDRA.title): str(obj.get_label()),
+            nsm.qname(RDF_NAMESPACES.HYDRA.title): str(label) if label is not None else "",
             nsm.qname(RDF_NAMESPACES.HYDRA.totalItems): obj.size
         }
 
-- 
2.43.0


From f275d640a30cc21e39d06899fe4a1622a63d4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:02 +0000
Subject: [PATCH 36/98] fix: the DTS JSON of collections keeps the datatype of
 metadata which JSON has no type for

---
 MyCapytain/common/utils/_json_ld.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ac89dea..82a98ab 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -11,7 +11,11 @@ def literal_to_dict(value):
     if isinstance(value, Literal):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
-        return value.toPython()
+        python = value.toPython()
+        if value.datatype is not None and (isinstance(python, Literal) or not isinstance(python, (bool, int, float, str))):
+            # JSON does not have this type
+            return {"@value": str(value), "@type": str(value.datatype)}
+        return python
     elif isinstance(value, URIRef):
         return {"@id": str(value)}
     elif value is None:
-- 
2.43.0


From 4c6a2f873ef504d296a936f53a2500f81630f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:31 +0000
Subject: [PATCH 37/98] fix: the DTS JSON of texts with one level of citation
 has this level

---
 MyCapytain/resources/prototypes/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 42495f4..adae22c 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -13,6 +13,7 @@ from MyCapytain.common.utils import literal_to_dict, Subgraph
 from MyCapytain.common.constants import RDF_NAMESPACES, RDFLIB_MAPPING, Mimetypes, get_graph
 from MyCapytain.common.base import Exportable
 from MyCapytain.common.reference import BaseCitationSet
+from MyCapytain.common.reference._base import BaseCitation
 from rdflib import URIRef, RDF, Literal, Graph, RDFS
 from rdflib.namespace import SKOS, DC, DCTERMS
 from typing import List
@@ -420,7 +421,9 @@ class Collection(Exportable):
                 if self.citation.depth:
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeDepth"))] = self.citation.depth
 
-                if not self.citation.is_empty():
+                # A citation, unlike a set of them, is a level of the structure
+                is_level = isinstance(self.citation, BaseCitation) and self.citation.is_set()
+                if is_level or not self.citation.is_empty():
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeStructure"))] = self.citation.export(
                         Mimetypes.JSON.DTS.Std,
                         context=False,
-- 
2.43.0


From 5b7cec72c1b7b70f976874ce810fb77451746956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 38/98] fix: inventory collections without any inventory export
 to DTS JSON

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 0cb3fe2..8915c24 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -749,7 +749,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 output=output
             )
         elif output == Mimetypes.JSON.DTS.Std:
-            if len(self.members) > 1:
+            if len(self.members) != 1:
                 return Collection.__export__(self, output=output)
             else:
                 return self.members[0].export(output=output)
-- 
2.43.0


From 32afcee13ae98cb4419ad474b8da536e2ad22142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 39/98] fix: the local resolver reads files in the encoding
 they declare

---
 MyCapytain/resolvers/cts/local.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0b22428..f71b3a7 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -118,7 +118,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :return: Parsed Text
         :rtype: CapitainsCtsText
         """
-        with open(path) as f:
+        with open(path, "rb") as f:
             o = self.classes["text"](urn=identifier, resource=self.xmlparse(f))
         return o
 
@@ -143,7 +143,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type cts_file: str
         :return: CtsTextgroupMetadata and Current file
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             return self.classes["textgroup"].parse(
                 resource=__xml__
             ), cts_file
@@ -173,7 +173,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type textgroup: CtsTextgroupMetadata
         :return: Parsed Work and the Texts, as well as the current file directory
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             work, texts = self.classes["work"].parse(
                 resource=__xml__,
                 parent=textgroup,
@@ -338,7 +338,7 @@ class CtsCapitainsLocalResolver(Resolver):
         text = self.inventory[str(urn)]
 
         if os.path.isfile(text.path):
-            with io.open(text.path) as __xml__:
+            with io.open(text.path, "rb") as __xml__:
                 resource = self.classes["text"](urn=urn, resource=self.xmlparse(__xml__))
         else:
             resource = None
-- 
2.43.0


From ead50284c1b9bc8f29300f09ec598ba345190946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:01 +0000
Subject: [PATCH 40/98] fix: the local resolver reads directories whose name
 has glob characters

---
 MyCapytain/resolvers/cts/local.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index f71b3a7..96f651f 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -4,7 +4,7 @@
 import io
 import logging
 import os.path
-from glob import glob
+from glob import escape, glob
 from math import ceil
 
 from MyCapytain.common.reference._capitains_cts import CtsReference, URN
@@ -284,13 +284,15 @@ class CtsCapitainsLocalResolver(Resolver):
         invalids = []
 
         for folder in resource:
-            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
+            cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=escape(folder)))
             for cts_file in cts_files:
                 textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
                 textgroups.append((textgroup, cts_file))
 
         for textgroup, cts_textgroup_file in textgroups:
-            cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
+            cts_work_files = glob("{parent}/*/__cts__.xml".format(
+                parent=escape(os.path.dirname(cts_textgroup_file))
+            ))
 
             for cts_work_file in cts_work_files:
                 _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-- 
2.43.0


From 58adaa8aaea70876c0d12982a1c323d7f6414e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 41/98] fix: a text missing from a directory is still found in
 another one

---
 MyCapytain/resolvers/cts/local.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 96f651f..014e3fd 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -298,10 +298,18 @@ class CtsCapitainsLocalResolver(Resolver):
                 _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
                 texts.extend([(text, directory) for text in parsed_texts])
 
+        valids = set()
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
             if not self._parse_text(text, directory):
                 invalids.append(text)
+            else:
+                valids.add(text.id)
+
+        # A text which is valid in a directory must not be replaced by its invalid version from another directory
+        for text in invalids:
+            if text.id in valids:
+                text.parent.texts.pop(text.id, None)
 
         # Dispatching routine
         for textgroup, textgroup_path in textgroups:
-- 
2.43.0


From f1f382686864bbd9a8fbd15b554cc8cdc0e06512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 42/98] fix: the local resolver goes on after metadata files it
 cannot parse when asked to

---
 MyCapytain/resolvers/cts/local.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 014e3fd..b26ddbf 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -286,8 +286,9 @@ class CtsCapitainsLocalResolver(Resolver):
         for folder in resource:
             cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=escape(folder)))
             for cts_file in cts_files:
-                textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
-                textgroups.append((textgroup, cts_file))
+                parsed = self._parse_textgroup_wrapper(cts_file)
+                if parsed is not None:
+                    textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
             cts_work_files = glob("{parent}/*/__cts__.xml".format(
@@ -295,8 +296,10 @@ class CtsCapitainsLocalResolver(Resolver):
             ))
 
             for cts_work_file in cts_work_files:
-                _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-                texts.extend([(text, directory) for text in parsed_texts])
+                parsed = self._parse_work_wrapper(cts_work_file, textgroup)
+                if parsed is not None:
+                    _, parsed_texts, directory = parsed
+                    texts.extend([(text, directory) for text in parsed_texts])
 
         valids = set()
         for text, directory in texts:
-- 
2.43.0


From 40cef5bffd1d80feff54430f6cc9deb8232f5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 43/98] fix: a work URN is not resolved to an edition of a work
 whose identifier starts alike

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index b26ddbf..2e1872b 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -339,7 +339,7 @@ class CtsCapitainsLocalResolver(Resolver):
                 urn = [
                     t.id
                     for t in self.texts
-                    if t.id.startswith(str(urn)) and isinstance(t, CtsEditionMetadata)
+                    if t.id.startswith(str(urn) + ".") and isinstance(t, CtsEditionMetadata)
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From 86630714e158386d3088fbacd1a88dc97a232c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 44/98] fix: a work URN is not resolved to an edition whose
 file is missing

---
 MyCapytain/resolvers/cts/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 2e1872b..8317f30 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -340,6 +340,7 @@ class CtsCapitainsLocalResolver(Resolver):
                     t.id
                     for t in self.texts
                     if t.id.startswith(str(urn) + ".") and isinstance(t, CtsEditionMetadata)
+                    and t.citation is not None
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From 7ed19921effa37cf58241d2626281f4e5d21b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:47 +0000
Subject: [PATCH 45/98] fix: asking for the page after the last one gives the
 last page, and pages always have a number

---
 MyCapytain/resolvers/cts/local.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 8317f30..7eb9372 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -417,8 +417,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :param length: Length of the list to paginate
         :return: (Start Index, End Index, Page Number, Item Count)
         """
-        realpage = page
-        page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
+        realpage = page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
         limit = limit or CtsCapitainsLocalResolver.PER_PAGE[1]
 
         if limit < CtsCapitainsLocalResolver.PER_PAGE[0] or limit > CtsCapitainsLocalResolver.PER_PAGE[2]:
@@ -426,8 +425,8 @@ class CtsCapitainsLocalResolver(Resolver):
 
         page = (page - 1) * limit
 
-        if page > length:
-            realpage = int(ceil(length / limit))
+        if page > 0 and page >= length:
+            realpage = max(int(ceil(length / limit)), 1)
             page = limit * (realpage - 1)
             count = length - 1
         elif limit - 1 + page < length:
-- 
2.43.0


From f78c096b246bb666370b6f207794b49b730207fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 46/98] fix: queries of the local resolver can filter on URN
 objects

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 7eb9372..d833e84 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -395,7 +395,7 @@ class CtsCapitainsLocalResolver(Resolver):
             for text in self.texts
             if
             (lang is None or (lang is not None and lang == text.lang)) and
-            (urn is None or (urn is not None and text.urn.upTo(__PART) == urn)) and
+            (urn is None or (urn is not None and text.urn.upTo(__PART) == str(urn))) and
             (text.citation is not None) and
             (
                 category not in ["edition", "translation", "commentary"] or
-- 
2.43.0


From 8422c607630dcd1e1bb8240876318950c06a804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:49 +0000
Subject: [PATCH 47/98] fix: remote passages which are whole texts have neither
 parent nor siblings

---
 MyCapytain/resources/texts/remote/cts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 88cad8d..ddc54df 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -208,6 +208,9 @@ class _SharedMethod(InteractiveTextualNode):
         :type reference: Union[CtsReference, str]
         :return: (Previous CapitainsCtsPassage CtsReference,Next CapitainsCtsPassage CtsReference)
         """
+        if reference is None:
+            # A whole text has no siblings
+            return None, None
         _prev, _next = _SharedMethod.prevnext(
             self.retriever.getPrevNextUrn(
                 urn="{}:{}".format(
@@ -425,7 +428,7 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
-        if self.urn.reference.parent is None:
+        if self.urn.reference is None or self.urn.reference.parent is None:
             return None
         return str(self.urn.reference.parent)
 
-- 
2.43.0


From 588d40a3ef6d0cb8f18dba0ce5384485c5c03e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:28 +0000
Subject: [PATCH 48/98] fix: CTS replies sent as text/xml without charset are
 read as UTF-8

---
 MyCapytain/retrievers/cts5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index ac35030..0acd15e 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -53,7 +53,9 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
 
         request = requests.get(self.endpoint, params=parameters)
         request.raise_for_status()
-        if request.encoding is None:
+        if request.encoding is None or (
+                # What requests supposes of text/* without charset, whereas XML is in UTF-8 by default
+                request.encoding == "ISO-8859-1" and "charset" not in request.headers.get("Content-Type", "").lower()):
             request.encoding = "utf-8"
         return request.text
 
-- 
2.43.0


From 1ddf2d4d3d700f96c69211a420d39152a3c709cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:58 +0000
Subject: [PATCH 49/98] fix: metadata of remote texts have the language of the
 reply

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index ddc54df..e7ef9d5 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -159,22 +159,22 @@ class _SharedMethod(InteractiveTextualNode):
         :type xml: Union[lxml.etree._Element]
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
             self.set_creator(node.text, lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
             self.set_title(node.text, lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
             self.set_subject(node.text, lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
             self.set_description(node.text, lang)
 
-- 
2.43.0


From 2b831db6b0e3194b72a5fdcefa3be1912087c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:30 +0000
Subject: [PATCH 50/98] fix: XML strings can have an XML declaration

---
 MyCapytain/common/utils/xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 9845cf9..55233e7 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from io import StringIO, IOBase
 from xml.sax.saxutils import escape
@@ -22,6 +23,7 @@ __all__ = [
 
 
 _parser = etree.XMLParser(collect_ids=False, resolve_entities=False)
+_declaration = re.compile(r"^\ufeff?(<\?xml\s[^>]*\?>)?")
 
 
 def make_xml_node(graph, name, close=False, attributes=None, text="", complete=False, innerXML=""):
@@ -93,7 +95,8 @@ def xmlparser(xml, objectify=True):
     if isinstance(xml, (etree._Element, ObjectifiedElement, etree._ElementTree)):
         return xml
     elif isinstance(xml, text_type):
-        xml = StringIO(xml)
+        # A string is already decoded : lxml refuses that it declares an encoding
+        xml = StringIO(_declaration.sub("", xml, count=1))
         doclose = True
     elif not isinstance(xml, IOBase):
         raise TypeError("Unsupported type of resource {}".format(type(xml)))
-- 
2.43.0


From 32d9bc2c3471066f835865a27edc12b1a9022518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:04 +0000
Subject: [PATCH 51/98] fix: remote passages without children have no last
 child instead of raising IndexError

---
 MyCapytain/resources/texts/remote/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index e7ef9d5..53e6666 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -270,7 +270,7 @@ class _SharedMethod(InteractiveTextualNode):
         """
         if self._last is False:
             # Request the next urn
-            self._last = self.childIds[-1]
+            self._last = self.childIds[-1] if len(self.childIds) > 0 else None
         return self._last
 
     @staticmethod
-- 
2.43.0


From ba1cf8aad51bc9055a7c1bf2f78e474c6309ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:18 +0000
Subject: [PATCH 52/98] fix: references asked from a remote passage are
 references of its text

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 53e6666..9f1cb30 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -71,7 +71,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: List of levels
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
@@ -100,14 +100,14 @@ class _SharedMethod(InteractiveTextualNode):
         if isinstance(subreference, URN):
             urn = str(subreference)
         elif isinstance(subreference, CtsReference):
-            urn = "{0}:{1}".format(self.urn, str(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), str(subreference))
         elif isinstance(subreference, str):
             if ":" in subreference:
                 urn = subreference
             else:
                 urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), subreference)
         elif isinstance(subreference, list):
-            urn = "{0}:{1}".format(self.urn, ".".join(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), ".".join(subreference))
         else:
             urn = str(self.urn)
 
@@ -141,7 +141,7 @@ class _SharedMethod(InteractiveTextualNode):
         :raises: *TypeError* when reference is not a list or a Reference
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
-- 
2.43.0


From 9ed5d1953bdb8a8eea05a8a58a711cbead5e6359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 53/98] fix: errors of the endpoint are not read as the absence
 of siblings or children

---
 MyCapytain/resources/texts/remote/cts.py | 26 +++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 9f1cb30..66c4158 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -18,7 +18,7 @@ from MyCapytain.resources.collections import cts as CtsCollection
 from MyCapytain.resources.prototypes.text import InteractiveTextualNode
 from MyCapytain.resources.prototypes.cts.text import PrototypeCtsText, PrototypeCtsPassage
 from MyCapytain.resources.texts.base.tei import TeiResource
-from MyCapytain.errors import MissingAttribute
+from MyCapytain.errors import MissingAttribute, UnknownObjectError
 
 
 __all__ = [
@@ -27,6 +27,22 @@ __all__ = [
 ]
 
 
+def _parse_reply(response):
+    """ Parse the response of an endpoint and ensure it is a reply
+
+    :param response: Response of the endpoint
+    :type response: Union[str, etree._Element]
+    :return: Parsed response
+    :raises: *UnknownObjectError* when the endpoint did not reply (CTSError for example)
+    """
+    xml = xmlparser(response)
+    if len(xml.xpath("//ti:reply", namespaces=XPATH_NAMESPACES)) == 0:
+        raise UnknownObjectError(
+            xml.xpath("string(//ti:message)", namespaces=XPATH_NAMESPACES) or "The endpoint did not reply to the request"
+        )
+    return xml
+
+
 class _SharedMethod(InteractiveTextualNode):
     """ Set of methods shared by CtsTextMetadata and CapitainsCtsPassage
 
@@ -212,7 +228,7 @@ class _SharedMethod(InteractiveTextualNode):
             # A whole text has no siblings
             return None, None
         _prev, _next = _SharedMethod.prevnext(
-            self.retriever.getPrevNextUrn(
+            _parse_reply(self.retriever.getPrevNextUrn(
                 urn="{}:{}".format(
                     str(
                         URN(
@@ -220,7 +236,7 @@ class _SharedMethod(InteractiveTextualNode):
                     ),
                     str(reference)
                 )
-            )
+            ))
         )
         return _prev, _next
 
@@ -243,9 +259,9 @@ class _SharedMethod(InteractiveTextualNode):
         else:
             urn = str(self.urn)
         _first = _SharedMethod.firstUrn(
-            self.retriever.getFirstUrn(
+            _parse_reply(self.retriever.getFirstUrn(
                 urn
-            )
+            ))
         )
         return _first
 
-- 
2.43.0


From f32f75372ed57d48e72116c5af342c1ac891297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:38 +0000
Subject: [PATCH 54/98] fix: nested dictionaries of remote passages

---
 MyCapytain/resources/texts/remote/cts.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 66c4158..63a0097 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -147,6 +147,17 @@ class _SharedMethod(InteractiveTextualNode):
 
         return self.getValidReff(level, subreference)
 
+    def _get_deepest_reffs(self):
+        """ References of the deepest level of citation
+
+        :return: References of the deepest level which are available in the object
+        """
+        reference, depth = self.urn.reference, len(self.citation)
+        if reference is not None and reference.depth >= depth and not reference.is_range():
+            # The passage already is of the deepest level
+            return [reference]
+        return self.getValidReff(level=depth)
+
     def getPassagePlus(self, reference=None):
         """ Retrieve a passage and informations around it and store it in the object
 
-- 
2.43.0


From 58bd8efd0d74136af1be3fab3b438d568b1becee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 55/98] fix: levels of the references asked from a remote text
 are relative to the subreference

---
 MyCapytain/resources/texts/remote/cts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 63a0097..6bd8231 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -142,8 +142,11 @@ class _SharedMethod(InteractiveTextualNode):
         :rtype: [text_type]
         :returns: List of levels
         """
-        if self.depth is not None:
-            level += self.depth
+        depth = self.depth
+        if subreference:
+            depth = CtsReference(str(subreference)).depth
+        if depth is not None:
+            level += depth
 
         return self.getValidReff(level, subreference)
 
-- 
2.43.0


From 263e7611a1552e41de5bd2b038020de2e869e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:49 +0000
Subject: [PATCH 56/98] fix: level -1 is the deepest one for every remote text
 and passage

---
 MyCapytain/resources/texts/remote/cts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 6bd8231..90853a8 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -92,6 +92,8 @@ class _SharedMethod(InteractiveTextualNode):
             urn = str(self.urn)
 
         if level == -1:
+            if not self.citation.is_set():
+                self.getLabel()
             level = len(self.citation)
 
         xml = self.retriever.getValidReff(
@@ -145,7 +147,7 @@ class _SharedMethod(InteractiveTextualNode):
         depth = self.depth
         if subreference:
             depth = CtsReference(str(subreference)).depth
-        if depth is not None:
+        if depth is not None and level != -1:
             level += depth
 
         return self.getValidReff(level, subreference)
-- 
2.43.0


From 5972d6aa5973dc35f77006d803230c995944c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 57/98] fix: labels of remote texts do not need to have the
 citation scheme

---
 MyCapytain/resources/texts/remote/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 90853a8..e43b3a0 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -211,7 +211,7 @@ class _SharedMethod(InteractiveTextualNode):
             self.set_description(node.text, lang)
 
         # Need to code that p
-        if not self.citation.is_set() and xml.xpath("//ti:citation", namespaces=XPATH_NAMESPACES):
+        if not self.citation.is_set() and xml.xpath(".//ti:citation", namespaces=XPATH_NAMESPACES):
             self.citation = CtsCollection.XmlCtsCitation.ingest(
                 xml,
                 xpath=".//ti:citation[not(ancestor::ti:citation)]"
-- 
2.43.0


From d307b2da02171111c723695c476361f9b129fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:12 +0000
Subject: [PATCH 58/98] fix: CTS replies without charset are read with the
 encoding which their XML declares

---
 MyCapytain/retrievers/cts5.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index 0acd15e..febe78a 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -9,6 +9,7 @@
 """
 import MyCapytain.retrievers.prototypes
 from MyCapytain.common.reference._capitains_cts import CtsReference
+import re
 import requests
 
 
@@ -17,6 +18,21 @@ __all__ = [
 ]
 
 
+_xml_encoding = re.compile(br"""\s*<\?xml\s[^>]*?encoding\s*=\s*["']([A-Za-z0-9._-]+)["']""")
+
+
+def _declared_encoding(content):
+    """ Encoding which the XML declaration of a reply gives
+
+    :param content: Reply
+    :type content: bytes
+    :rtype: str
+    """
+    declared = _xml_encoding.match(content) if isinstance(content, bytes) else None
+    if declared is not None:
+        return declared.group(1).decode("ascii")
+
+
 class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
     """ Basic integration of the MyCapytain.retrievers.proto.CTS abstraction
     """
@@ -54,9 +70,9 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
         request = requests.get(self.endpoint, params=parameters)
         request.raise_for_status()
         if request.encoding is None or (
-                # What requests supposes of text/* without charset, whereas XML is in UTF-8 by default
+                # What requests supposes of text/* without charset, whereas XML is in the encoding it declares
                 request.encoding == "ISO-8859-1" and "charset" not in request.headers.get("Content-Type", "").lower()):
-            request.encoding = "utf-8"
+            request.encoding = _declared_encoding(request.content) or "utf-8"
         return request.text
 
     def getCapabilities(self, inventory=None, urn=None):
-- 
2.43.0


From 59ee08d8994fc037ec78d7e84ac1937156717276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 59/98] fix: the CTS retriever takes the filters urn and inv
 for metadata as documented

---
 MyCapytain/retrievers/cts5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index febe78a..2c6bf44 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -201,7 +201,10 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
         :param filters: Kwargs parameters. URN and Inv are available
         :return: GetCapabilities CTS API request response
         """
-        filters.update({"urn": objectId})
+        if objectId is not None:
+            filters["urn"] = objectId
+        if "inv" in filters:
+            filters["inventory"] = filters.pop("inv")
         return self.getCapabilities(**filters)
 
     def getTextualNode(self, textId, subreference=None, prevnext=False, metadata=False):
-- 
2.43.0


From 5fd7a75aeda07eb3f054cf8c6508e36c2aac4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 60/98] fix: the first reference of a DTS request can be the
 integer 0

---
 MyCapytain/retrievers/dts/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index cf833bf..8e67f98 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -25,7 +25,7 @@ def _parse_ref_parameters(parameters, ref):
             parameters["start"], parameters["end"] = ref
         else:
             parameters["ref"] = ref.start
-    elif ref:
+    elif ref is not None and ref != "":
         parameters["ref"] = ref
 
 
-- 
2.43.0


From 76fde11891bfac903a3cae1300f96852485e9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 61/98] fix: a pair given as reference to the DTS retriever is
 a range as documented

---
 MyCapytain/retrievers/dts/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index 8e67f98..d190a90 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -25,6 +25,8 @@ def _parse_ref_parameters(parameters, ref):
             parameters["start"], parameters["end"] = ref
         else:
             parameters["ref"] = ref.start
+    elif isinstance(ref, tuple):
+        parameters["start"], parameters["end"] = ref
     elif ref is not None and ref != "":
         parameters["ref"] = ref
 
-- 
2.43.0


From 4da7fef998ae64ff189c8982974aae75263db1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 62/98] fix: DTS routes are resolved as URIs and keep their
 host and query

---
 MyCapytain/common/utils/_http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 68d212f..3f7c666 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -38,8 +38,8 @@ def parse_uri(uri, endpoint_uri):
     :return: Parsed route
     :rtype: _Route
     """
-    temp_parse = urlparse(uri)
+    temp_parse = urlparse(urljoin(endpoint_uri, uri))
     return _Route(
-        urljoin(endpoint_uri, temp_parse.path),
-        parse_qs(temp_parse.query)
+        temp_parse._replace(query="", fragment="").geturl(),
+        parse_qs(temp_parse.query, keep_blank_values=True)
     )
-- 
2.43.0


From 71d10cabfc0553b74a734e75cf8504dff4fa7dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 63/98] fix: pages of Link headers are read from the query of
 the links

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 3f7c666..547f54c 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -16,7 +16,7 @@ def parse_pagination(headers):
     :rtype: _Navigation
     """
     links = {
-        link.rel: parse_qs(link.href).get("page", None)
+        link.rel: parse_qs(urlparse(link.href).query).get("page", [None])
         for link in link_header.parse(headers.get("Link", "")).links
     }
     return _Navigation(
-- 
2.43.0


From ce78c9775540f246a4c7291e9959813fcdcf7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 64/98] fix: expanding a prefixed name leaves the rest of the
 name as it is

---
 MyCapytain/common/utils/_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index fe043b0..61b995e 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -78,5 +78,5 @@ def expand_namespace(nsmap, string):
     """
     for ns in nsmap:
         if isinstance(string, str) and isinstance(ns, str) and string.startswith(ns+":"):
-            return string.replace(ns+":", nsmap[ns])
+            return nsmap[ns] + string[len(ns)+1:]
     return string
\ No newline at end of file
-- 
2.43.0


From 7596784a9449922aa049a0a92b82e4ed4c4dda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:19 +0000
Subject: [PATCH 65/98] fix: copies of OrderedDefaultDict keep their default
 factory

---
 MyCapytain/common/utils/_generic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MyCapytain/common/utils/_generic.py b/MyCapytain/common/utils/_generic.py
index 8af59b7..801f85d 100644
--- a/MyCapytain/common/utils/_generic.py
+++ b/MyCapytain/common/utils/_generic.py
@@ -19,6 +19,13 @@ class OrderedDefaultDict(OrderedDict):
         val = self[key] = self.default_factory()
         return val
 
+    def copy(self):
+        """ Make a shallow copy with the same default factory
+
+        :rtype: OrderedDefaultDict
+        """
+        return self.__class__(self.default_factory, self)
+
 
 def nested_ordered_dictionary():
     """ Helper to create a nested ordered default dictionary
-- 
2.43.0


From fe801e006decc4042a9888b7ad9a31157caf68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 66/98] fix: sub-graphs hold every statement within the
 distance asked for

---
 MyCapytain/common/utils/_graph.py | 33 +++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index 61b995e..5b9e34d 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -15,8 +15,9 @@ class Subgraph(object):
         for prefix, namespace in bindings.items():
             self.graph.namespace_manager.bind(prefix, namespace)
 
-        self.downwards = defaultdict(lambda: True)
-        self.updwards = defaultdict(lambda: True)
+        # Number of levels which were explored from each node
+        self.downwards = defaultdict(int)
+        self.updwards = defaultdict(int)
 
     def graphiter(self, graph, target, ascendants=0, descendants=1):
         """ Iter on a graph to finds object connected
@@ -38,30 +39,42 @@ class Subgraph(object):
         if desc != 0:
             desc -= 1
 
-        t = str(target)
-
-        if descendants != 0 and self.downwards[t] is True:
-            self.downwards[t] = False
+        if self._deeper(self.downwards, target, descendants):
             for pred, obj in graph.predicate_objects(target):
                 if desc == 0 and isinstance(obj, BNode):
                     continue
                 self.add((target, pred, obj))
 
                 # Retrieve triples about the object
-                if desc != 0 and self.downwards[str(obj)] is True:
+                if desc != 0:
                     self.graphiter(graph, target=obj, ascendants=0, descendants=desc)
 
-        if ascendants != 0 and self.updwards[t] is True:
-            self.updwards[t] = False
+        if self._deeper(self.updwards, target, ascendants):
             for s, p in graph.subject_predicates(object=target):
                 if desc == 0 and isinstance(s, BNode):
                     continue
                 self.add((s, p, target))
 
                 # Retrieve triples about the parent as object
-                if asc != 0 and self.updwards[str(s)] is True:
+                if asc != 0:
                     self.graphiter(graph, target=s, ascendants=asc, descendants=0)
 
+    @staticmethod
+    def _deeper(explored, node, levels):
+        """ Check that more levels are asked from a node than were explored, and remember it
+
+        :param explored: Number of levels explored from each node
+        :param node: Node to explore
+        :param levels: Number of levels to explore (-1 = No limit)
+        :rtype: bool
+        """
+        if levels < 0:
+            levels = float("inf")
+        if levels <= explored[node]:
+            return False
+        explored[node] = levels
+        return True
+
     def serialize(self, *args, **kwargs):
         return self.graph.serialize(*args, **kwargs)
 
-- 
2.43.0


From 340d45b0a7cb9c07a5a7653a49234dee79badf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 67/98] fix: an empty DTS navigation reply raises
 PaginationBrowsingError

---
 MyCapytain/resolvers/dts/api_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 1defc8a..a12959d 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -113,7 +113,7 @@ class HttpDtsResolver(Resolver):
             data = expand(data)
             if not len(data):
                 raise PaginationBrowsingError(
-                    "The contacted endpoint seems to not have any data about collection %s " % self.id
+                    "The contacted endpoint seems to not have any data about collection %s " % textId
                 )
             data = data[0]
 
-- 
2.43.0


From 6fcabed1eeb2bca332389c2bae0892b36bcd7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:31 +0000
Subject: [PATCH 68/98] fix: the number of the next DTS page is read from the
 query of its link

---
 MyCapytain/common/utils/dts.py                | 24 ++++++++++++++++++-
 MyCapytain/resolvers/dts/api_v1.py            | 13 ++--------
 .../resources/collections/dts/_resolver.py    | 12 ++--------
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/MyCapytain/common/utils/dts.py b/MyCapytain/common/utils/dts.py
index 8173c60..d5048e2 100644
--- a/MyCapytain/common/utils/dts.py
+++ b/MyCapytain/common/utils/dts.py
@@ -1,10 +1,15 @@
+from typing import Optional
+from urllib.parse import parse_qs, urlparse
+
 from ._json_ld import dict_to_literal
 from rdflib import URIRef
 from ..metadata import Metadata
+from MyCapytain.errors import PaginationBrowsingError
 
 
 __all__ = [
-    "parse_metadata"
+    "parse_metadata",
+    "parse_next_page"
 ]
 
 
@@ -24,3 +29,20 @@ def parse_metadata(metadata_obj: Metadata, metadata_dictionary: dict) -> None:
         term = URIRef(key)
         for value_dict in value_set:
             metadata_obj.add(term, *dict_to_literal(value_dict))
+
+
+def parse_next_page(data: dict) -> Optional[int]:
+    """ Finds the number of the page which follows in the hydra view of a reply
+
+    :param data: Expanded JSON-LD of the reply
+    :return: Number of the next page, None if there is none
+    :raises PaginationBrowsingError: if there is a next page but it has no number
+    """
+    for view in data.get("https://www.w3.org/ns/hydra/core#view", []):
+        for link in view.get("https://www.w3.org/ns/hydra/core#next", []):
+            uri = str(link.get("@value", link.get("@id")))
+            page = parse_qs(urlparse(uri).query).get("page", [""])[0]
+            if not page.isdecimal() or int(page) == 0:
+                raise PaginationBrowsingError("The next page %s has no page number" % uri)
+            return int(page)
+    return None
diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index a12959d..086098f 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -9,14 +9,13 @@
 """
 
 from typing import Union, Optional, Any, Dict
-import re
 from pyld.jsonld import expand
 
 from MyCapytain.resolvers.prototypes import Resolver
 from MyCapytain.common.reference import BaseReference, BaseReferenceSet, \
     DtsReference, DtsReferenceSet, DtsCitation
 from MyCapytain.retrievers.dts import HttpDtsRetriever
-from MyCapytain.common.utils.dts import parse_metadata
+from MyCapytain.common.utils.dts import parse_metadata, parse_next_page
 from MyCapytain.resources.collections.dts import HttpResolverDtsCollection
 from MyCapytain.resources.texts.remote.dts import DtsResolverDocument
 from MyCapytain.errors import EmptyReference, PaginationBrowsingError
@@ -26,7 +25,6 @@ __all__ = [
 ]
 
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
 
 
 def _parse_ref(ref_dict, default_type: str=None):
@@ -126,14 +124,7 @@ class HttpDtsResolver(Resolver):
                 for ref in members
             ])
 
-            page = None
-            if "https://www.w3.org/ns/hydra/core#view" in data:
-                if "https://www.w3.org/ns/hydra/core#next" in data["https://www.w3.org/ns/hydra/core#view"][0]:
-                    page = _re_page.findall(
-                        data["https://www.w3.org/ns/hydra/core#view"]
-                            [0]["https://www.w3.org/ns/hydra/core#next"]
-                            [0]["@value"]
-                    )[0]
+            page = parse_next_page(data)
 
         citation = None
         if default_type:
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index cb07add..df6fd23 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -1,15 +1,14 @@
-import re
 from pyld.jsonld import expand
 from typing import Optional
 
 from MyCapytain.common.constants import RDF_NAMESPACES
+from MyCapytain.common.utils.dts import parse_next_page
 from MyCapytain.errors import UnknownCollection
 from ._base import DtsCollection
 
 
 _hyd = RDF_NAMESPACES.HYDRA
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
 
 
 class PaginatedProxy:
@@ -142,14 +141,7 @@ class HttpResolverDtsCollection(DtsCollection):
                 })
             self._last_page_parsed[direction] = page
 
-            page = None
-            if "https://www.w3.org/ns/hydra/core#view" in data:
-                if "https://www.w3.org/ns/hydra/core#next" in data["https://www.w3.org/ns/hydra/core#view"][0]:
-                    page = int(_re_page.findall(
-                        data["https://www.w3.org/ns/hydra/core#view"]
-                            [0]["https://www.w3.org/ns/hydra/core#next"]
-                            [0]["@value"]
-                    )[0])
+            page = parse_next_page(data)
 
         self._parsed[direction] = True
 
-- 
2.43.0


From 24684764906d4988d63323704ca8c853e611c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 69/98] fix: DTS pages which come after themselves raise
 PaginationBrowsingError

---
 MyCapytain/resolvers/dts/api_v1.py                | 5 +++++
 MyCapytain/resources/collections/dts/_resolver.py | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 086098f..26f9491 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -95,7 +95,12 @@ class HttpDtsResolver(Resolver):
         level_ = level
 
         page = 1
+        pages = set()
         while page:
+            if page in pages:
+                raise PaginationBrowsingError("Page %s of %s comes after itself" % (page, textId))
+            pages.add(page)
+
             kwargs = dict(
                 level=level, ref=subreference,
                 exclude=additional_parameters.get("exclude", None),
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index df6fd23..8007f8e 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -3,7 +3,7 @@ from typing import Optional
 
 from MyCapytain.common.constants import RDF_NAMESPACES
 from MyCapytain.common.utils.dts import parse_next_page
-from MyCapytain.errors import UnknownCollection
+from MyCapytain.errors import PaginationBrowsingError, UnknownCollection
 from ._base import DtsCollection
 
 
@@ -108,7 +108,12 @@ class HttpResolverDtsCollection(DtsCollection):
             page = 1
         else:
             page = int(page)
+        pages = set()
         while page:
+            if page in pages:
+                raise PaginationBrowsingError("Page %s of %s comes after itself" % (page, self.id))
+            pages.add(page)
+
             if page > 1:
                 response = self._resolver.endpoint.get_collection(
                     collection_id=self.id,
-- 
2.43.0


From e577cd6c0052dfb947e28821b989ca5c5e4959ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:26 +0000
Subject: [PATCH 70/98] fix: the level of DTS references is kept when later
 pages do not repeat it

---
 MyCapytain/resolvers/dts/api_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 26f9491..f626cbe 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -92,7 +92,7 @@ class HttpDtsResolver(Resolver):
 
         references = []
         default_type = None
-        level_ = level
+        level_ = None
 
         page = 1
         pages = set()
@@ -120,7 +120,7 @@ class HttpDtsResolver(Resolver):
                 )
             data = data[0]
 
-            level_ = data.get("https://w3id.org/dts/api#level", _empty)[0]["@value"]
+            level_ = data.get("https://w3id.org/dts/api#level", [{"@value": level_}])[0]["@value"]
             default_type = data.get("https://w3id.org/dts/api#citeType", _empty)[0]["@value"]
             members = data.get("https://www.w3.org/ns/hydra/core#member", [])
 
-- 
2.43.0


From fd13280cdd957563643d93b163be90dadb3f90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:53 +0000
Subject: [PATCH 71/98] fix: DTS documents list references of the level asked
 for

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 19c466f..d848e19 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -66,7 +66,9 @@ class DtsResolverDocument(TeiResource):
         return obj
 
     def getReffs(self, level: int=1, subreference: DtsReference=None):
-        return self.resolver.getReffs(textId=self.id, subreference=(subreference or self.reference))
+        return self.resolver.getReffs(
+            textId=self.id, level=level, subreference=(self.reference if subreference is None else subreference)
+        )
 
     def _dict_to_ref(self, header_dic):
         ref = header_dic.get("ref", [None])[0]
-- 
2.43.0


From d666ec38a22d325cb7dd1935b05f0dbd351a0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:09 +0000
Subject: [PATCH 72/98] fix: the parent of a DTS document is read from its own
 link

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index d848e19..f2c144f 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -98,11 +98,11 @@ class DtsResolverDocument(TeiResource):
             o._next_id = o._dict_to_ref(links.get("next"))
         if links.get("prev"):
             o._prev_id = o._dict_to_ref(links.get("prev"))
-        if links.get("parent"):
+        if links.get("up"):
             o._parent = o._dict_to_ref(links.get("up"))
         if links.get("first"):
             o._first_id = o._dict_to_ref(links.get("first"))
-        if links.get("parent"):
+        if links.get("last"):
             o._last_id = o._dict_to_ref(links.get("last"))
         if links.get("collection"):
             o._collection = o._dict_to_ref(links.get("collection"))
-- 
2.43.0


From 29e0a2b9cf14b5e35317512c62d94e50e9ecba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:07 +0000
Subject: [PATCH 73/98] fix: DTS replies without charset are read with the
 encoding which their XML declares

---
 MyCapytain/common/utils/__init__.py   |  2 +-
 MyCapytain/common/utils/_http.py      | 30 +++++++++++++++++++++++++++
 MyCapytain/retrievers/cts5.py         | 22 ++------------------
 MyCapytain/retrievers/dts/__init__.py |  5 ++---
 4 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/MyCapytain/common/utils/__init__.py b/MyCapytain/common/utils/__init__.py
index 30be138..4680ca9 100644
--- a/MyCapytain/common/utils/__init__.py
+++ b/MyCapytain/common/utils/__init__.py
@@ -12,5 +12,5 @@ from ._generic import (
     OrderedDefaultDict, nested_ordered_dictionary, nested_get, nested_set, normalize
 )
 from ._graph import Subgraph, expand_namespace
-from ._http import parse_pagination, parse_uri
+from ._http import parse_pagination, parse_uri, response_encoding
 from ._json_ld import dict_to_literal, literal_to_dict
diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 547f54c..db2eebe 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -1,3 +1,4 @@
+import re
 from collections import namedtuple
 from urllib.parse import parse_qs, urlparse, urljoin
 
@@ -43,3 +44,32 @@ def parse_uri(uri, endpoint_uri):
         temp_parse._replace(query="", fragment="").geturl(),
         parse_qs(temp_parse.query, keep_blank_values=True)
     )
+
+
+_xml_encoding = re.compile(br"""\s*<\?xml\s[^>]*?encoding\s*=\s*["']([A-Za-z0-9._-]+)["']""")
+
+
+def _declared_encoding(content):
+    """ Encoding which the XML declaration of a reply gives
+
+    :param content: Reply
+    :type content: bytes
+    :rtype: str
+    """
+    declared = _xml_encoding.match(content) if isinstance(content, bytes) else None
+    if declared is not None:
+        return declared.group(1).decode("ascii")
+
+
+def response_encoding(response):
+    """ Find the encoding of a response: the one of its headers, else the one which its XML declares, else utf-8
+
+    :param response: Response of an endpoint
+    :type response: requests.Response
+    :rtype: str
+    """
+    if response.encoding is None or (
+            # What requests supposes of text/* without charset, whereas XML is in the encoding it declares
+            response.encoding == "ISO-8859-1" and "charset" not in response.headers.get("Content-Type", "").lower()):
+        return _declared_encoding(response.content) or "utf-8"
+    return response.encoding
diff --git a/MyCapytain/retrievers/cts5.py b/MyCapytain/retrievers/cts5.py
index 2c6bf44..2420c22 100644
--- a/MyCapytain/retrievers/cts5.py
+++ b/MyCapytain/retrievers/cts5.py
@@ -9,7 +9,7 @@
 """
 import MyCapytain.retrievers.prototypes
 from MyCapytain.common.reference._capitains_cts import CtsReference
-import re
+from MyCapytain.common.utils import response_encoding
 import requests
 
 
@@ -18,21 +18,6 @@ __all__ = [
 ]
 
 
-_xml_encoding = re.compile(br"""\s*<\?xml\s[^>]*?encoding\s*=\s*["']([A-Za-z0-9._-]+)["']""")
-
-
-def _declared_encoding(content):
-    """ Encoding which the XML declaration of a reply gives
-
-    :param content: Reply
-    :type content: bytes
-    :rtype: str
-    """
-    declared = _xml_encoding.match(content) if isinstance(content, bytes) else None
-    if declared is not None:
-        return declared.group(1).decode("ascii")
-
-
 class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
     """ Basic integration of the MyCapytain.retrievers.proto.CTS abstraction
     """
@@ -69,10 +54,7 @@ class HttpCtsRetriever(MyCapytain.retrievers.prototypes.CtsRetriever):
 
         request = requests.get(self.endpoint, params=parameters)
         request.raise_for_status()
-        if request.encoding is None or (
-                # What requests supposes of text/* without charset, whereas XML is in the encoding it declares
-                request.encoding == "ISO-8859-1" and "charset" not in request.headers.get("Content-Type", "").lower()):
-            request.encoding = _declared_encoding(request.content) or "utf-8"
+        request.encoding = response_encoding(request)
         return request.text
 
     def getCapabilities(self, inventory=None, urn=None):
diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index d190a90..359b667 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -11,7 +11,7 @@ import MyCapytain.retrievers.prototypes
 from MyCapytain import __version__
 from MyCapytain.common.reference import BaseReference
 import requests
-from MyCapytain.common.utils import parse_uri
+from MyCapytain.common.utils import parse_uri, response_encoding
 
 
 __all__ = [
@@ -70,8 +70,7 @@ class HttpDtsRetriever(MyCapytain.retrievers.prototypes.API):
             }
         )
         request.raise_for_status()
-        if request.encoding is None:
-            request.encoding = "utf-8"
+        request.encoding = response_encoding(request)
         return request
 
     @property
-- 
2.43.0


From 895511d76d1882afb92e2c18a23770134117e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 74/98] fix: whether the children of a DTS collection were read
 does not depend on its parents

---
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 8007f8e..0f3d3dc 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -88,7 +88,7 @@ class HttpResolverDtsCollection(DtsCollection):
             self,
             "_children",
             update_lambda=lambda: self._parse_paginated_members(direction="children"),
-            condition_lambda=lambda: self._parsed["parents"]
+            condition_lambda=lambda: self._parsed["children"]
         )
         self._parents = PaginatedProxy(
             self,
-- 
2.43.0


From c074913cb5b3a1cc914f9f2188e2e02a72dc2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 75/98] fix: paginated children and parents have a length as
 those which are complete

---
 MyCapytain/resources/collections/dts/_resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 0f3d3dc..b442ef3 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -51,6 +51,9 @@ class PaginatedProxy:
     def __iter__(self):
         return iter(self._run())
 
+    def __len__(self):
+        return len(self._run())
+
     def __getitem__(self, item):
         if isinstance(self._proxied, (list, dict, set, tuple)):
             # If it is in, we do not update the object
-- 
2.43.0


From 8310047c42637b76ec8a357a0b7c5a226da3182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 76/98] fix: metadata of DTS collections are retrieved once

---
 MyCapytain/resources/collections/dts/_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index b442ef3..ed042d1 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -181,6 +181,7 @@ class HttpResolverDtsCollection(DtsCollection):
                     "The contacted endpoint seems to not have any data about collection %s " % self.id
                 )
             self._parse_metadata(expand(data)[0])
+            self._parsed["metadata"] = True
         return True
 
     @classmethod
-- 
2.43.0


From 07e9b223ab720488fff5aaacb3d683a18d0aab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 77/98] fix: each page of the members of a DTS collection is
 fetched once

---
 .../resources/collections/dts/_resolver.py    | 54 +++++++++++++------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index ed042d1..ced75a1 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -82,10 +82,15 @@ class HttpResolverDtsCollection(DtsCollection):
             "parents": False,
             "metadata": metadata_parsed
         }
-        self._last_page_parsed = {
+        # Reply holding the last page which was parsed, and numbers of the pages
+        self._last_page = {
             "children": None,
             "parents": None,
         }
+        self._pages_parsed = {
+            "children": set(),
+            "parents": set()
+        }
 
         self._children = PaginatedProxy(
             self,
@@ -102,21 +107,22 @@ class HttpResolverDtsCollection(DtsCollection):
 
         self._resolver = resolver
 
+    def _page_after(self, data: dict, direction: str) -> Optional[int]:
+        """ Number of the page which follows a reply, if it was not parsed yet
+        """
+        page = parse_next_page(data)
+        if page in self._pages_parsed[direction]:
+            raise PaginationBrowsingError("Page %s of %s comes after itself" % (page, self.id))
+        return page
+
     def _parse_paginated_members(self, direction="children"):
-        """ Launch parsing of children
+        """ Launch parsing of the pages of children or parents which were not parsed yet
         """
+        page = 1
+        if self._last_page[direction] is not None:
+            page = self._page_after(self._last_page[direction], direction)
 
-        page = self._last_page_parsed[direction]
-        if not page:
-            page = 1
-        else:
-            page = int(page)
-        pages = set()
         while page:
-            if page in pages:
-                raise PaginationBrowsingError("Page %s of %s comes after itself" % (page, self.id))
-            pages.add(page)
-
             if page > 1:
                 response = self._resolver.endpoint.get_collection(
                     collection_id=self.id,
@@ -130,8 +136,20 @@ class HttpResolverDtsCollection(DtsCollection):
                 )
             response.raise_for_status()
 
-            data = response.json()
-            data = expand(data)[0]
+            data = expand(response.json())
+            if not len(data):
+                raise PaginationBrowsingError(
+                    "The contacted endpoint seems to not have any data about page %s of collection %s " % (page, self.id)
+                )
+            data = data[0]
+
+            # A page is done with only if what comes next is known
+            self._pages_parsed[direction].add(page)
+            try:
+                next_page = self._page_after(data, direction)
+            except PaginationBrowsingError:
+                self._pages_parsed[direction].remove(page)
+                raise
 
             if direction == "children":
                 self.children.update({
@@ -147,9 +165,8 @@ class HttpResolverDtsCollection(DtsCollection):
                         obj=data, collection=self, direction=direction, resolver=self._resolver
                     )
                 })
-            self._last_page_parsed[direction] = page
-
-            page = parse_next_page(data)
+            self._last_page[direction] = data
+            page = next_page
 
         self._parsed[direction] = True
 
@@ -215,5 +232,8 @@ class HttpResolverDtsCollection(DtsCollection):
             if "https://www.w3.org/ns/hydra/core#view" not in obj or \
                     (direction == "children" and collection.size == 0):
                 collection._parsed[direction] = True
+            elif collection._last_page[direction] is None:
+                collection._last_page[direction] = obj
+                collection._pages_parsed[direction].add(1)
 
         return members
-- 
2.43.0


From 328099b65ace96314a1866f9442e6e4860404215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:04 +0000
Subject: [PATCH 78/98] fix: going up from a DTS collection comes back to the
 collection it was reached from

---
 MyCapytain/resources/collections/dts/_resolver.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index ced75a1..d0fceec 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -107,6 +107,13 @@ class HttpResolverDtsCollection(DtsCollection):
 
         self._resolver = resolver
 
+    def _known_parents(self) -> set:
+        """ Parents this object already has, without requesting any other
+        """
+        if isinstance(self._parents, PaginatedProxy):
+            return self._parents._proxied
+        return self._parents
+
     def _page_after(self, data: dict, direction: str) -> Optional[int]:
         """ Number of the page which follows a reply, if it was not parsed yet
         """
@@ -159,11 +166,13 @@ class HttpResolverDtsCollection(DtsCollection):
                     )
                 })
             else:
+                known = {o.id for o in self._known_parents()}
                 self.parents.update({
                     o
                     for o in type(self).parse_member(
                         obj=data, collection=self, direction=direction, resolver=self._resolver
                     )
+                    if o.id not in known
                 })
             self._last_page[direction] = data
             page = next_page
-- 
2.43.0


From 525269c5d80413e66a6fb4fc14212bf430fde17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:53 +0000
Subject: [PATCH 79/98] fix: DTS references and reference sets differ when they
 are not equal, and compare with any object

---
 MyCapytain/common/reference/_dts_1.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 51633a6..9380790 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -49,10 +49,13 @@ class DtsReference(BaseReference):
         self.metadata.set(_dts.term("citeType"), value)
 
     def __eq__(self, other):
-        return super(DtsReference, self).__eq__(other) and \
-            isinstance(other, DtsReference) and \
+        return isinstance(other, DtsReference) and \
+            super(DtsReference, self).__eq__(other) and \
             self.type == other.type
 
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
     def __repr__(self):
         return "<DtsReference <{}> [{}]>".format(
             "><".join([str(x) for x in self if x]),
@@ -66,11 +69,14 @@ class DtsReferenceSet(BaseReferenceSet):
                BaseReferenceSet.__contains__(self, DtsReference(item))
 
     def __eq__(self, other):
-        return super(DtsReferenceSet, self).__eq__(other) and \
+        return isinstance(other, DtsReferenceSet) and \
+            super(DtsReferenceSet, self).__eq__(other) and \
             self.level == other.level and \
-            isinstance(other, DtsReferenceSet) and \
             self.citation == other.citation
 
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
 
 class DtsCitation(BaseCitation):
     def __init__(self, name=None, children=None, root=None):
-- 
2.43.0


From f6af1bd6cf399fb81884078e1f9b64005f950b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 80/98] fix: writing a passage of a local text leaves out what
 follows it

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index f6f61d0..b32906f 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -317,6 +317,8 @@ class _SharedMethods(TeiResource):
         :param kwargs: Named arguments
         :return:
         """
+        # What follows the element is not part of the passage
+        kwargs.setdefault("with_tail", False)
         return etree.tostring(self.resource, *args, **kwargs)
 
 
-- 
2.43.0


From 3c7c2c84ebb89b63beb0559189521dd59c75c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 81/98] fix: DTS JSON keeps the datatypes which JSON does not
 have

---
 MyCapytain/common/utils/_json_ld.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 82a98ab..95bfbad 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -1,4 +1,16 @@
+from math import isfinite
+
 from rdflib import Literal, URIRef
+from rdflib.namespace import XSD
+
+
+#: Types of the values which are written without datatype
+_JSON_TYPES = {
+    XSD.boolean: bool,
+    XSD.integer: int,
+    XSD.double: float,
+    XSD.string: str
+}
 
 
 def literal_to_dict(value):
@@ -12,7 +24,9 @@ def literal_to_dict(value):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
         python = value.toPython()
-        if value.datatype is not None and (isinstance(python, Literal) or not isinstance(python, (bool, int, float, str))):
+        if value.datatype is not None and (
+                type(python) is not _JSON_TYPES.get(value.datatype) or
+                (isinstance(python, float) and not isfinite(python))):
             # JSON does not have this type
             return {"@value": str(value), "@type": str(value.datatype)}
         return python
-- 
2.43.0


From c18a16bd8ee3c5a0f30df0eef163f2933dfb34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:45 +0000
Subject: [PATCH 82/98] fix: citations added to a citation belong to its root

---
 MyCapytain/common/reference/_base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index a295c60..9373a72 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -46,9 +46,7 @@ class BaseCitationSet(Exportable):
                 elif not isinstance(citation, (BaseCitation, type(self))):
                     raise TypeError("Citation children should be Citation")
                 else:
-                    root = self.root if isinstance(self, BaseCitation) else self
-                    for descendant in citation:
-                        descendant.root = root
+                    self._set_root_of(citation)
                     final_value.append(citation)
 
         self._children = final_value
@@ -60,8 +58,18 @@ class BaseCitationSet(Exportable):
         :return:
         """
         if isinstance(child, BaseCitation):
+            self._set_root_of(child)
             self._children.append(child)
 
+    def _set_root_of(self, child):
+        """ Connects a child and all of its descendants to the root of this object
+
+        :param child: Child citation
+        """
+        root = self.root if isinstance(self, BaseCitation) else self
+        for descendant in child:
+            descendant.root = root
+
     def __iter__(self):
         """ Iteration method
 
@@ -204,8 +212,8 @@ class BaseCitation(BaseCitationSet):
         self._root = None
 
         self.name = name
-        self.children = children
         self.root = root
+        self.children = children
 
     def is_root(self) -> str:
         """
-- 
2.43.0


From 37d76351419106dfd7b3fe4c88e1943a09ef65ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:59 +0000
Subject: [PATCH 83/98] fix: subreferences are words with apostrophes,
 combining marks or full stops too

---
 MyCapytain/common/reference/_capitains_cts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 86373f6..99748c0 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -10,7 +10,7 @@ from ._base import BaseCitation, BaseReference, BaseReferenceSet
 
 REFSDECL_SPLITTER = re.compile(r"/+[^/]+")
 REFSDECL_REPLACER = re.compile(r"\$[0-9]+")
-SUBREFERENCE = re.compile(r"(\w*)\[?([0-9]*)\]?", re.UNICODE)
+SUBREFERENCE = re.compile(r"([^\[\]]*)\[?([0-9]*)\]?", re.UNICODE)
 REFERENCE_REPLACER = re.compile(r"(@[a-zA-Z0-9:]+)(=)(\\?['\"](?:\$[0-9]+|\?)\\?['\"])")
 
 
@@ -104,11 +104,11 @@ class CtsSinglePassageId(str):
         yield from subref.split(".")
 
     def __len__(self) -> int:
-        return self.count(".") + 1
+        return len(self.list)
 
     @property
     def depth(self) -> int:
-        return self.count(".") + 1
+        return len(self.list)
 
 
 class CtsReference(BaseReference):
-- 
2.43.0


From 94cff6c54bda1b773a2e2b4b898b5d148d8f3f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:05 +0000
Subject: [PATCH 84/98] fix: inventories of different names are different

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 8915c24..ee50560 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -61,7 +61,7 @@ class PrototypeCtsCollection(Collection):
             return True
         elif not isinstance(other, self.__class__):
             return False
-        return hasattr(self, "urn") and hasattr(other, "urn") and self.urn == other.urn
+        return hasattr(self, "urn") and hasattr(other, "urn") and self.urn == other.urn and self.id == other.id
 
     def get_cts_property(self, prop, lang=None):
         """ Set given property in CTS Namespace
-- 
2.43.0


From e98c4a96bed7543bf16dee94f9cec32c4821839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:24 +0000
Subject: [PATCH 85/98] fix: labels of CTS replies and inventories are read
 whole, and empty ones are not None

---
 MyCapytain/common/utils/xml.py           | 11 +++++++++++
 MyCapytain/resources/collections/cts.py  | 12 ++++++------
 MyCapytain/resources/texts/remote/cts.py | 18 +++++++++---------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 55233e7..64708a9 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -16,6 +16,7 @@ __all__ = [
     "xmlparser",
     "normalizeXpath",
     "xmliter",
+    "textContent",
     "performXpath",
     "copyNode",
     "passageLoop"
@@ -81,6 +82,16 @@ def xmliter(node):
         return node
 
 
+def textContent(node):
+    """ Text of a node, whole even if there are comments or other nodes inside
+
+    :param node: XML Node
+    :return: Text (an empty string when there is none)
+    :rtype: str
+    """
+    return "".join(node.xpath(".//text()", smart_strings=False))
+
+
 def xmlparser(xml, objectify=True):
     """ Parse xml
 
diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 024e514..bb97cee 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -16,7 +16,7 @@ from lxml.objectify import IntElement, FloatElement
 from MyCapytain.resources.prototypes.cts import inventory as cts
 from MyCapytain.common.reference._capitains_cts import Citation as CitationPrototype
 from MyCapytain.common.utils import expand_namespace
-from MyCapytain.common.utils.xml import xmlparser
+from MyCapytain.common.utils.xml import textContent, xmlparser
 from MyCapytain.common.constants import XPATH_NAMESPACES, Mimetypes, RDF_NAMESPACES
 
 
@@ -111,7 +111,7 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = metadata.text or ""
+            s_m = textContent(metadata)
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
@@ -165,12 +165,12 @@ class XmlCtsTextMetadata(cts.CtsTextMetadata):
         for child in xml.xpath("ti:description", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("description", child.text or "", lg)
+                obj.set_cts_property("description", textContent(child), lg)
 
         for child in xml.xpath("ti:label", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                obj.set_cts_property("label", child.text or "", lg)
+                obj.set_cts_property("label", textContent(child), lg)
 
         obj.citation = cls.CLASS_CITATION.ingest(xml, obj.citation, "ti:online/ti:citationMapping/ti:citation")
 
@@ -270,7 +270,7 @@ class XmlCtsWorkMetadata(cts.CtsWorkMetadata):
         for child in xml.xpath("ti:title", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("title", child.text or "", lg)
+                o.set_cts_property("title", textContent(child), lg)
 
         # Parse children
         children = []
@@ -312,7 +312,7 @@ class XmlCtsTextgroupMetadata(cts.CtsTextgroupMetadata):
         for child in xml.xpath("ti:groupname", namespaces=XPATH_NAMESPACES):
             lg = child.get("{http://www.w3.org/XML/1998/namespace}lang")
             if lg is not None:
-                o.set_cts_property("groupname", child.text or "", lg)
+                o.set_cts_property("groupname", textContent(child), lg)
 
         # Parse Works
         _xpathDict(xml=xml, xpath='ti:work', cls=cls.CLASS_WORK, parent=o)
diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index e43b3a0..b15719b 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -11,7 +11,7 @@
 from __future__ import unicode_literals
 
 from MyCapytain.common.metadata import Metadata
-from MyCapytain.common.utils.xml import xmlparser
+from MyCapytain.common.utils.xml import textContent, xmlparser
 from MyCapytain.common.constants import XPATH_NAMESPACES, Mimetypes, RDF_NAMESPACES
 from MyCapytain.common.reference import CtsReference, URN
 from MyCapytain.resources.collections import cts as CtsCollection
@@ -192,23 +192,23 @@ class _SharedMethod(InteractiveTextualNode):
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
-            self.set_creator(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=textContent(node))
+            self.set_creator(textContent(node), lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
-            self.set_title(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=textContent(node))
+            self.set_title(textContent(node), lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
-            self.set_subject(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=textContent(node))
+            self.set_subject(textContent(node), lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
             lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
-            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
-            self.set_description(node.text, lang)
+            self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=textContent(node))
+            self.set_description(textContent(node), lang)
 
         # Need to code that p
         if not self.citation.is_set() and xml.xpath(".//ti:citation", namespaces=XPATH_NAMESPACES):
-- 
2.43.0


From 63c58e6d5785f5f5bfab957034d55b08e449cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:24 +0000
Subject: [PATCH 86/98] fix: ranges whose end is deeper than the text raise
 CitationDepthError, as those whose start is

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index b32906f..dc43b40 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -69,7 +69,7 @@ class _SharedMethods(TeiResource):
             elif isinstance(subreference, list):
                 subreference = CtsReference(".".join(subreference))
 
-        if len(subreference.start) > self.citation.root.depth:
+        if max(len(part) for part in (subreference.start, subreference.end) if part) > self.citation.root.depth:
             raise CitationDepthError("URN is deeper than citation scheme")
 
         if simple is True:
-- 
2.43.0


From c9639f23aa0f316789a1823fec9bb9dca7de8b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:30 +0000
Subject: [PATCH 87/98] fix: the plain text of remote texts leaves out what
 their default_exclude says

---
 MyCapytain/resources/texts/remote/cts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index b15719b..02b58fc 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -411,6 +411,8 @@ class CtsText(_SharedMethod, PrototypeCtsText):
         :type exclude: [str]
         :return: Object using a different representation
         """
+        if exclude is None:
+            exclude = self.default_exclude
         return self.getTextualNode().export(output, exclude)
 
 
-- 
2.43.0


From de370b8e152d1e3e963209b330c943889c04d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:25 +0000
Subject: [PATCH 88/98] fix: indexes of references within bounds of a reference
 set

---
 MyCapytain/common/reference/_capitains_cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 99748c0..9f76242 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -295,7 +295,7 @@ class CtsReferenceSet(BaseReferenceSet):
         _o = obj
         if not isinstance(obj, CtsReference):
             _o = CtsReference(obj)
-        return super(CtsReferenceSet, self).index(_o)
+        return super(CtsReferenceSet, self).index(_o, *args, **kwargs)
 
 
 class URN(object):
-- 
2.43.0


From 4cd686876611feb8af4a20f39e57d682fc09e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:10 +0000
Subject: [PATCH 89/98] fix: passages of local texts whose URN is the one of a
 work

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index dc43b40..5a4094a 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -40,7 +40,7 @@ def _make_passage_kwargs(urn, reference):
     kwargs = {}
     if urn is not None:
         if reference is not None:
-            kwargs["urn"] = URN("{}:{}".format(urn.upTo(URN.VERSION), reference))
+            kwargs["urn"] = URN("{}:{}".format(urn.upTo(URN.NO_PASSAGE), reference))
         else:
             kwargs["urn"] = urn
     return kwargs
-- 
2.43.0


From d4c8f48371972770560d540d870b7a19973a4432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:32 +0000
Subject: [PATCH 90/98] fix: texts parsed by a previous call are kept when
 another directory has an unusable file for them

---
 MyCapytain/resolvers/cts/local.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index d833e84..4b9a43e 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -301,7 +301,8 @@ class CtsCapitainsLocalResolver(Resolver):
                     _, parsed_texts, directory = parsed
                     texts.extend([(text, directory) for text in parsed_texts])
 
-        valids = set()
+        # Texts which were parsed by a previous call are known already
+        valids = {text.id for text in self.dispatcher.collection.readableDescendants if text.citation is not None}
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
             if not self._parse_text(text, directory):
-- 
2.43.0


From 78a89833d2529da3f4d0a0b8b6f1e19747c7e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:26 +0000
Subject: [PATCH 91/98] fix: the local resolver finds its own inventory by its
 identifier

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 4b9a43e..89226a1 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -446,7 +446,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type filters: dict
         :return: Collection
         """
-        if objectId is None:
+        if objectId is None or objectId == self.inventory.id:
             return self.inventory
         elif objectId in self.inventory.children.keys():
             return self.inventory[objectId]
-- 
2.43.0


From cb88cb5f95cec0b2d7fb811b300a27fabaf44365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:38 +0000
Subject: [PATCH 92/98] fix: fill citations with identifiers which hold an
 apostrophe or a backslash

---
 MyCapytain/common/reference/_capitains_cts.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 9f76242..9d24795 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -853,11 +853,13 @@ class Citation(BaseCitation):
         if xpath is True:  # Then passage is a string or None
             xpath = self.xpath
 
-            replacement = r"\1"
-            if isinstance(passage, str):
-                replacement = r"\1\2'" + passage + "'"
+            if not isinstance(passage, str):
+                passage = None
 
-            return REFERENCE_REPLACER.sub(replacement, xpath)
+            return REFERENCE_REPLACER.sub(
+                lambda m: _ref_replacer(m, iter([passage])),
+                xpath
+            )
         else:
             if isinstance(passage, CtsReference):
                 passage = passage.start.list
@@ -973,4 +975,6 @@ def _ref_replacer(match, passage):
     if ref is None:
         return groups[0]
     else:
-        return "{1}='{0}'".format(ref, groups[0])
\ No newline at end of file
+        # A value which holds an apostrophe cannot be written between apostrophes
+        quote = '"' if "'" in str(ref) else "'"
+        return "{1}={2}{0}{2}".format(ref, groups[0], quote)
\ No newline at end of file
-- 
2.43.0


From 5e64d4a20748b66c261df4341980bb418cc456e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:34 +0000
Subject: [PATCH 93/98] fix: the nested dictionary joins texts as plain text
 does

---
 MyCapytain/resources/texts/base/tei.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index ad3a980..e073972 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -109,7 +109,9 @@ class TeiResource(InteractiveTextualNode):
             text = nested_ordered_dictionary()
             for reff in reffs:
                 _r = str(reff).split(".")  # Only works for non range of course
-                nested_set(text, _r, self.getTextualNode(reff).export(
+                passage = self.getTextualNode(reff)
+                passage.plaintext_string_join = self.plaintext_string_join
+                nested_set(text, _r, passage.export(
                     Mimetypes.PLAINTEXT,
                     exclude=exclude,
                     _preformatted=True
-- 
2.43.0


From b372e33e9ea1b3b47bd6f18b7f49582aa110edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:10 +0000
Subject: [PATCH 94/98] fix: export metadata and collections with the prefixes
 of their own graph

---
 MyCapytain/common/metadata.py               | 2 +-
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index da04de7..5c7401b 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -163,7 +163,7 @@ class Metadata(Exportable):
         .. warning:: exclude and warning cannot be used together
         """
         graph = Graph()
-        graph.namespace_manager = get_graph().namespace_manager
+        graph.namespace_manager = self.graph.namespace_manager
 
         if only is not None:
             _only = []
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index adae22c..7ec9211 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -436,7 +436,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
+            store = Subgraph(dict(self.graph.namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From 51647c64aa60bde9770d956f3d5f99fb1070ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:59 +0000
Subject: [PATCH 95/98] fix: export citations and structured metadata with the
 prefixes of the graph of their collection

---
 MyCapytain/common/reference/_capitains_cts.py    | 9 ++++++---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 MyCapytain/resources/prototypes/metadata.py      | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 9d24795..d32463f 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -882,21 +882,24 @@ class Citation(BaseCitation):
         """
         return self.refsDecl is not None
 
-    def __export__(self, output=None, **kwargs):
+    def __export__(self, output=None, graph=None, **kwargs):
         if output == Mimetypes.XML.CTS:
+            # Prefixes are those of the graph of the collection exported
+            if graph is None:
+                graph = get_graph()
             if self.xpath is None and self.scope is None and self.refsDecl is None:
                 return ""
 
             child = ""
             if isinstance(self.child, Citation):
-                child = self.child.export(output=output)
+                child = self.child.export(output=output, graph=graph)
 
             label = ""
             if self.name is not None:
                 label = self.name
 
             return make_xml_node(
-                get_graph(), RDF_NAMESPACES.CTS.citation, attributes={
+                graph, RDF_NAMESPACES.CTS.citation, attributes={
                     "xpath": re.sub(Citation.escape, "'", self.xpath),
                     "scope": re.sub(Citation.escape, "'", self.scope),
                     "label": label
diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index ee50560..3ee5153 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -321,7 +321,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
                         # XmlCtsCitation Mapping
                         innerXML=make_xml_node(
                             self.graph, RDF_NAMESPACES.CTS.term("citationMapping"), complete=True,
-                            innerXML=self.citation.export(Mimetypes.XML.CTS)
+                            innerXML=self.citation.export(Mimetypes.XML.CTS, graph=self.graph)
                         )
                     )
                 )
diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7ec9211..d5f5352 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -293,7 +293,8 @@ class Collection(Exportable):
             else:
                 bindings["xmlns"] = str(URIRef(namespace))#[:-1]
         if cpt is True:
-            bindings["xmlns:cpt"] = str(RDF_NAMESPACES.CAPITAINS)
+            prefix, namespace, name = nm.compute_qname(RDF_NAMESPACES.CAPITAINS.term("structured-metadata"))
+            bindings["xmlns:" + prefix] = str(RDF_NAMESPACES.CAPITAINS)
 
         # Small hard coded fix for namespace that were not thought for RDF
         for k, v in bindings.items():
-- 
2.43.0


From adb58e3c741b893243847aa9f0f44626e806ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:52 +0000
Subject: [PATCH 96/98] fix: copied and pickled references keep their start and
 end

---
 MyCapytain/common/reference/_base.py          | 4 ++++
 MyCapytain/common/reference/_capitains_cts.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 9373a72..1193483 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -334,6 +334,10 @@ class BaseReference(tuple):
 
         return obj
 
+    def __getnewargs__(self):
+        # Copies and pickles are made of the start and of the end
+        return tuple(self)
+
     def is_range(self) -> int:
         return bool(self[1])
 
diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index d32463f..c38178d 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -172,6 +172,10 @@ class CtsReference(BaseReference):
 
         return o
 
+    def __getnewargs__(self):
+        # The end of a single passage is None
+        return tuple(self),
+
     @property
     def parent(self) -> Optional['CtsReference']:
         """ Parent of the actual URN, for example, 1.1 for 1.1.1
-- 
2.43.0


From 18ed55a5f92e095caa4bc443f6f824d060599f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:21 +0000
Subject: [PATCH 97/98] fix: negative levels of a citation are counted from its
 deepest level

---
 MyCapytain/common/reference/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 1193483..8fae96d 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -122,7 +122,8 @@ class BaseCitationSet(Exportable):
 
         """
         if item < 0:
-            _item = self.depth + item
+            # The levels are those of the children: a citation is not one of its own levels
+            _item = max([child.depth for child in self.children], default=0) + item
             if _item < 0:
                 raise CitationDepthError("The negative %s is too small " % _item)
             item = _item
-- 
2.43.0


From 136ddfd26b955b65c8c36c7a189b7656e3bb5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:35 +0000
Subject: [PATCH 98/98] fix: collections can be exported to DTS JSON with a
 given namespace manager

---
 MyCapytain/resources/prototypes/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index d5f5352..93a9502 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -351,7 +351,13 @@ class Collection(Exportable):
                 nsm["dct"] = DCTERMS
 
             else:
-                nsm = namespace_manager.namespaces()
+                nsm = {
+                    prefix: ns
+                    for prefix, ns in namespace_manager.namespaces()
+                    if str(ns) != _ns_hydra_str
+                }
+                # Hydra is the vocabulary of the document
+                nsm[""] = RDF_NAMESPACES.HYDRA
 
             # Set-up a derived graph
             store = Subgraph(nsm)
-- 
2.43.0

