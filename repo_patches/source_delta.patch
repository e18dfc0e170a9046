From e84e717bf0971b9453883985b46d69799b2054dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 01/26] fix: inherit the device-level size instead of a
 constant 32

Registers, clusters and peripherals without a size of their own inherit the
size specified on the device level; 32 is only the default if the device does
not specify a size.
---
 src/svdsuite/resolve/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..7745c85 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -435,7 +435,8 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            device = cast(SVDDevice, parent.parsed)
+            return device.size if device.size is not None else 32  # default size for device
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From 96f336ebc3adaf2b7f9110036f37a4aff619de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 02/26] fix: ignore a cluster whose registers are all ignored
 instead of failing

A cluster that only contains registers with an unsupported size was given the
size 0 and aborted the processing with 'Unsupported register size'. It is now
ignored with a warning, in the same way as a peripheral or an empty cluster.
---
 src/svdsuite/process.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..6621af3 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -817,6 +817,15 @@ class _ValidateAndFinalize:
     ) -> None | Cluster | Register:
         effective_base = parent_base + i_reg_cluster.address_offset
 
+        # A cluster whose registers and clusters are all ignored has no size and is ignored as well.
+        if isinstance(i_reg_cluster, ICluster) and i_reg_cluster.size == 0 and i_reg_cluster.registers_clusters:
+            if not self._validate_and_finalize_registers_clusters(i_reg_cluster.registers_clusters, effective_base):
+                warnings.warn(
+                    f"Cluster '{i_reg_cluster.name}' has no registers. Cluster will be ignored!",
+                    ProcessWarning,
+                )
+                return None
+
         # Check if size is not None
         if i_reg_cluster.size is None:
             raise ProcessException(f"Register/Cluster '{i_reg_cluster.name}' size is None")
-- 
2.43.0


From 7d681ba581333567ecb70b00216ae4c3cafb3457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 03/26] fix: do not replicate derive edges twice

When an element was derived from an element with derived descendants that were
not processed yet, the replicated descendants got two derive edges. Only one of
them was removed on processing, so that the remaining one was mistaken for a
parent-child relationship and the processing aborted (e.g. with
"'SVDField' object has no attribute 'header_enum_name'").
---
 src/svdsuite/resolve/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b152d4c..79660ac 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -256,7 +256,7 @@ class ResolverGraph:
         for rx_index in rx_indices_to_replicate:
             # replicate outgoing _EdgeType.PROCESSED and _EdgeType.UNPROCESSED edges
             for _, child_rx_index, edge_type in self._graph.out_edges(rx_index):
-                if child_rx_index not in rx_indices_to_replicate:
+                if child_rx_index not in rx_indices_to_replicate or edge_type == EdgeType.DERIVE:
                     continue
 
                 self._graph.add_edge(replica_mapping[rx_index], replica_mapping[child_rx_index], edge_type)
-- 
2.43.0


From 27b324d4a5483c0e8cbfab68fc9c9773d990afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 04/26] fix: wait for an unprocessed derivation base before
 processing dependants

---
 src/svdsuite/resolve/resolver.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 7745c85..f06e454 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -215,6 +215,25 @@ class Resolver:
                 self._resolver_graph.add_edge(new_node, child, EdgeType.CHILD_RESOLVED)
 
     def _find_processable_nodes(self) -> list[ElementNode]:
+        # A node can't be processed before its base. Hence, nodes whose base is neither processed nor processable in the
+        # current round have to wait (together with their descendants) for a later round.
+        waiting: set[ElementNode] = set()
+        while True:
+            result = self._find_placeholder_free_nodes(waiting)
+            processable = set(result)
+
+            newly_waiting = {node for node in result if self._is_waiting_for_base(node, processable)}
+            if not newly_waiting:
+                return result
+
+            waiting |= newly_waiting
+
+    def _is_waiting_for_base(self, node: ElementNode, processable: set[ElementNode]) -> bool:
+        base_node = self._resolver_graph.get_base_element_node(node)
+
+        return base_node is not None and base_node.status == NodeStatus.UNPROCESSED and base_node not in processable
+
+    def _find_placeholder_free_nodes(self, waiting: set[ElementNode]) -> list[ElementNode]:
         not_allowed_edge_types = {
             EdgeType.PLACEHOLDER,
         }
@@ -229,7 +248,7 @@ class Resolver:
         # iterative depth search
         while stack:
             node = stack.pop()
-            if node in visited:
+            if node in visited or node in waiting:
                 continue
             visited.add(node)
 
-- 
2.43.0


From 6adfdb2e9fff94e1ec7defd5ef5105865bbbb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 05/26] fix: do not crash on an alternate peripheral or cluster
 which does not exist

---
 src/svdsuite/process.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 6621af3..9d19fcc 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -765,7 +765,11 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            try:
+                primary = peripheral_lookup[current].alternate_peripheral
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
@@ -984,7 +988,11 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            try:
+                primary = cluster_lookup[current].alternate_cluster
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From f9bee9ef833867865856d81e5244cb9f384971bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 06/26] fix: serialize a bit offset, bit width, lsb or msb
 given alone

---
 src/svdsuite/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..c0cffdc 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -316,12 +316,16 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From c3778cbdb0e7abefc4fb71f3bb9fd248b372870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 07/26] fix: allocated range of a peripheral covers all of its
 address blocks

---
 src/svdsuite/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..016460b 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -84,6 +84,6 @@ class PeripheralRegisterMap:
             raise ValueError("Address blocks are empty")
 
         begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
 
         return (begin, end)
-- 
2.43.0


From ea498a82f91600e08338645df3f0fcdf041620c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 08/26] fix: do not truncate the target file if serialization
 fails

---
 src/svdsuite/serialize.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index c0cffdc..5631740 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -20,15 +20,11 @@ from svdsuite.model.parse import (
 class Serializer:
     @staticmethod
     def device_to_svd_file(path: str, device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True):
+        # serialize first, so that an existing file is not truncated if the device can't be serialized
+        content = Serializer.device_to_svd_content(device, pretty_print, xml_declaration)
+
         with open(path, "wb") as f:
-            f.write(
-                lxml.etree.tostring(
-                    SVDDeviceSerializer(device).to_xml(),
-                    pretty_print=pretty_print,
-                    xml_declaration=xml_declaration,
-                    encoding="utf-8",
-                )
-            )
+            f.write(content)
 
     @staticmethod
     def device_to_svd_content(device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True) -> bytes:
-- 
2.43.0


From 53b0b094d4ded53d392a97361f4f62ef49ab2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 09/26] fix: write the resolver log file when the resolver did
 not get stuck in a loop

---
 src/svdsuite/resolve/resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index f06e454..a66d5c2 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -81,6 +81,7 @@ class Resolver:
             self._logger.log_round_end()
 
         self._logger.log_repeating_steps_finished()
+        self._logger.log_finalize()
 
         if self._resolver_graph.get_unprocessed_nodes():
             raise UnprocessedNodesException(
-- 
2.43.0


From 95fc7adf548633febbd4fe102ed9c81e40649049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 10/26] fix: ignore the declared encoding when parsing an
 already decoded string

---
 src/svdsuite/map.py            |  2 +-
 src/svdsuite/parse.py          |  8 ++++----
 src/svdsuite/process.py        |  2 +-
 src/svdsuite/util/xml_parse.py | 13 ++++++++++---
 src/svdsuite/validate.py       |  4 ++--
 5 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index 016460b..14cf2a5 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -10,7 +10,7 @@ class PeripheralRegisterMap:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Process.from_xml_content(xml_str.encode(), resolver_logging_file_path).get_processed_device())
+        return cls(Process.from_xml_str(xml_str, resolver_logging_file_path).get_processed_device())
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..ac19648 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -33,7 +33,7 @@ from svdsuite.model.types import (
     SauAccessType,
 )
 from svdsuite.util.parser_exception_warning import ParserException, ParserWarning, custom_warning_format
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import safe_parse, safe_fromstr, safe_fromstring
 
 warnings.formatwarning = custom_warning_format
 
@@ -101,9 +101,9 @@ class Parser:
     def from_svd_file(cls, path: str):
         return cls(safe_parse(path))
 
-    @staticmethod
-    def from_xml_str(xml_str: str):
-        return Parser.from_xml_content(xml_str.encode())
+    @classmethod
+    def from_xml_str(cls, xml_str: str):
+        return cls(safe_fromstr(xml_str).getroottree())
 
     @classmethod
     def from_xml_content(cls, content: bytes):
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 9d19fcc..023769e 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -71,7 +71,7 @@ class Process:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Parser.from_xml_content(xml_str.encode()).get_parsed_device(), resolver_logging_file_path)
+        return cls(Parser.from_xml_str(xml_str).get_parsed_device(), resolver_logging_file_path)
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 5bccf84..2017bb7 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -49,10 +49,17 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     raise original_exception
 
 
-def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
-    # First attempt: no encoding, recover=False.
+def safe_fromstr(xml_str: str) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
+    # The string is already decoded, hence the encoding given in its XML declaration doesn't apply to the encoded bytes.
+    return safe_fromstring(xml_str.encode(), encoding="utf-8")
+
+
+def safe_fromstring(
+    content: bytes, encoding: None | str = None
+) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
+    # First attempt: no encoding (except it is known), recover=False.
     try:
-        parser = etree.XMLParser(recover=False)
+        parser = etree.XMLParser(encoding=encoding, recover=False)
         root = etree.fromstring(content, parser=parser)
         return root
     except etree.XMLSyntaxError as e:
diff --git a/src/svdsuite/validate.py b/src/svdsuite/validate.py
index 9f18e80..7f3b32b 100644
--- a/src/svdsuite/validate.py
+++ b/src/svdsuite/validate.py
@@ -3,7 +3,7 @@ from enum import Enum
 from packaging.version import Version
 import lxml.etree
 
-from svdsuite.util.xml_parse import safe_parse, safe_fromstring
+from svdsuite.util.xml_parse import safe_parse, safe_fromstr, safe_fromstring
 
 
 class SVDSchemaVersion(Enum):
@@ -50,7 +50,7 @@ class Validator:
     def validate_xml_str(
         xml_str: str, get_exception: bool = True, schema_version: SVDSchemaVersion = SVDSchemaVersion.get_latest()
     ) -> bool:
-        return Validator.validate_xml_content(xml_str.encode(), get_exception, schema_version)
+        return Validator._validate(safe_fromstr(xml_str).getroottree(), get_exception, schema_version)
 
     @staticmethod
     def _validate(
-- 
2.43.0


From 2057cf2d2f76df515e0d1ab34121eb739f00902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 11/26] fix: comments and processing instructions do not cut
 off element text

---
 src/svdsuite/util/xml_parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 2017bb7..7d2c17d 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -13,7 +13,7 @@ _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     try:
-        parser = etree.XMLParser(recover=False)
+        parser = etree.XMLParser(recover=False, remove_comments=True, remove_pis=True)
         tree = etree.parse(path_or_file, parser=parser)
         return tree
     except etree.XMLSyntaxError as e:
@@ -22,7 +22,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
+            parser = etree.XMLParser(encoding=enc, recover=False, remove_comments=True, remove_pis=True)
             tree = etree.parse(path_or_file, parser=parser)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=False.",
@@ -35,7 +35,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
+            parser = etree.XMLParser(encoding=enc, recover=True, remove_comments=True, remove_pis=True)
             tree = etree.parse(path_or_file, parser=parser)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
@@ -59,7 +59,7 @@ def safe_fromstring(
 ) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding (except it is known), recover=False.
     try:
-        parser = etree.XMLParser(encoding=encoding, recover=False)
+        parser = etree.XMLParser(encoding=encoding, recover=False, remove_comments=True, remove_pis=True)
         root = etree.fromstring(content, parser=parser)
         return root
     except etree.XMLSyntaxError as e:
@@ -68,7 +68,7 @@ def safe_fromstring(
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
+            parser = etree.XMLParser(encoding=enc, recover=False, remove_comments=True, remove_pis=True)
             root = etree.fromstring(content, parser=parser)
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=False.",
@@ -81,7 +81,7 @@ def safe_fromstring(
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
+            parser = etree.XMLParser(encoding=enc, recover=True, remove_comments=True, remove_pis=True)
             root = etree.fromstring(content, parser=parser)
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=True.",
-- 
2.43.0


From 5f947a9c05da229b4ac5604d73dc9cf0efaa227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 12/26] fix: several registers of one name in alternate groups
 are told apart once they are processed

---
 src/svdsuite/resolve/resolver.py | 33 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index a66d5c2..ffcdcd8 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -310,17 +310,24 @@ class Resolver:
                     )
                     matches.extend(child_matches)
 
-                if len(matches) > 1:
-                    filtered_matches = [
-                        match
-                        for match in matches
-                        if isinstance(match.processed, IRegister) and match.processed.alternate_group is None
-                    ]
-                    if len(filtered_matches) == 1:
-                        return filtered_matches
-
-                    # More than one match found – raise exception immediately
-                    raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
+            if len(matches) > 1:
+                # The alternate group of a register is not known before the register is processed
+                if any(
+                    match.level == ElementLevel.REGISTER and match.status == NodeStatus.UNPROCESSED
+                    for match in matches
+                ):
+                    return matches
+
+                filtered_matches = [
+                    match
+                    for match in matches
+                    if isinstance(match.processed_or_none, IRegister) and match.processed.alternate_group is None
+                ]
+                if len(filtered_matches) == 1:
+                    return filtered_matches
+
+                # More than one match found – raise exception
+                raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
 
             return matches
 
@@ -330,6 +337,10 @@ class Resolver:
         if len(matches) == 1:
             return matches[0]
 
+        # Several matches, which can't be told apart yet
+        if matches:
+            return None
+
         # If not found, search over all peripherals
         peripherals = self._resolver_graph.get_element_childrens(self._root_node)
         matches = search_nodes(peripherals, derive_path_parts, derived_node, level)
-- 
2.43.0


From 9d5ddca985decf9a1a9e89379d8e7ccae7b8b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 13/26] fix: a derivation path prefers its own scope over a
 peripheral of the same name

---
 src/svdsuite/resolve/resolver.py | 38 ++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index ffcdcd8..3c0b289 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -341,6 +341,10 @@ class Resolver:
         if matches:
             return None
 
+        # The scope takes precedence, wait if the path may match as soon as further elements of the scope are processed
+        if self._is_match_pending(siblings, derive_path_parts, derived_node):
+            return None
+
         # If not found, search over all peripherals
         peripherals = self._resolver_graph.get_element_childrens(self._root_node)
         matches = search_nodes(peripherals, derive_path_parts, derived_node, level)
@@ -350,6 +354,40 @@ class Resolver:
         # No matches found
         return None
 
+    def _is_match_pending(self, nodes: list[ElementNode], path_parts: list[str], exclude_node: ElementNode) -> bool:
+        if len(path_parts) < 2:
+            return False
+
+        for node in nodes:
+            if node == exclude_node or node.name is None:
+                continue
+
+            if node.name != path_parts[0]:
+                # Instances of a dim element don't exist before the dim element is processed
+                prefix, placeholder, suffix = node.name.replace("[%s]", "%s").partition("%s")
+                if (
+                    placeholder
+                    and node.status == NodeStatus.UNPROCESSED
+                    and len(path_parts[0]) > len(prefix) + len(suffix)
+                    and path_parts[0].startswith(prefix)
+                    and path_parts[0].endswith(suffix)
+                ):
+                    return True
+                continue
+
+            # Descendants of the base are not available before the derived element is processed
+            if (
+                node.status == NodeStatus.UNPROCESSED
+                and not isinstance(node.parsed, SVDDevice)
+                and node.parsed.derived_from is not None
+            ):
+                return True
+
+            if self._is_match_pending(self._resolver_graph.get_element_childrens(node), path_parts[1:], exclude_node):
+                return True
+
+        return False
+
     def _is_placeholder_parent_resolved(self, placeholder: PlaceholderNode) -> bool:
         parent = self._resolver_graph.get_placeholder_parent(placeholder)
 
-- 
2.43.0


From 801fe32563988270fe250ea6a282d354e908e47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 14/26] fix: keep placeholders when descendants of a dim
 instance are replicated

---
 src/svdsuite/resolve/graph.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 79660ac..6a4a6fd 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -239,6 +239,17 @@ class ResolverGraph:
                 rx_indices_to_replicate.add(child_rx_index)
                 stack.append(child_rx_index)
 
+        # placeholders of immediate children, which are (in case of a dim instance) only connected to the dim template
+        placeholder_rx_indices = [
+            parent_rx_index
+            for _, child_rx_index, _ in self._graph.out_edges(source_rx_index)
+            if child_rx_index in rx_indices_to_replicate
+            for parent_rx_index, _, edge_type in self._graph.in_edges(child_rx_index)
+            if edge_type == EdgeType.PLACEHOLDER and isinstance(self._graph[parent_rx_index], PlaceholderNode)
+            if parent_rx_index not in rx_indices_to_replicate
+        ]
+        rx_indices_to_replicate.update(placeholder_rx_indices)
+
         # replicate the nodes and map the indicies
         replica_mapping: dict[int, int] = {}
         for rx_index in rx_indices_to_replicate:
@@ -271,7 +282,7 @@ class ResolverGraph:
             child_rx_index
             for _, child_rx_index, _ in self._graph.out_edges(source_rx_index)
             if child_rx_index in rx_indices_to_replicate
-        ]
+        ] + placeholder_rx_indices
 
         # attach the replicated subgraph to target_node
         target_rx_index = self._node_to_rx_index[target_node]
-- 
2.43.0


From 9f7153fbaba709abfae19ae40fd169c466b3f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 15/26] fix: reject an element derived from one which contains
 it

---
 src/svdsuite/resolve/resolver.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 3c0b289..3dc02b9 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -142,8 +142,25 @@ class Resolver:
         if isinstance(base_node.processed_or_none, IDevice):
             raise ResolveException("Base node can't be a Device")
 
+        if self._is_ancestor(base_node, derived_node):
+            raise CycleException(f"Node '{derived_node.name}' is derived from '{base_node.name}', which contains it")
+
         return base_node
 
+    def _is_ancestor(self, ancestor: ElementNode, node: ElementNode) -> bool:
+        visited: set[ElementNode] = set()
+        stack = self._resolver_graph.get_element_parents(node)
+        while stack:
+            parent = stack.pop()
+            if parent is ancestor:
+                return True
+
+            if parent not in visited:
+                visited.add(parent)
+                stack.extend(self._resolver_graph.get_element_parents(parent))
+
+        return False
+
     def _process_enumerated_value_container_node(self, node: ElementNode, base_node: None | ElementNode):
         # if base_node_id is not None, update the node with the base node's parsed attribute (copy from base)
         if base_node is not None:
-- 
2.43.0


From 45d1a76540f55452a76ff1346ca8253c9bbc09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 16/26] fix: reject a dimIndex of which only the beginning is
 well-formed

---
 src/svdsuite/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 023769e..0ce1d22 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1135,25 +1135,25 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [chr(i) for i in range(ord(start), ord(end) + 1)]
-        elif re.match(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
             dim_index_no_whitespace = re.sub(r"\s+", "", dim_index)
             dim_index_list = dim_index_no_whitespace.split(",")
         # Not supported by the XSD, but required to parse some vendor files
-        elif re.match(r"[_0-9a-zA-Z]+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+", dim_index):
             dim_index_list = [dim_index]
         else:
             raise ProcessException(f"can't resolve dim index for '{dim_index}'")
-- 
2.43.0


From 2bd0bbc39b8b210d1385330a3f7f021aea29e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 17/26] fix: do not crash on repeated elements of which one is
 empty

---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index ac19648..7f482ac 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0


From 889419bee18a5f996c6bf237d1918d91809b9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 18/26] fix: write constraints of a converted device refer to
 their register or field

---
 src/svdsuite/util/process_parse_model_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..f550f46 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -183,6 +183,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
         parent=None,  # set by parent register
     )
 
+    if svd_field.write_constraint:
+        svd_field.write_constraint.parent = svd_field
+
     for container in enumerated_value_containers:
         container.parent = svd_field
 
@@ -215,6 +218,9 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
         parent=None,  # set by parent cluster or peripheral
     )
 
+    if svd_register.write_constraint:
+        svd_register.write_constraint.parent = svd_register
+
     for field in fields:
         field.parent = svd_register
 
-- 
2.43.0


From e497197d20ce79498784310411af5ea514d8d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 19/26] fix: derived elements do not share address blocks and
 write constraints with their base

---
 src/svdsuite/model/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/model/process.py b/src/svdsuite/model/process.py
index b4d75d3..e5a0817 100644
--- a/src/svdsuite/model/process.py
+++ b/src/svdsuite/model/process.py
@@ -1,3 +1,4 @@
+from copy import copy
 from dataclasses import dataclass, fields as dataclass_fields
 
 from svdsuite.model.types import (
@@ -251,6 +252,7 @@ class Field(FieldBase):
         cls, i_field: IField, enumerated_value_containers: list[EnumeratedValueContainer]
     ) -> "Field":
         base_kwargs = {field.name: getattr(i_field, field.name) for field in dataclass_fields(FieldBase)}
+        base_kwargs["write_constraint"] = copy(base_kwargs["write_constraint"])  # may be shared with the base
 
         if i_field.access is None:
             raise ValueError("access must be specified")
@@ -314,6 +316,7 @@ class Register(RegisterBase):
         base_address: int,
     ) -> "Register":
         base_kwargs = {field.name: getattr(i_register, field.name) for field in dataclass_fields(RegisterBase)}
+        base_kwargs["write_constraint"] = copy(base_kwargs["write_constraint"])  # may be shared with the base
 
         size, access, protection, reset_value, reset_mask = reg_prop_validator(
             i_register.size,
@@ -465,6 +468,7 @@ class Peripheral(PeripheralBase):
         registers: list[Register],
     ) -> "Peripheral":
         base_kwargs = {field.name: getattr(i_peripheral, field.name) for field in dataclass_fields(PeripheralBase)}
+        base_kwargs["address_blocks"] = [copy(block) for block in i_peripheral.address_blocks]  # may be shared
 
         size, access, protection, reset_value, reset_mask = reg_prop_validator(
             i_peripheral.size,
-- 
2.43.0


From 11123e73d89d145bcf89fbb032e543080c3760fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 20/26] fix: try the fallback encodings for files with invalid
 bytes as for content

---
 src/svdsuite/util/xml_parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 7d2c17d..4b5d8b1 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -16,7 +16,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
         parser = etree.XMLParser(recover=False, remove_comments=True, remove_pis=True)
         tree = etree.parse(path_or_file, parser=parser)
         return tree
-    except etree.XMLSyntaxError as e:
+    except (etree.XMLSyntaxError, OSError) as e:  # invalid bytes of a file are reported as an OSError
         original_exception = e
 
     # Second attempt: try common encodings with recover=False.
@@ -29,7 +29,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except (etree.XMLSyntaxError, OSError):
             continue
 
     # Third attempt: try common encodings with recover=True.
@@ -42,7 +42,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except (etree.XMLSyntaxError, OSError):
             continue
 
     # If all attempts fail, re-raise the original exception.
-- 
2.43.0


From d1b74fbb566753cc01f2bfa9748b1b9598b002ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 21/26] fix: quotation marks and backslashes in names do not
 break resolver logging

---
 src/svdsuite/resolve/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 6a4a6fd..94a297a 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -361,6 +361,9 @@ class ResolverGraph:
                     queue.append(parent)
 
     def get_svg(self) -> str:
+        def escape(text: str) -> str:
+            return text.replace("\\", "\\\\").replace('"', '\\"')
+
         def node_attr_fn(node: ResolverNode) -> dict[str, str]:
             if isinstance(node, ElementNode):
                 if node.level == ElementLevel.DEVICE:
@@ -368,7 +371,7 @@ class ResolverGraph:
 
                 return {
                     "label": (
-                        f"{node.name}\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
+                        f"{escape(node.name)}\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
                         if node.name
                         else f"no name\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
                     ),
@@ -377,7 +380,7 @@ class ResolverGraph:
                 }
             elif isinstance(node, PlaceholderNode):
                 return {
-                    "label": f"{node.derive_path}\n(Placeholder)\nrx_index: {self._node_to_rx_index[node]}",
+                    "label": f"{escape(node.derive_path)}\n(Placeholder)\nrx_index: {self._node_to_rx_index[node]}",
                     "color": "red",
                     "fontcolor": "red",
                 }
-- 
2.43.0


From 21c3871726aa29b9f7e542f8499f4eef4f81071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 22/26] fix: comparing parsed devices does not recurse forever
 through the parents

---
 src/svdsuite/model/parse.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/svdsuite/model/parse.py b/src/svdsuite/model/parse.py
index c059139..7edd31c 100644
--- a/src/svdsuite/model/parse.py
+++ b/src/svdsuite/model/parse.py
@@ -21,7 +21,7 @@ class SVDSauRegion:
     base: int
     limit: int
     access: SauAccessType
-    parent: "None | SVDSauRegionsConfig" = None
+    parent: "None | SVDSauRegionsConfig" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -29,7 +29,7 @@ class SVDSauRegionsConfig:
     enabled: None | bool = None
     protection_when_disabled: None | ProtectionStringType = None
     regions: list[SVDSauRegion] = field(default_factory=list)
-    parent: "None | SVDCPU" = None
+    parent: "None | SVDCPU" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -51,7 +51,7 @@ class SVDCPU:
     device_num_interrupts: None | int = None
     sau_num_regions: None | int = None
     sau_regions_config: None | SVDSauRegionsConfig = None
-    parent: "None | SVDDevice" = None
+    parent: "None | SVDDevice" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -60,14 +60,14 @@ class SVDEnumeratedValue:
     description: None | str = None
     value: None | str = None  # int value, but can contain 'do not care' bits represented by >x<
     is_default: None | bool = None
-    parent: "None | SVDEnumeratedValueContainer | SVDDimArrayIndex" = None
+    parent: "None | SVDEnumeratedValueContainer | SVDDimArrayIndex" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
 class SVDDimArrayIndex:
     header_enum_name: None | str = None
     enumerated_values: list[SVDEnumeratedValue]
-    parent: "None | SVDPeripheral | SVDCluster | SVDRegister | SVDField" = None
+    parent: "None | SVDPeripheral | SVDCluster | SVDRegister | SVDField" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -94,7 +94,7 @@ class SVDAddressBlock:
     size: int
     usage: EnumeratedTokenType
     protection: None | ProtectionStringType = None
-    parent: "None | SVDPeripheral" = None
+    parent: "None | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -102,7 +102,7 @@ class SVDInterrupt:
     name: str
     description: None | str = None
     value: int
-    parent: "None | SVDPeripheral" = None
+    parent: "None | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -110,7 +110,7 @@ class SVDWriteConstraint:
     write_as_read: None | bool = None
     use_enumerated_values: None | bool = None
     range_: None | tuple[int, int] = None
-    parent: "None | SVDField | SVDRegister" = None
+    parent: "None | SVDField | SVDRegister" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -120,7 +120,7 @@ class SVDEnumeratedValueContainer:
     usage: None | EnumUsageType = None
     enumerated_values: list[SVDEnumeratedValue]
     derived_from: None | str = None
-    parent: "None | SVDField" = None
+    parent: "None | SVDField" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -138,7 +138,7 @@ class SVDField(_SVDDimElementGroup):
     read_action: None | ReadActionType = None
     enumerated_value_containers: list[SVDEnumeratedValueContainer] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDRegister" = None
+    parent: "None | SVDRegister" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -155,7 +155,7 @@ class SVDRegister(_SVDDimElementGroup, _SVDRegisterPropertiesGroup):
     read_action: None | ReadActionType = None
     fields: list[SVDField] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDCluster  | SVDPeripheral" = None
+    parent: "None | SVDCluster  | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -167,7 +167,7 @@ class SVDCluster(_SVDDimElementGroup, _SVDRegisterPropertiesGroup):
     address_offset: int
     registers_clusters: list["SVDRegister | SVDCluster"] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDCluster | SVDPeripheral" = None
+    parent: "None | SVDCluster | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -186,7 +186,7 @@ class SVDPeripheral(_SVDDimElementGroup, _SVDRegisterPropertiesGroup):
     interrupts: list[SVDInterrupt] = field(default_factory=list)
     registers_clusters: list[SVDRegister | SVDCluster] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDDevice" = None
+    parent: "None | SVDDevice" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
-- 
2.43.0


From fe9a7db9603c63ffaaa452004a348fc95f075866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 23/26] fix: default enumerated value of a field with MSB below
 LSB raised a TypeError

---
 src/svdsuite/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 0ce1d22..96ac47b 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1269,7 +1269,8 @@ class _ProcessEnumeratedValueContainer:
         self, enumerated_values: list[IEnumeratedValue], default: IEnumeratedValue, lsb: int, msb: int
     ) -> list[IEnumeratedValue]:
         covered_values = {value.value for value in enumerated_values if value.value is not None}
-        all_possible_values = set(range(pow(2, msb - lsb + 1)))
+        # A field with MSB smaller than LSB is only warned about, it has no values at all.
+        all_possible_values = set(range(int(pow(2, msb - lsb + 1))))
 
         uncovered_values = all_possible_values - covered_values
 
-- 
2.43.0


From 0656c518a6fb5c54e1aab797406b858a38a7926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 24/26] fix: text without any element was parsed to a tree
 without root instead of being refused

---
 src/svdsuite/util/xml_parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 4b5d8b1..9542d38 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -37,6 +37,8 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
         try:
             parser = etree.XMLParser(encoding=enc, recover=True, remove_comments=True, remove_pis=True)
             tree = etree.parse(path_or_file, parser=parser)
+            if tree.getroot() is None:  # nothing could be recovered
+                continue
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
@@ -83,6 +85,8 @@ def safe_fromstring(
         try:
             parser = etree.XMLParser(encoding=enc, recover=True, remove_comments=True, remove_pis=True)
             root = etree.fromstring(content, parser=parser)
+            if root is None:  # nothing could be recovered
+                continue
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
-- 
2.43.0


From d52096cb836efd627d1430d4d8d73be13abf4871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 25/26] fix: values made from a default do not repeat the name
 of another enumerated value

---
 src/svdsuite/process.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 96ac47b..5510724 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1273,11 +1273,18 @@ class _ProcessEnumeratedValueContainer:
         all_possible_values = set(range(int(pow(2, msb - lsb + 1))))
 
         uncovered_values = all_possible_values - covered_values
+        covered_names = {value.name for value in enumerated_values}
 
         for value in uncovered_values:
+            name = f"{default.name}_{value}"
+
+            if name in covered_names:
+                warnings.warn(f"Duplicate enumerated value name found: {name}. Ignoring value.", ProcessWarning)
+                continue
+
             enumerated_values.append(
                 IEnumeratedValue(
-                    name=f"{default.name}_{value}",
+                    name=name,
                     description=default.description,
                     value=value,
                     is_default=False,
-- 
2.43.0


From 3b47c56b06c03fe823f57c8e6b71ba71d7e33191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 26/26] fix: a converted device does not carry what the schema
 does not allow

---
 .../util/process_parse_model_convert.py       | 47 +++++++++++++------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index f550f46..5912bdd 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -30,6 +30,17 @@ from svdsuite.model.process import (
     SauRegionsConfig,
     WriteConstraint,
 )
+from svdsuite.model.types import ProtectionStringType
+
+
+def _convert_protection(
+    protection: ProtectionStringType, inherited: ProtectionStringType = ProtectionStringType.ANY
+) -> None | ProtectionStringType:
+    # 'any' stands for an unspecified protection and cannot be written, it is only needed to override an inherited one
+    if protection == ProtectionStringType.ANY and inherited == ProtectionStringType.ANY:
+        return None
+
+    return protection
 
 
 def process_parse_convert_sau_region(region: SauRegion) -> SVDSauRegion:
@@ -96,7 +107,7 @@ def process_parse_convert_enumerated_value(value: EnumeratedValue) -> SVDEnumera
         name=value.name,
         description=value.description,
         value=str(value.value),
-        is_default=False,
+        is_default=None,  # each value is explicit, the schema allows only one of both
         parent=None,  # set by parent enumerated value or dim array index
     )
 
@@ -121,7 +132,7 @@ def process_parse_convert_address_block(block: AddressBlock) -> SVDAddressBlock:
         offset=block.offset,
         size=block.size,
         usage=block.usage,
-        protection=block.protection,
+        protection=_convert_protection(block.protection),
         parent=None,  # set by parent peripheral
     )
 
@@ -192,7 +203,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
     return svd_field
 
 
-def process_parse_convert_register(register: Register) -> SVDRegister:
+def process_parse_convert_register(
+    register: Register, inherited_protection: ProtectionStringType = ProtectionStringType.ANY
+) -> SVDRegister:
     fields = [process_parse_convert_field(field) for field in register.fields]
 
     svd_register = SVDRegister(
@@ -204,7 +217,7 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
         address_offset=register.address_offset,
         size=register.size,
         access=register.access,
-        protection=register.protection,
+        protection=_convert_protection(register.protection, inherited_protection),
         reset_value=register.reset_value,
         reset_mask=register.reset_mask,
         data_type=register.data_type,
@@ -227,13 +240,15 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
     return svd_register
 
 
-def process_parse_convert_cluster(cluster: Cluster) -> SVDCluster:
+def process_parse_convert_cluster(
+    cluster: Cluster, inherited_protection: ProtectionStringType = ProtectionStringType.ANY
+) -> SVDCluster:
     registers_clusters: list[SVDCluster | SVDRegister] = []
     for register_cluster in cluster.registers_clusters:
         if isinstance(register_cluster, Register):
-            converted = process_parse_convert_register(register_cluster)
+            converted = process_parse_convert_register(register_cluster, cluster.protection)
         elif isinstance(register_cluster, Cluster):  # pyright: ignore[reportUnnecessaryIsInstance]
-            converted = process_parse_convert_cluster(register_cluster)
+            converted = process_parse_convert_cluster(register_cluster, cluster.protection)
         else:
             raise ValueError(f"Invalid register type: {type(register_cluster)}")
 
@@ -247,7 +262,7 @@ def process_parse_convert_cluster(cluster: Cluster) -> SVDCluster:
         address_offset=cluster.address_offset,
         size=cluster.size,
         access=cluster.access,
-        protection=cluster.protection,
+        protection=_convert_protection(cluster.protection, inherited_protection),
         reset_value=cluster.reset_value,
         reset_mask=cluster.reset_mask,
         registers_clusters=registers_clusters,
@@ -261,16 +276,18 @@ def process_parse_convert_cluster(cluster: Cluster) -> SVDCluster:
     return svd_cluster
 
 
-def process_parse_convert_peripheral(peripheral: Peripheral) -> SVDPeripheral:
+def process_parse_convert_peripheral(
+    peripheral: Peripheral, inherited_protection: ProtectionStringType = ProtectionStringType.ANY
+) -> SVDPeripheral:
     address_blocks = [process_parse_convert_address_block(block) for block in peripheral.address_blocks]
     interrupts = [process_parse_convert_interrupt(interrupt) for interrupt in peripheral.interrupts]
 
     registers_clusters: list[SVDCluster | SVDRegister] = []
     for register_cluster in peripheral.registers_clusters:
         if isinstance(register_cluster, Register):
-            converted = process_parse_convert_register(register_cluster)
+            converted = process_parse_convert_register(register_cluster, peripheral.protection)
         elif isinstance(register_cluster, Cluster):  # pyright: ignore[reportUnnecessaryIsInstance]
-            converted = process_parse_convert_cluster(register_cluster)
+            converted = process_parse_convert_cluster(register_cluster, peripheral.protection)
         else:
             raise ValueError(f"Invalid register type: {type(register_cluster)}")
 
@@ -289,7 +306,7 @@ def process_parse_convert_peripheral(peripheral: Peripheral) -> SVDPeripheral:
         base_address=peripheral.base_address,
         size=peripheral.size,
         access=peripheral.access,
-        protection=peripheral.protection,
+        protection=_convert_protection(peripheral.protection, inherited_protection),
         reset_value=peripheral.reset_value,
         reset_mask=peripheral.reset_mask,
         address_blocks=address_blocks,
@@ -312,7 +329,9 @@ def process_parse_convert_peripheral(peripheral: Peripheral) -> SVDPeripheral:
 
 
 def process_parse_convert_device(device: Device) -> SVDDevice:
-    peripherals = [process_parse_convert_peripheral(peripheral) for peripheral in device.peripherals]
+    peripherals = [
+        process_parse_convert_peripheral(peripheral, device.protection) for peripheral in device.peripherals
+    ]
 
     svd_device = SVDDevice(
         xs_no_namespace_schema_location="CMSIS-SVD.xsd",
@@ -332,7 +351,7 @@ def process_parse_convert_device(device: Device) -> SVDDevice:
         peripherals=peripherals,
         size=device.size,
         access=device.access,
-        protection=device.protection,
+        protection=_convert_protection(device.protection),
         reset_value=device.reset_value,
         reset_mask=device.reset_mask,
     )
-- 
2.43.0

