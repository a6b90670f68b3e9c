From fca4818c3f0112eaaaf7b88f250b4f38df836db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 01/40] fix: keep escaped slashes at the ends of section names

The placeholder used for escaped slashes, "\x1f", counts as whitespace, so
stripping a part removed a leading or trailing escaped slash; a literal
"\x1f" in a name became a slash.
---
 skops/card/_model_card.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c635f0a..b311cfe 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -70,10 +70,9 @@ def split_subsection_names(key: str) -> list[str]:
         The individual (sub)sections.
 
     """
-    placeholder = "\x1f"  # unit separator control character (ASCII control char 31)
-    key = key.replace("\\/", placeholder)
-    parts = (part.strip() for part in key.split("/"))
-    return [part.replace(placeholder, "/") for part in parts]
+    # split on "/" unless it is escaped, i.e. preceded by a backslash
+    parts = (part.strip() for part in re.split(r"(?<!\\)/", key))
+    return [part.replace("\\/", "/") for part in parts]
 
 
 @dataclass
-- 
2.43.0


From 8b02a3e53eb8eee38696970936dd7ae11adb017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 02/40] fix: do not list subsections of folded sections in the
 table of contents

---
 skops/card/_model_card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index b311cfe..83cea15 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1272,7 +1272,7 @@ class Card:
             title = val.title
             yield title, level
 
-            if val.subsections:
+            if val.subsections and not getattr(val, "folded", False):
                 yield from self._iterate_key_section_content(
                     val.subsections,
                     level=level + 1,
-- 
2.43.0


From b9ad99ebe0e5982aa3bc947d3b11c2327a002441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 03/40] fix: use the last part of the path as the title of
 added tables

---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 83cea15..70abca2 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -929,8 +929,9 @@ class Card:
         """
         description = description or ""
         for key, val in kwargs.items():
+            title = split_subsection_names(key)[-1]
             section = TableSection(
-                title=key, content=description, table=val, folded=folded
+                title=title, content=description, table=val, folded=folded
             )
             self._add_single(key, section)
         return self
-- 
2.43.0


From fd374c7dcf31ed23de59aaf84e5703ab6ffe09a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 04/40] fix: default the alt text of each plot to its own title

---
 skops/card/_model_card.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 70abca2..d82f867 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -859,11 +859,10 @@ class Card:
         description = description or ""
         for section_name, plot_path in kwargs.items():
             title = split_subsection_names(section_name)[-1]
-            alt_text = alt_text or title
             section = PlotSection(
                 title=title,
                 content=description,
-                alt_text=alt_text,
+                alt_text=alt_text or title,
                 path=plot_path,
                 folded=folded,
             )
-- 
2.43.0


From 5f84545e0de5069935824bc069a207b40f6b9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 05/40] fix: render tables with any column names and kinds of
 line breaks

Column names that are not strings raised an AttributeError, and line breaks in
column names as well as carriage returns in cells produced new rows.
---
 skops/card/_model_card.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index d82f867..7b33f72 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -40,6 +40,10 @@ def wrap_as_details(text: str, folded: bool) -> str:
     return f"<details>\n<summary> Click to expand </summary>\n\n{text}\n\n</details>"
 
 
+def _replace_line_breaks(text: str) -> str:
+    return re.sub(r"\r\n|\r|\n", "<br />", text)
+
+
 def split_subsection_names(key: str) -> list[str]:
     r"""Split a string containing multiple sections into a list of strings for
     each.
@@ -202,10 +206,10 @@ class TableSection(Section):
         table = PrettyTable()
         table.set_style(TableStyle.MARKDOWN)
         for key, values in self.table.items():
-            # replace \n with <br /> (html new line tag) so that line breaks are
+            # replace line breaks with <br /> (html new line tag) so that they are
             # not converted into new rows with PrettyTable.
-            values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(key, values)
+            values = [_replace_line_breaks(str(value)) for value in values]
+            table.add_column(_replace_line_breaks(str(key)), values)
 
         table = table.get_string()
 
-- 
2.43.0


From ea2ea19c0b3c669dc7ac3e0d2b108fdf41be3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 06/40] fix: restore the indentation level when converting an
 element fails

---
 skops/card/_markup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 2e42a25..078bf8b 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -71,8 +71,10 @@ class Markdown:
     def _indented(self, *, spaces: int):
         """Temporarily increment indentation by one"""
         self._indent_trace.append(spaces)
-        yield
-        self._indent_trace.pop(-1)
+        try:
+            yield
+        finally:
+            self._indent_trace.pop(-1)
 
     def _get_indent(self, *, incr: int = 0) -> str:
         """Get current indentation, optionally incremented"""
-- 
2.43.0


From d00d9ab57d8c1debbc8227700c3c7e77a4bc2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 07/40] fix: do not modify the parsed document when converting
 a figure

---
 skops/card/_markup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 078bf8b..c32e44c 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -171,9 +171,8 @@ class Markdown:
         if body_type != "Plain":
             raise ValueError(f"Cannot deal with figure of type '{body_type}'")
 
-        plain_fig = body["c"][0]["c"]
-        plain_fig[2][1] = "fig:"
-        return self._image(plain_fig)
+        attr, caption, (dest, _) = body["c"][0]["c"]
+        return self._image((attr, caption, (dest, "fig:")))
 
     @staticmethod
     def _code_block(item: tuple[tuple[int, list[str], list[str]], str]) -> str:
-- 
2.43.0


From 53f64172339023f17145492c04c32b2b53576db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 08/40] fix: add one section per header when parsing a document

Titles containing a slash were split, headers after skipped levels were nested
under the wrong section, and repeated titles erased the earlier section.
---
 skops/card/_parser.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 35a0ad4..e2962ab 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -59,13 +59,19 @@ class PandocParser:
             raise ValueError(f"Markup of type {markup_type} is not supported (yet)")
 
     def _add_section(
-        self, section_name: str, card: Card, section_trace: list[str]
-    ) -> Section:
+        self, section_name: str, card: Card, parent_names: list[str]
+    ) -> tuple[str, Section]:
         # Add a new section to the card, which can be a subsection, and return
-        # it.
-        section_name = "/".join(section_trace)
-        cur_section = card._add_single(section_name, "")
-        return cur_section
+        # it together with the name under which it can be found. The section is
+        # not added through its path because the title may contain slashes.
+        sections = card._select(parent_names)
+        # there can be several headers with the same title
+        name, count = section_name, 1
+        while name in sections:
+            count += 1
+            name = f"{section_name} ({count})"
+        sections[name] = Section(title=section_name, content="")
+        return name, sections[name]
 
     def _add_content(self, content: str, section: Section | None) -> None:
         # Add content to the current section
@@ -86,9 +92,7 @@ class PandocParser:
             # should we require each Formattable to have an update method?
             raise ValueError(f"Could not modify content of {section.content}")
 
-    def _parse_header(
-        self, item: PandocItem, section_trace: list[str]
-    ) -> tuple[str, int]:
+    def _parse_header(self, item: PandocItem) -> tuple[str, int]:
         # Headers are the only type of item that needs to be handled
         # differently. This is because we structure the underlying model card
         # data as a tree with nodes corresponding to headers. To assign the
@@ -119,7 +123,8 @@ class PandocParser:
             model card.
         """
         section: Section | None = None
-        section_trace: list[str] = []
+        # levels and names of the current section and its parents
+        section_trace: list[tuple[int, str]] = []
         card = Card(None, template=None)
 
         # Parsing the flat structure, not recursively as in pandocfilters. After
@@ -128,10 +133,15 @@ class PandocParser:
         # nodes.
         for item in json.loads(self.source)["blocks"]:
             if item["t"] == "Header":
-                content, level = self._parse_header(item, section_trace=section_trace)
+                content, level = self._parse_header(item)
                 res = self._post_process(content)
-                section_trace = section_trace[: level - 1] + [res]
-                section = self._add_section(res, card=card, section_trace=section_trace)
+                # the parent is the nearest preceding header of lower level
+                while section_trace and section_trace[-1][0] >= level:
+                    section_trace.pop()
+                name, section = self._add_section(
+                    res, card=card, parent_names=[name for _, name in section_trace]
+                )
+                section_trace.append((level, name))
             else:
                 res = self._post_process(self.mapping(item))
                 self._add_content(res, section=section)
-- 
2.43.0


From 819c85a955b39b2657e97606251bee33f49ae199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:05 +0000
Subject: [PATCH 09/40] fix: keep all rows and columns of parsed tables

---
 skops/card/_markup.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index c32e44c..1234d9c 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -3,7 +3,6 @@
 from __future__ import annotations
 
 import sys
-from collections.abc import Mapping
 from contextlib import contextmanager
 from typing import Any, Sequence
 
@@ -240,14 +239,21 @@ class Markdown:
     def _table_new(self, item) -> tuple[list[str], list[list[str]]]:  # pragma: no cover
         # pandoc >= 2.10
         # attr capt specs thead tbody tfoot
-        _, _, _, thead, tbody, _ = item
-        # header
+        _, _, colspecs, thead, tbody, tfoot = item
+        # header, which may be missing
         (_, thead_bodies) = thead
-        (attr, thead_body) = thead_bodies[0]  # multiple headers?
-        columns = self._table_cols_new(thead_body)
-        # rows
-        # attr rhc hd bd
-        _, _, _, trows = tbody[0]  # multiple groups of rows?
+        if thead_bodies:
+            (attr, thead_body) = thead_bodies[0]
+            columns = self._table_cols_new(thead_body)
+        else:
+            columns = [""] * len(colspecs)
+        # rows, additional header rows and footer rows are treated as normal rows
+        trows = list(thead_bodies[1:])
+        for _, _, intermediate_head, rows in tbody:
+            # attr rhc hd bd
+            trows += intermediate_head + rows
+        _, tfoot_rows = tfoot
+        trows += tfoot_rows
         body = self._table_body_new(trows)
         return columns, body
 
@@ -259,13 +265,14 @@ class Markdown:
             # pandoc < 2.5
             columns, body = self._table_old(item)
 
-        table: Mapping[str, Sequence[Any]]
-        if not body:
-            table = {key: [] for key in columns}
-        else:
-            # body is row oriented, transpose to column oriented
-            data_transposed = zip(*body)
-            table = {key: val for key, val in zip(columns, data_transposed)}
+        # body is row oriented, transpose to column oriented
+        data_transposed = zip(*body) if body else [() for _ in columns]
+        table: dict[str, Sequence[Any]] = {}
+        for key, val in zip(columns, data_transposed):
+            # trailing spaces are not significant but make repeated names unique
+            while key in table:
+                key += " "
+            table[key] = val
 
         res = TableSection(title="", content="", table=table).format()
         return res
-- 
2.43.0


From 25421fe99d2e17af6ee4499f74cd646589b10eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 10/40] fix: keep all blocks of cells in tables parsed by old
 pandoc versions

---
 skops/card/_markup.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 1234d9c..8265a9d 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -191,8 +191,8 @@ class Markdown:
 
     def _table_cols_old(self, items) -> list[str]:
         columns = []
-        for (content,) in items:
-            column = self.__call__(content)
+        for content in items:
+            column = "".join(self.__call__(part) for part in content)
             columns.append(column)
         return columns
 
@@ -210,11 +210,7 @@ class Markdown:
         for row_items in items:
             row = []
             for col_row_item in row_items:
-                if not col_row_item:
-                    content = ""
-                else:
-                    content = col_row_item[0]
-                row.append(self.__call__(content))
+                row.append("".join(self.__call__(part) for part in col_row_item))
             body.append(row)
         return body
 
-- 
2.43.0


From afabb064d4d8516d4bd0ac9c30f19bec7ae6476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 11/40] fix: update archives atomically and at relative
 destinations

---
 skops/cli/_update.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index e3edecc..f18bffa 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
-import shutil
+import os
 import tempfile
 import zipfile
 from pathlib import Path
@@ -74,10 +74,13 @@ def _update_file(
         )
         return None
 
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        tmp_output_file = Path(tmp_dir) / f"{output_file}.tmp"
+    # The temporary file has to be on the same file system as the output file so that
+    # the output file is replaced atomically.
+    output_path = Path(output_file)
+    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:
+        tmp_output_file = Path(tmp_dir) / output_path.name
         dump(input_model, tmp_output_file)
-        shutil.move(str(tmp_output_file), str(output_file))
+        os.replace(tmp_output_file, output_path)
     logger.info(f"Updated skops file written to {output_file}")
 
 
-- 
2.43.0


From 9924a8354aa932a14ee73bd0582e908d6354b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 12/40] fix: audit the methods and callables that are actually
 used when loading

The method of a MethodNode was not part of the audited name, and operators and
partials were constructed independently of the audited name.
---
 skops/io/_audit.py   | 14 +++++++++++---
 skops/io/_general.py | 36 ++++++++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index ac93662..d4950a8 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -191,12 +191,20 @@ class Node:
         # otherwise, we trust the given list and default trusted types
         return get_type_paths(trusted) + get_type_paths(default)
 
+    def _get_audited_name(self) -> str:
+        """Fully qualified name of what is used to construct the object.
+
+        This is the name that has to be trusted. Whatever ``_construct`` looks up
+        has to correspond to this name.
+        """
+        return self.module_name + "." + self.class_name
+
     def is_self_safe(self) -> bool:
         """True only if the node's type is considered safe.
 
         This property only checks the type of the node, not its children.
         """
-        return check_type(self.module_name, self.class_name, self.trusted)
+        return self._get_audited_name() in self.trusted
 
     def is_safe(self) -> bool:
         """True only if the node and all its children are safe."""
@@ -226,7 +234,7 @@ class Node:
         with temp_setattr(self, _computing_unsafe_set=True):
             res = set()
             if not self.is_self_safe():
-                res.add(self.module_name + "." + self.class_name)
+                res.add(self._get_audited_name())
 
             for child in self.children.values():
                 if child is None:
@@ -270,7 +278,7 @@ class Node:
 
     def format(self) -> str:
         """Representation of the node's content."""
-        return f"{self.module_name}.{self.class_name}"
+        return self._get_audited_name()
 
 
 class CachedNode(Node):
diff --git a/skops/io/_general.py b/skops/io/_general.py
index 07cdfd5..68bddeb 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -28,6 +28,7 @@ from ._utils import (
     _import_obj,
     get_module,
     get_state,
+    get_type_name,
     gettype,
 )
 from .exceptions import UnsupportedTypeException
@@ -261,15 +262,6 @@ class FunctionNode(Node):
     def _construct(self):
         return gettype(self.module_name, self.class_name)
 
-    def _get_function_name(self) -> str:
-        return f"{self.module_name}.{self.class_name}"
-
-    def get_unsafe_set(self) -> set[str]:
-        fn_name = self._get_function_name()
-        if (self.trusted is True) or (fn_name in self.trusted):
-            return set()
-
-        return {fn_name}
 
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -308,6 +300,8 @@ class PartialNode(Node):
         }
 
     def _construct(self):
+        if gettype(self.module_name, self.class_name) is not partial:
+            raise TypeError(f"{self._get_audited_name()} is not functools.partial.")
         func = self.children["func"].construct()
         args = self.children["args"].construct()
         kwds = self.children["kwds"].construct()
@@ -536,9 +530,25 @@ class MethodNode(Node):
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, [])
 
+        # the method is looked up on the object it is bound to, therefore what has
+        # to be trusted is that method of the object's type
+        obj = state["content"]["obj"]
+        self.owner_name = obj["__module__"] + "." + obj["__class__"]
+
+    def _get_audited_name(self) -> str:
+        return self.owner_name + "." + self.children["func"]  # type: ignore
+
     def _construct(self):
         loaded_obj = self.children["obj"].construct()
+        owner = loaded_obj if isinstance(loaded_obj, type) else type(loaded_obj)
+        if get_type_name(owner) != self.owner_name:
+            raise TypeError(
+                f"Expected a method of {self.owner_name}, got an object of type "
+                f"{get_type_name(owner)} instead."
+            )
         method = getattr(loaded_obj, self.children["func"])
+        if not isinstance(method, MethodType) or method.__self__ is not loaded_obj:
+            raise TypeError(f"{self._get_audited_name()} is not a method.")
         return method
 
 
@@ -662,7 +672,13 @@ class OperatorFuncNode(Node):
         self.children["attrs"] = get_tree(state["attrs"], load_context, trusted=trusted)
 
     def _construct(self):
-        op = getattr(operator, self.class_name)
+        op = gettype(self.module_name, self.class_name)
+        if op not in (
+            operator.attrgetter,
+            operator.itemgetter,
+            operator.methodcaller,
+        ):
+            raise TypeError(f"{self._get_audited_name()} is not a supported operator.")
         attrs = self.children["attrs"].construct()
         return op(*attrs)
 
-- 
2.43.0


From f32b7dfa145ba3c7284eefea5ec9d4c3d02e3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 13/40] fix: only use numpy bit generators and arrays where
 they are expected

The name of the bit generator is not audited but was used to look up any object
of numpy.random, and the data of an array could be an npz file.
---
 skops/io/_numpy.py        | 28 +++++++++++++++++++++++++---
 skops/io/old/_numpy_v0.py |  8 +++++---
 skops/io/old/_numpy_v1.py |  5 ++---
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f87c8d9..e8f40fe 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -86,6 +86,9 @@ class NdArrayNode(Node):
         # Dealing with a regular numpy array, where dtype != object
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
+            if not isinstance(content, np.ndarray):
+                # zip archives are loaded as NpzFile
+                raise ValueError("Expected the file to contain a single numpy array.")
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
                 content = gettype(self.module_name, self.class_name)(content)
             return content
@@ -143,6 +146,27 @@ class MaskedArrayNode(Node):
         return np.ma.MaskedArray(data, mask)
 
 
+# the classes that a random number generator can be based on
+BIT_GENERATORS = {
+    "MT19937": np.random.MT19937,
+    "PCG64": np.random.PCG64,
+    "PCG64DXSM": np.random.PCG64DXSM,
+    "Philox": np.random.Philox,
+    "SFC64": np.random.SFC64,
+}
+
+
+def get_bit_generator(name: str) -> Any:
+    """Get the numpy bit generator class of the given name.
+
+    The name comes from the file and is not audited, thus it must not be used to
+    look up arbitrary objects.
+    """
+    if name not in BIT_GENERATORS:
+        raise ValueError(f"Unknown bit generator {name}.")
+    return BIT_GENERATORS[name]
+
+
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     content = get_state(obj.get_state(legacy=False), save_context)
     res = {
@@ -214,9 +238,7 @@ class RandomGeneratorNode(Node):
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls(seed_seq)
         bit_generator.state = bit_generator_state
 
diff --git a/skops/io/old/_numpy_v0.py b/skops/io/old/_numpy_v0.py
index 356f67d..27a1ca6 100644
--- a/skops/io/old/_numpy_v0.py
+++ b/skops/io/old/_numpy_v0.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node
+from skops.io._numpy import get_bit_generator
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 0
@@ -23,9 +24,10 @@ class RandomGeneratorNode(Node):
 
     def _construct(self):
         # first restore the state of the bit generator
-        bit_generator = gettype(
-            "numpy.random", self.children["bit_generator_state"]["bit_generator"]
-        )()
+        bit_generator_cls = get_bit_generator(
+            self.children["bit_generator_state"]["bit_generator"]
+        )
+        bit_generator = bit_generator_cls()
         bit_generator.state = self.children["bit_generator_state"]
 
         # next create the generator instance
diff --git a/skops/io/old/_numpy_v1.py b/skops/io/old/_numpy_v1.py
index 7e4b2b3..2234ba5 100644
--- a/skops/io/old/_numpy_v1.py
+++ b/skops/io/old/_numpy_v1.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node, get_tree
+from skops.io._numpy import get_bit_generator
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 1
@@ -28,9 +29,7 @@ class RandomGeneratorNode(Node):
     def _construct(self):
         # first restore the state of the bit generator
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls()
         bit_generator.state = bit_generator_state
 
-- 
2.43.0


From 37235cf6f73df08847282c22ee937f344af073b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:58 +0000
Subject: [PATCH 14/40] fix: audit the names of json, slice and old function
 nodes like those of other nodes

Also allows to visualize slices and functions of protocol 0.
---
 skops/io/_general.py        | 23 +++--------------------
 skops/io/old/_general_v0.py | 24 ++++++------------------
 2 files changed, 9 insertions(+), 38 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 68bddeb..51f7b1c 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -367,20 +367,14 @@ class SliceNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [slice])
-        self.children = {
-            "start": state["content"]["start"],
-            "stop": state["content"]["stop"],
-            "step": state["content"]["step"],
-        }
+        self.content = state["content"]
+        self.children = {}
 
     def _construct(self):
         return slice(
-            self.children["start"], self.children["stop"], self.children["step"]
+            self.content["start"], self.content["stop"], self.content["step"]
         )
 
-    def get_unsafe_set(self):
-        return set()
-
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # This method is for objects which can either be persisted with json, or
@@ -568,17 +562,6 @@ class JsonNode(Node):
         self.children = {}
         self.trusted = self._get_trusted(trusted, PRIMITIVE_TYPE_NAMES)
 
-    def is_safe(self) -> bool:
-        # JsonNode is always considered safe.
-        # TODO: should we consider a JsonNode always safe?
-        return True
-
-    def is_self_safe(self) -> bool:
-        return True
-
-    def get_unsafe_set(self) -> set[str]:
-        return set()
-
     def _construct(self):
         return json.loads(self.content)
 
diff --git a/skops/io/old/_general_v0.py b/skops/io/old/_general_v0.py
index 4078227..65d9ae7 100644
--- a/skops/io/old/_general_v0.py
+++ b/skops/io/old/_general_v0.py
@@ -19,26 +19,14 @@ class FunctionNode(Node):
         super().__init__(state, load_context, trusted)
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, default=SCIPY_UFUNC_TYPE_NAMES)
-        self.children: dict = {"content": state["content"]}
+        self.content = state["content"]
+        self.children = {}
+
+    def _get_audited_name(self) -> str:
+        return self.content["module_path"] + "." + self.content["function"]
 
     def _construct(self):
-        return _import_obj(
-            self.children["content"]["module_path"],
-            self.children["content"]["function"],
-        )
-
-    def _get_function_name(self) -> str:  # pragma: no cover
-        return (
-            self.children["content"]["module_path"]
-            + "."
-            + self.children["content"]["function"]
-        )
-
-    def get_unsafe_set(self) -> set[str]:  # pragma: no cover
-        if (self.trusted is True) or (self._get_function_name() in self.trusted):
-            return set()
-
-        return {self._get_function_name()}
+        return _import_obj(self.content["module_path"], self.content["function"])
 
 
 NODE_TYPE_MAPPING = {
-- 
2.43.0


From e5d788b2b803f3f09c367b0face9ea75704a49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 15/40] fix: do not import the type of a loss before it is
 audited

Also, the id of the constructor is unrelated to the ids found in the file, thus
it must not be used to memoize the node.
---
 skops/io/_sklearn.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3baee2b..85904b7 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -153,20 +153,23 @@ class ReduceNode(Node):
         self,
         state: dict[str, Any],
         load_context: LoadContext,
-        constructor: Type[Any],
+        constructor: Optional[Type[Any]] = None,
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
+        if constructor is None:
+            # The constructor is the type found in the state. It must not be
+            # imported here because it's not audited yet.
+            constructor_name, constructor_module = self.class_name, self.module_name
+        else:
+            constructor_name = constructor.__name__
+            constructor_module = get_module(constructor)
         reduce = state["__reduce__"]
         self.children = {
             "attrs": get_tree(state["content"], load_context, trusted=trusted),
             "args": get_tree(reduce["args"], load_context, trusted=trusted),
             "constructor": TypeNode(
-                {
-                    "__class__": constructor.__name__,
-                    "__module__": get_module(constructor),
-                    "__id__": id(constructor),
-                },
+                {"__class__": constructor_name, "__module__": constructor_module},
                 load_context,
                 trusted=trusted,
             ),
@@ -255,7 +258,6 @@ class LossNode(ReduceNode):
         super().__init__(
             state,
             load_context,
-            constructor=gettype(state["__module__"], state["__class__"]),
             trusted=self.trusted,
         )
 
-- 
2.43.0


From 9d00484d95ac1cda32318f6bfc06c3feb198f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 16/40] fix: visit each node only once to get the unsafe types

Archives where nodes are repeatedly referred to took exponential time.
---
 skops/io/_audit.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index d4950a8..207d765 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -225,18 +225,21 @@ class Node:
         unsafe_set : set
             A set of unsafe types.
         """
-        if hasattr(self, "_computing_unsafe_set"):
-            # this means we're already computing this node's unsafe set, so we
-            # return an empty set and let the computation of the parent node
-            # continue. This is to avoid infinite recursion.
-            return set()
-
-        with temp_setattr(self, _computing_unsafe_set=True):
-            res = set()
-            if not self.is_self_safe():
-                res.add(self._get_audited_name())
-
-            for child in self.children.values():
+        res: set[str] = set()
+        # The nodes form a graph, where the same node can be reached repeatedly or
+        # even be its own child. Each of them is visited only once.
+        visited = set()
+        nodes: list[Node] = [self]
+        while nodes:
+            node = nodes.pop()
+            if id(node) in visited:
+                continue
+            visited.add(id(node))
+
+            if not node.is_self_safe():
+                res.add(node._get_audited_name())
+
+            for child in node.children.values():
                 if child is None:
                     continue
 
@@ -244,21 +247,18 @@ class Node:
                 # other than ListNode and DictNode, children are all of type Node.
                 if isinstance(child, list):
                     # iterate through the list
-                    for value in child:
-                        res.update(value.get_unsafe_set())
+                    nodes.extend(child)
                 elif isinstance(child, dict):
                     # iterate through the values of the dict only
                     # TODO: should we check the types of the keys?
-                    for value in child.values():
-                        res.update(value.get_unsafe_set())
+                    nodes.extend(child.values())
                 elif isinstance(child, Node):
-                    # delegate to the child Node
-                    res.update(child.get_unsafe_set())
+                    nodes.append(child)
                 elif type(child) is type:
                     # the if condition bellow is not merged with the previous
                     # one because if the above condition is True, the following
                     # conditions about BytesIO, etc should be ignored.
-                    if not check_type(get_module(child), child.__name__, self.trusted):
+                    if not check_type(get_module(child), child.__name__, node.trusted):
                         # if the child is a type, we check its safety
                         res.add(get_module(child) + "." + child.__name__)
                 elif isinstance(child, (io.BytesIO, str)):
-- 
2.43.0


From 5e697d79b5f689a4df356bed3afe68ddf03251c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 17/40] fix: take the given trusted types into account for all
 kinds of dicts

---
 skops/io/_general.py | 2 +-
 skops/io/_sklearn.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 51f7b1c..bbe0bf6 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -106,7 +106,7 @@ class DefaultDictNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = ["collections.defaultdict"]
+        self.trusted = self._get_trusted(trusted, ["collections.defaultdict"])
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "default_factory": get_tree(
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 85904b7..8dd4151 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -292,9 +292,10 @@ class _DictWithDeprecatedKeysNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = [
-            get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"
-        ]
+        self.trusted = self._get_trusted(
+            trusted,
+            [get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"],
+        )
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "_deprecated_key_to_new_key": get_tree(
-- 
2.43.0


From 6d570aeb0dc47e92cceefde6c541d8e4b6d6aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 18/40] fix: visualize bound methods, attributes called
 key_types and shared children

walk_tree failed for some of the nodes that are dumped and took exponential time
for nodes that are referred to repeatedly.
---
 skops/io/_general.py   |   6 +-
 skops/io/_visualize.py | 133 +++++++++++++++++++++--------------------
 2 files changed, 71 insertions(+), 68 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index bbe0bf6..954509c 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -519,8 +519,8 @@ class MethodNode(Node):
         super().__init__(state, load_context, trusted)
         self.children = {
             "obj": get_tree(state["content"]["obj"], load_context, trusted=trusted),
-            "func": state["content"]["func"],
         }
+        self.func_name = state["content"]["func"]
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, [])
 
@@ -530,7 +530,7 @@ class MethodNode(Node):
         self.owner_name = obj["__module__"] + "." + obj["__class__"]
 
     def _get_audited_name(self) -> str:
-        return self.owner_name + "." + self.children["func"]  # type: ignore
+        return self.owner_name + "." + self.func_name
 
     def _construct(self):
         loaded_obj = self.children["obj"].construct()
@@ -540,7 +540,7 @@ class MethodNode(Node):
                 f"Expected a method of {self.owner_name}, got an object of type "
                 f"{get_type_name(owner)} instead."
             )
-        method = getattr(loaded_obj, self.children["func"])
+        method = getattr(loaded_obj, self.func_name)
         if not isinstance(method, MethodType) or method.__self__ is not loaded_obj:
             raise TypeError(f"{self._get_audited_name()} is not a method.")
         return method
diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 3c3c2c3..67880e9 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -8,7 +8,14 @@ from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
 
 from ._audit import VALID_NODE_CHILD_TYPES, Node, get_tree
-from ._general import BytearrayNode, BytesNode, FunctionNode, JsonNode, ListNode
+from ._general import (
+    BytearrayNode,
+    BytesNode,
+    DictNode,
+    FunctionNode,
+    JsonNode,
+    ListNode,
+)
 from ._numpy import NdArrayNode
 from ._scipy import SparseMatrixNode
 from ._utils import LoadContext
@@ -205,7 +212,8 @@ def walk_tree(
 ) -> Iterator[NodeInfo]:
     """Visit all nodes of the tree and yield their important attributes.
 
-    This function visits all nodes of the object tree and determines:
+    This function visits all nodes of the object tree, the children of a node that
+    is referred to repeatedly only the first time, and determines:
 
     - level: how nested the node is
     - key: the key of the node. E.g. if the node is an attribute of an object,
@@ -220,11 +228,10 @@ def walk_tree(
     Parameters
     ----------
     node: :class:`skops.io._audit.Node`
-        The current node to visit. Children are visited recursively.
+        The current node to visit. Children are visited as well.
 
     node_name: str (default="root")
-        The key to the current node. If "key_types" is encountered, it is
-        skipped.
+        The key to the current node.
 
     level: int (default=0)
         The current level of nesting.
@@ -238,72 +245,68 @@ def walk_tree(
         A dataclass containing the aforementioned information.
 
     """
-    # key_types is not helpful, as it is artificially added by skops to
-    # circumvent the fact that json only allows keys to be strings. It is not
-    # useful to the user and adds a lot of noise, thus skip key_types.
-    if node_name == "key_types":
-        if isinstance(node, ListNode) and node.is_safe():
-            return
-        raise ValueError(
-            "An invalid 'key_types' node was encountered, please report the issue "
-            "here: https://github.com/skops-dev/skops/issues"
-        )
+    # the nodes left to visit, the next one being the last one
+    to_visit: list[tuple[Any, str, int, bool]] = [(node, node_name, level, is_last)]
+    # nodes whose children were already visited, to not visit them repeatedly
+    expanded = set()
+
+    while to_visit:
+        node, node_name, level, is_last = to_visit.pop()
 
-    if isinstance(node, dict):
-        num_nodes = len(node)
-        for i, (key, val) in enumerate(node.items(), start=1):
-            yield from walk_tree(
-                val,
-                node_name=key,
-                level=level,
-                is_last=i == num_nodes,
+        if node is None:
+            continue
+
+        if isinstance(node, (dict, list, tuple)):
+            if isinstance(node, dict):
+                items = list(node.items())
+            else:
+                items = [(node_name, val) for val in node]
+            num_nodes = len(items)
+            to_visit.extend(
+                (val, key, level, i == num_nodes)
+                for i, (key, val) in reversed(list(enumerate(items, start=1)))
             )
-        return
-
-    if isinstance(node, (list, tuple)):
-        num_nodes = len(node)
-        for i, val in enumerate(node, start=1):
-            yield from walk_tree(
-                val,
-                node_name=node_name,
-                level=level,
-                is_last=i == num_nodes,
+            continue
+
+        # NO MATCH: RAISE ERROR
+        if not isinstance(node, Node):
+            raise TypeError(
+                f"Cannot deal with {type(node)}, please report the issue here: "
+                "https://github.com/skops-dev/skops/issues"
             )
-        return
 
-    # NO MATCH: RAISE ERROR
-    if not isinstance(node, Node):
-        raise TypeError(
-            f"Cannot deal with {type(node)}, please report the issue here: "
-            "https://github.com/skops-dev/skops/issues"
+        # YIELDING THE ACTUAL NODE INFORMATION HERE
+
+        # Note: calling node.is_safe() on all nodes is potentially wasteful because
+        # it also visits the child nodes, i.e. child nodes will be checked many
+        # times. A solution to this would be to add caching to its call.
+        yield NodeInfo(
+            level=level,
+            key=node_name,
+            val=node.format(),
+            is_self_safe=node.is_self_safe(),
+            is_safe=node.is_safe(),
+            is_last=is_last,
         )
 
-    # YIELDING THE ACTUAL NODE INFORMATION HERE
-
-    # Note: calling node.is_safe() on all nodes is potentially wasteful because
-    # it is already a recursive call, i.e. child nodes will be checked many
-    # times. A solution to this would be to add caching to its call.
-    yield NodeInfo(
-        level=level,
-        key=node_name,
-        val=node.format(),
-        is_self_safe=node.is_self_safe(),
-        is_safe=node.is_safe(),
-        is_last=is_last,
-    )
-
-    # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
-    # TODO: For better security, we should check the schema if we return early,
-    # otherwise something nefarious could be hidden inside (however, if there
-    # is, the node should be marked as unsafe)
-    if isinstance(node, SKIPPED_TYPES):
-        return
-
-    yield from walk_tree(
-        node.children,
-        node_name=node_name,
-        level=level + 1,
-    )
+        # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
+        # TODO: For better security, we should check the schema if we return early,
+        # otherwise something nefarious could be hidden inside (however, if there
+        # is, the node should be marked as unsafe)
+        if isinstance(node, SKIPPED_TYPES) or id(node) in expanded:
+            continue
+
+        expanded.add(id(node))
+        children = node.children
+        if isinstance(node, DictNode):
+            # key_types is not helpful, as it is artificially added by skops to
+            # circumvent the fact that json only allows keys to be strings. It is
+            # not useful to the user and adds a lot of noise, thus skip key_types
+            # unless there is something to see.
+            key_types = children.get("key_types")
+            if isinstance(key_types, ListNode) and key_types.is_safe():
+                children = {k: v for k, v in children.items() if k != "key_types"}
+        to_visit.append((children, node_name, level + 1, False))
 
 
 def visualize(
-- 
2.43.0


From dfdbb9e718678e1f826674c59b4fe70d251766d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 19/40] fix: visualize any text, and trusted nodes below
 untrusted nodes

Keys and values were interpreted as rich markup, and showing only the trusted
nodes failed if a parent of such a node was not shown.
---
 skops/io/_visualize.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 67880e9..48ca442 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import io
 import json
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path
 from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
@@ -118,6 +118,22 @@ def _get_node_label(
     return node_val
 
 
+def _escape_nodes(
+    nodes_iter: Iterator[NodeInfo], escape: Callable[[str], str] | None = None
+) -> Iterator[NodeInfo]:
+    """Escape the text shown for the nodes, which can be chosen freely by the file."""
+
+    def to_printable(text: str) -> str:
+        text = "".join(
+            c if c.isprintable() else c.encode("unicode_escape").decode("ascii")
+            for c in text
+        )
+        return escape(text) if escape is not None else text
+
+    for node in nodes_iter:
+        yield replace(node, key=to_printable(node.key), val=to_printable(node.val))
+
+
 def _traverse_tree(nodes_iter, show, **kwargs):
     """Common tree traversal logic used by both rich and fallback display methods."""
     # start with root node
@@ -126,12 +142,21 @@ def _traverse_tree(nodes_iter, show, **kwargs):
     yield node, label, 0, True  # node, label, level, is_first_node
 
     prev_level = node.level  # should be 0
+    # levels of the visible nodes above the current one, in the original tree
+    visible_levels = [node.level]
 
     for node in nodes_iter:
+        while visible_levels and visible_levels[-1] >= node.level:
+            visible_levels.pop()
+
         visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
         if not visible:
             continue
 
+        # nodes below nodes that are not visible are moved up
+        visible_levels.append(node.level)
+        node = replace(node, level=len(visible_levels) - 1)
+
         level_diff = prev_level - node.level
         if level_diff < -1:
             # this would mean it is a "(great-)grandchild" node
@@ -153,12 +178,13 @@ def pretty_print_tree(
 ) -> None:
     try:
         from rich.console import Console
+        from rich.markup import escape
         from rich.tree import Tree
 
         console = Console()
 
         for node, label, level_diff, is_first_node in _traverse_tree(
-            nodes_iter, show, **kwargs
+            _escape_nodes(nodes_iter, escape), show, **kwargs
         ):
             if is_first_node:
                 tree = Tree(f"{node.key}: {label}", guide_style="gray50")
@@ -175,7 +201,7 @@ def pretty_print_tree(
     except ImportError:
         prefix = ""
         for node, label, level_diff, is_first_node in _traverse_tree(
-            nodes_iter, show, **kwargs
+            _escape_nodes(nodes_iter), show, **kwargs
         ):
             if is_first_node:
                 print(f"{node.key}: {label}")
-- 
2.43.0


From 48787b63b94cd8c2c35ab1a8cae61bcd9629695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:57 +0000
Subject: [PATCH 20/40] fix: restore the shape and the type of all numpy arrays

The shape of object arrays containing sequences was guessed, arrays without
dimensions could not be loaded and subclasses were not restored.
---
 skops/io/_numpy.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index e8f40fe..99654e5 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -25,7 +25,9 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         # allow_pickle=False, therefore we convert them to a list and
         # recursively call get_state on it.
         if obj.dtype == object:
-            obj_serialized = get_state(obj.tolist(), save_context)
+            # Note that for arrays without dimensions, tolist returns the only cell.
+            values = obj.tolist() if obj.ndim > 0 else [obj[()]]
+            obj_serialized = get_state(values, save_context)
             res["content"] = obj_serialized["content"]
             res["type"] = "json"
             res["shape"] = get_state(obj.shape, save_context)
@@ -82,6 +84,16 @@ class NdArrayNode(Node):
         else:
             raise ValueError(f"Unknown type {self.type}.")
 
+    def _as_type(self, content: np.ndarray) -> Any:
+        # change to the type found in the file, a subclass of np.ndarray or a scalar
+        cls = gettype(self.module_name, self.class_name)
+        if issubclass(cls, np.ndarray):
+            return content.view(cls)
+
+        if content.ndim == 0:
+            content = content[()]
+        return content if type(content) is cls else cls(content)
+
     def _construct(self):
         # Dealing with a regular numpy array, where dtype != object
         if self.type == "numpy":
@@ -90,24 +102,30 @@ class NdArrayNode(Node):
                 # zip archives are loaded as NpzFile
                 raise ValueError("Expected the file to contain a single numpy array.")
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
-                content = gettype(self.module_name, self.class_name)(content)
+                content = self._as_type(content)
             return content
 
         if self.type == "json":
             # We explicitly set the dtype to "O" since we only save object
             # arrays in json.
             shape = self.children["shape"].construct()
-            tmp = [o.construct() for o in self.children["content"]]
+            values = [o.construct() for o in self.children["content"]]
 
-            # TODO: this is a hack to get the correct shape of the array. We
-            # should find _a better way_ to do this.
-            if len(shape) == 1:
-                content = np.ndarray(shape=len(tmp), dtype="O")
-                for i, v in enumerate(tmp):
-                    content[i] = v
-            else:
-                content = np.array(tmp, dtype="O")
+            # The cells are nested in as many lists as the array has dimensions.
+            # They can be of any type, even sequences, thus let numpy not decide
+            # on the shape.
+            for n in shape[1:]:
+                if any(len(value) != n for value in values):
+                    raise ValueError(f"Expected the array to be of shape {shape}.")
+                values = [cell for value in values for cell in value]
 
+            content = np.empty(len(values), dtype="O")
+            for i, v in enumerate(values):
+                content[i] = v
+            content = content.reshape(shape)
+
+            if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
+                content = self._as_type(content)
             return content
 
         raise ValueError(f"Unknown type for a numpy object: {self.type}.")
-- 
2.43.0


From 670a7bc4f1fecb50972d005a1298aecc226ce753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 21/40] fix: keep the shape of dtypes and the type of bytes
 scalars

Metadata and record types of dtypes cannot be persisted and are refused.
---
 skops/io/_numpy.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 99654e5..81b0a06 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -13,6 +13,20 @@ from ._utils import LoadContext, SaveContext, get_module, get_state, gettype
 from .exceptions import UnsupportedTypeException
 
 
+def _check_dtype(dtype: np.dtype) -> None:
+    # There are a few things about dtypes that are not stored by np.save, don't lose
+    # them silently.
+    if dtype.subdtype is not None:
+        return _check_dtype(dtype.subdtype[0])
+
+    is_record = dtype.type is not np.void and issubclass(dtype.type, np.void)
+    if dtype.metadata or is_record:
+        raise UnsupportedTypeException(dtype)
+
+    for field in (dtype.fields or {}).values():
+        _check_dtype(field[0])
+
+
 def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -32,6 +46,9 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             res["type"] = "json"
             res["shape"] = get_state(obj.shape, save_context)
         else:
+            if not isinstance(obj, (np.recarray, np.record)):
+                # the types of records are restored together with the type of obj
+                _check_dtype(obj.dtype)
             data_buffer = io.BytesIO()
             np.save(data_buffer, obj, allow_pickle=False)
             # Memoize the object and then check if it's file name (containing
@@ -267,13 +284,20 @@ class RandomGeneratorNode(Node):
 def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # we use numpy's internal save mechanism to store the dtype by
     # saving/loading an empty array with that dtype.
-    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
+    _check_dtype(obj)
+    # the shape of dtypes that consist of arrays would become part of the shape of
+    # the array, except if they are the dtype of a field
+    is_field = obj.subdtype is not None
+    dtype = np.dtype([("f0", obj)]) if is_field else obj
+    tmp: np.typing.NDArray = np.ndarray(0, dtype=dtype)
     res = {
         "__class__": "dtype",
         "__module__": "numpy",
         "__loader__": "DTypeNode",
         "content": get_state(tmp, save_context),
     }
+    if is_field:
+        res["is_field"] = True
     return res
 
 
@@ -288,18 +312,21 @@ class DTypeNode(Node):
         self.children = {
             "content": get_tree(state["content"], load_context, trusted=trusted)
         }
+        self.is_field = state.get("is_field", False)
         # TODO: what should we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
         # saving/loading an empty array with that dtype.
-        return self.children["content"].construct().dtype
+        dtype = self.children["content"].construct().dtype
+        return dtype[0] if self.is_field else dtype
 
 
 # tuples of type and function that gets the state of that type
 GET_STATE_DISPATCH_FUNCTIONS = [
     (np.generic, ndarray_get_state),
+    (np.bytes_, ndarray_get_state),  # is also a subclass of bytes
     (np.ndarray, ndarray_get_state),
     (np.ma.MaskedArray, maskedarray_get_state),
     (np.ufunc, function_get_state),
-- 
2.43.0


From 83ae0c45f2a8f0c664a06f0bb7058d4cbefa4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:56 +0000
Subject: [PATCH 22/40] fix: keep the fill value and hardness of masked arrays
 and store their data once

---
 skops/io/_numpy.py | 34 +++++++++++++++++++++++++++++-----
 skops/io/_utils.py |  2 +-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 81b0a06..8c2f927 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -46,8 +46,8 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             res["type"] = "json"
             res["shape"] = get_state(obj.shape, save_context)
         else:
-            if not isinstance(obj, (np.recarray, np.record)):
-                # the types of records are restored together with the type of obj
+            if not isinstance(obj, np.recarray):
+                # for record arrays, the type of the records is restored as well
                 _check_dtype(obj.dtype)
             data_buffer = io.BytesIO()
             np.save(data_buffer, obj, allow_pickle=False)
@@ -149,13 +149,21 @@ class NdArrayNode(Node):
 
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not np.ma.MaskedArray and obj is not np.ma.masked:
+        raise UnsupportedTypeException(obj)
+
+    # The data and the mask are new views each time they are accessed. Use the same
+    # ones if the object is encountered again, or else they are stored repeatedly.
+    views = save_context.memo.setdefault(f"{id(obj)}.views", (obj.data, obj.mask))
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "MaskedArrayNode",
         "content": {
-            "data": get_state(obj.data, save_context),
-            "mask": get_state(obj.mask, save_context),
+            "data": get_state(views[0], save_context),
+            "mask": get_state(views[1], save_context),
+            "fill_value": get_state(obj._fill_value, save_context),
+            "hard_mask": get_state(bool(obj.hardmask), save_context),
         },
     }
     return res
@@ -174,11 +182,27 @@ class MaskedArrayNode(Node):
             "data": get_tree(state["content"]["data"], load_context, trusted=trusted),
             "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),
         }
+        # these are not stored by older versions
+        for key in ("fill_value", "hard_mask"):
+            if key in state["content"]:
+                self.children[key] = get_tree(
+                    state["content"][key], load_context, trusted=trusted
+                )
 
     def _construct(self):
+        if self.class_name == "MaskedConstant":
+            return np.ma.masked
+
         data = self.children["data"].construct()
         mask = self.children["mask"].construct()
-        return np.ma.MaskedArray(data, mask)
+        content = np.ma.MaskedArray(data, mask)
+        if "hard_mask" in self.children and self.children["hard_mask"].construct():
+            content.harden_mask()
+        if "fill_value" in self.children:
+            fill_value = self.children["fill_value"].construct()
+            if fill_value is not None:
+                content.fill_value = fill_value
+        return content
 
 
 # the classes that a random number generator can be based on
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index a3519ab..d1c145b 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -109,7 +109,7 @@ class SaveContext:
 
     zip_file: ZipFile
     protocol: int = PROTOCOL
-    memo: dict[int, Any] = field(default_factory=dict)
+    memo: dict[int | str, Any] = field(default_factory=dict)
 
     def memoize(self, obj: Any) -> int:
         # Currently, the only purpose for saving the object id is to make sure
-- 
2.43.0


From 650986e025d0a6d62d51bfc00e51394b61788f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:01 +0000
Subject: [PATCH 23/40] fix: load random states of any bit generator and bound
 the size of seed pools

---
 skops/io/_numpy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 8c2f927..50225c2 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -215,6 +215,10 @@ BIT_GENERATORS = {
 }
 
 
+# the time to initialize a seed sequence grows quadratically with the pool size
+MAX_POOL_SIZE = 4096
+
+
 def get_bit_generator(name: str) -> Any:
     """Get the numpy bit generator class of the given name.
 
@@ -252,8 +256,12 @@ class RandomStateNode(Node):
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
     def _construct(self):
-        random_state = gettype(self.module_name, self.class_name)()
-        random_state.set_state(self.children["content"].construct())
+        content = self.children["content"].construct()
+        cls = gettype(self.module_name, self.class_name)
+        # the state can only be set if the bit generator is of the same type
+        name = content.get("bit_generator", "MT19937")
+        random_state = cls() if name == "MT19937" else cls(get_bit_generator(name)())
+        random_state.set_state(content)
         return random_state
 
 
@@ -294,6 +302,8 @@ class RandomGeneratorNode(Node):
             "SeedSequence",
         )
         seed_seq_state = self.children["seed_seq_state"].construct()
+        if seed_seq_state.get("pool_size", 0) > MAX_POOL_SIZE:
+            raise ValueError(f"pool_size {seed_seq_state['pool_size']} is too large.")
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-- 
2.43.0


From e425e62aa8011eb5c66c51e356a07982ad23f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 24/40] fix: restore all kinds of dict keys and do not skip
 items

The keys of dicts could collide or change when converted to strings, those of a
defaultdict had to be strings, and properties were skipped.
---
 skops/io/_general.py | 63 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 954509c..23e090b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -44,20 +44,45 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "DictNode",
     }
 
-    key_types = get_state([type(key) for key in obj.keys()], save_context)
-    content = {}
-    for key, value in obj.items():
-        if isinstance(value, property):
-            continue
-        if np.isscalar(key) and hasattr(key, "item"):
-            # convert numpy value to python object
-            key = key.item()  # type: ignore
-        content[key] = get_state(value, save_context)
-    res["content"] = content
-    res["key_types"] = key_types
+    keys = list(obj.keys())
+    names = [_key_to_name(key) for key in keys]
+    if None not in names and len(set(names)) == len(names):
+        # the keys can be restored from their type and their name
+        res["key_types"] = get_state([type(key) for key in keys], save_context)
+    else:
+        # the names are not used, store the keys like the values
+        names = [str(i) for i in range(len(keys))]
+        res["keys"] = get_state(keys, save_context)
+
+    res["content"] = {
+        name: get_state(value, save_context)
+        for name, value in zip(names, obj.values())
+    }
     return res
 
 
+def _key_to_name(key: Any) -> str | None:
+    """The name of a key in json, None if the key can't be restored from it."""
+    if not isinstance(key, np.generic):
+        value = key
+    elif isinstance(key, (np.str_, np.number)):
+        value = key.item()
+    else:
+        return None
+
+    if type(value) not in (str, int, float):
+        return None
+
+    try:
+        name = value if type(value) is str else json.dumps(value)
+        restored = type(key)(name)
+    except ValueError:
+        return None
+    is_same = type(restored) is type(key) and restored == key
+    # zeros have a sign, and a dict can contain several keys that are nan
+    return name if is_same and str(restored) == str(key) else None
+
+
 class DictNode(Node):
     def __init__(
         self,
@@ -67,8 +92,10 @@ class DictNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [dict, "collections.OrderedDict"])
+        # keys is only present if the keys can't be restored from key_types
+        keys = "keys" if "keys" in state else "key_types"
         self.children = {
-            "key_types": get_tree(state["key_types"], load_context, trusted=trusted),
+            keys: get_tree(state[keys], load_context, trusted=trusted),
             "content": {
                 key: get_tree(value, load_context, trusted=trusted)
                 for key, value in state["content"].items()
@@ -77,6 +104,12 @@ class DictNode(Node):
 
     def _construct(self):
         content = gettype(self.module_name, self.class_name)()
+        if "keys" in self.children:
+            keys = self.children["keys"].construct()
+            for key, val in zip(keys, self.children["content"].values()):
+                content[key] = val.construct()
+            return content
+
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
             content[k_type(key)] = val.construct()
@@ -117,9 +150,9 @@ class DefaultDictNode(Node):
         }
 
     def _construct(self):
-        instance = defaultdict(**self.children["main"].construct())
-        instance.default_factory = self.children["default_factory"].construct()
-        return instance
+        cls = gettype(self.module_name, self.class_name)
+        main = self.children["main"].construct()
+        return cls(self.children["default_factory"].construct(), main)
 
 
 def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From a581b50b6594451f9536f9a0df283304adf9e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 25/40] fix: refuse to dump objects whose name belongs to
 something else

---
 skops/io/_utils.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index d1c145b..3542c05 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -10,6 +10,7 @@ from typing import Any, Type
 from zipfile import ZipFile
 
 from ._protocol import PROTOCOL
+from .exceptions import UnsupportedTypeException
 
 
 # The following two functions are copied from cpython's pickle.py file.
@@ -156,6 +157,25 @@ def _get_state(obj, save_context: SaveContext):
     raise TypeError(f"Getting the state of type {type(obj)} is not supported yet")
 
 
+def _check_name(value: Any, state: dict[str, Any]) -> None:
+    """Check that the name found in the state is the one of the object or its type.
+
+    Otherwise, e.g. for nested classes or decorated functions, something else would
+    be loaded. If nothing of that name exists, e.g. for lambdas, loading will fail.
+    """
+    if state["__loader__"] in ("JsonNode", "MethodNode", "DTypeNode"):
+        # these are not loaded by using their name
+        return
+
+    try:
+        found = gettype(state["__module__"], state["__class__"])
+    except (AttributeError, ImportError, ValueError):
+        return
+
+    if found is not value and found is not type(value):
+        raise UnsupportedTypeException(value)
+
+
 def get_state(value, save_context: SaveContext) -> dict[str, Any]:
     # This is a helper function to try to get the state of an object. If it
     # fails with `get_state`, we try with json.dumps, if that fails, we raise
@@ -173,6 +193,7 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
     __id__ = save_context.memoize(obj=value)
 
     res = _get_state(value, save_context)
+    _check_name(value, res)
 
     res["__id__"] = __id__
     return res
-- 
2.43.0


From 5c367be964bc60dc9f85c833f17fd5cc101b2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:47 +0000
Subject: [PATCH 26/40] fix: refuse to dump objects that cannot be restored
 from their attributes, restore those of containers

Objects were silently changed when they have a state besides their items, need
arguments to be created, or are instances of subclasses of json types.
---
 skops/io/_general.py | 236 ++++++++++++++++++++++++++-----------------
 skops/io/_numpy.py   |   4 +
 2 files changed, 146 insertions(+), 94 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 23e090b..52bb607 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copyreg
 import io
 import json
 import operator
@@ -12,7 +13,7 @@ from typing import Any, Optional, Sequence
 
 import numpy as np
 
-from ._audit import Node, get_tree
+from ._audit import UNINITIALIZED, Node, get_tree
 from ._protocol import PROTOCOL
 from ._trusted_types import (
     CONTAINER_TYPE_NAMES,
@@ -33,16 +34,79 @@ from ._utils import (
 )
 from .exceptions import UnsupportedTypeException
 
+# the types whose values are stored as json
+JSON_TYPES = (str, int, float, bool, type(None))
+
 arepr = Repr()
 arepr.maxstring = 24
 
 
-def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+def get_attrs(obj: Any) -> Any:
+    """Get the attributes of an instance of a container type, if there are any.
+
+    The containers are otherwise restored from their type and their items only.
+    """
+    reduced = obj.__reduce_ex__(2)
+    if reduced[0] not in (type(obj), copyreg.__newobj__):  # type: ignore
+        raise UnsupportedTypeException(obj)
+    return reduced[2] if len(reduced) > 2 else None
+
+
+def set_attrs(instance: Any, attrs: Any) -> None:
+    """Set attributes that were determined like for pickle."""
+    if hasattr(instance, "__setstate__"):
+        instance.__setstate__(attrs)
+        return
+
+    slots = None
+    if isinstance(attrs, tuple) and len(attrs) == 2:
+        attrs, slots = attrs
+    if attrs:
+        instance.__dict__.update(attrs)
+    for key, val in (slots or {}).items():
+        setattr(instance, key, val)
+
+
+def container_get_state(
+    obj: Any, loader: str, save_context: SaveContext
+) -> dict[str, Any]:
+    # the part of the state that is common to all containers
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-        "__loader__": "DictNode",
+        "__loader__": loader,
     }
+    attrs = get_attrs(obj)
+    if attrs:
+        res["attrs"] = get_state(attrs, save_context)
+    return res
+
+
+class ContainerNode(Node):
+    """Base class of the nodes of containers, whose instances may have attributes"""
+
+    def __init__(
+        self,
+        state: dict[str, Any],
+        load_context: LoadContext,
+        trusted: Optional[Sequence[str]] = None,
+    ) -> None:
+        super().__init__(state, load_context, trusted)
+        if "attrs" in state:
+            self.children["attrs"] = get_tree(
+                state["attrs"], load_context, trusted=trusted
+            )
+
+    def construct(self):
+        is_new = self._constructed is UNINITIALIZED
+        instance = super().construct()
+        if is_new and "attrs" in self.children:
+            set_attrs(instance, self.children["attrs"].construct())
+        return instance
+
+
+def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    res = container_get_state(obj, "DictNode", save_context)
 
     keys = list(obj.keys())
     names = [_key_to_name(key) for key in keys]
@@ -55,8 +119,7 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         res["keys"] = get_state(keys, save_context)
 
     res["content"] = {
-        name: get_state(value, save_context)
-        for name, value in zip(names, obj.values())
+        name: get_state(value, save_context) for name, value in zip(names, obj.values())
     }
     return res
 
@@ -83,7 +146,7 @@ def _key_to_name(key: Any) -> str | None:
     return name if is_same and str(restored) == str(key) else None
 
 
-class DictNode(Node):
+class DictNode(ContainerNode):
     def __init__(
         self,
         state: dict[str, Any],
@@ -94,12 +157,10 @@ class DictNode(Node):
         self.trusted = self._get_trusted(trusted, [dict, "collections.OrderedDict"])
         # keys is only present if the keys can't be restored from key_types
         keys = "keys" if "keys" in state else "key_types"
-        self.children = {
-            keys: get_tree(state[keys], load_context, trusted=trusted),
-            "content": {
-                key: get_tree(value, load_context, trusted=trusted)
-                for key, value in state["content"].items()
-            },
+        self.children[keys] = get_tree(state[keys], load_context, trusted=trusted)
+        self.children["content"] = {
+            key: get_tree(value, load_context, trusted=trusted)
+            for key, value in state["content"].items()
         }
 
     def _construct(self):
@@ -117,11 +178,7 @@ class DictNode(Node):
 
 
 def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    res = {
-        "__class__": obj.__class__.__name__,
-        "__module__": get_module(type(obj)),
-        "__loader__": "DefaultDictNode",
-    }
+    res = container_get_state(obj, "DefaultDictNode", save_context)
     content = {}
     # explicitly pass a dict object instead of _DictWithDeprecatedKeys and
     # later construct a _DictWithDeprecatedKeys object.
@@ -131,7 +188,7 @@ def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
     return res
 
 
-class DefaultDictNode(Node):
+class DefaultDictNode(ContainerNode):
     def __init__(
         self,
         state: dict[str, Any],
@@ -140,14 +197,14 @@ class DefaultDictNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, ["collections.defaultdict"])
-        self.children = {
-            "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
-            "default_factory": get_tree(
-                state["content"]["default_factory"],
-                load_context,
-                trusted=trusted,
-            ),
-        }
+        self.children["main"] = get_tree(
+            state["content"]["main"], load_context, trusted=trusted
+        )
+        self.children["default_factory"] = get_tree(
+            state["content"]["default_factory"],
+            load_context,
+            trusted=trusted,
+        )
 
     def _construct(self):
         cls = gettype(self.module_name, self.class_name)
@@ -156,18 +213,14 @@ class DefaultDictNode(Node):
 
 
 def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    res = {
-        "__class__": obj.__class__.__name__,
-        "__module__": get_module(type(obj)),
-        "__loader__": "ListNode",
-    }
+    res = container_get_state(obj, "ListNode", save_context)
     content = [get_state(value, save_context) for value in obj]
 
     res["content"] = content
     return res
 
 
-class ListNode(Node):
+class ListNode(ContainerNode):
     def __init__(
         self,
         state: dict[str, Any],
@@ -176,12 +229,9 @@ class ListNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [list])
-        self.children = {
-            "content": [
-                get_tree(value, load_context, trusted=trusted)
-                for value in state["content"]
-            ]
-        }
+        self.children["content"] = [
+            get_tree(value, load_context, trusted=trusted) for value in state["content"]
+        ]
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
@@ -189,17 +239,13 @@ class ListNode(Node):
 
 
 def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    res = {
-        "__class__": obj.__class__.__name__,
-        "__module__": get_module(type(obj)),
-        "__loader__": "SetNode",
-    }
+    res = container_get_state(obj, "SetNode", save_context)
     content = [get_state(value, save_context) for value in obj]
     res["content"] = content
     return res
 
 
-class SetNode(Node):
+class SetNode(ContainerNode):
     def __init__(
         self,
         state: dict[str, Any],
@@ -208,12 +254,9 @@ class SetNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [set])
-        self.children = {
-            "content": [
-                get_tree(value, load_context, trusted=trusted)
-                for value in state["content"]
-            ]
-        }
+        self.children["content"] = [
+            get_tree(value, load_context, trusted=trusted) for value in state["content"]
+        ]
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
@@ -221,17 +264,13 @@ class SetNode(Node):
 
 
 def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    res = {
-        "__class__": obj.__class__.__name__,
-        "__module__": get_module(type(obj)),
-        "__loader__": "TupleNode",
-    }
+    res = container_get_state(obj, "TupleNode", save_context)
     content = tuple(get_state(value, save_context) for value in obj)
     res["content"] = content
     return res
 
 
-class TupleNode(Node):
+class TupleNode(ContainerNode):
     def __init__(
         self,
         state: dict[str, Any],
@@ -240,22 +279,19 @@ class TupleNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [tuple])
-        self.children = {
-            "content": [
-                get_tree(value, load_context, trusted=trusted)
-                for value in state["content"]
-            ]
-        }
+        self.children["content"] = [
+            get_tree(value, load_context, trusted=trusted) for value in state["content"]
+        ]
 
     def _construct(self):
-        # Returns a tuple or a namedtuple instance.
+        # Returns a tuple or an instance of a subclass, e.g. a namedtuple.
 
         cls = gettype(self.module_name, self.class_name)
         content = tuple(value.construct() for value in self.children["content"])
 
         if self.isnamedtuple(cls):
             return cls(*content)
-        return content
+        return content if cls is tuple else tuple.__new__(cls, content)
 
     def isnamedtuple(self, t) -> bool:
         # This is needed since namedtuples need to have the args when
@@ -296,7 +332,6 @@ class FunctionNode(Node):
         return gettype(self.module_name, self.class_name)
 
 
-
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     _, _, (func, args, kwds, namespace) = obj.__reduce__()
     res = {
@@ -378,6 +413,10 @@ class TypeNode(Node):
 
 
 def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    for value in (obj.start, obj.stop, obj.step):
+        # other types are either lost or not supported by json
+        if type(value) not in JSON_TYPES:
+            raise UnsupportedTypeException(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -404,9 +443,7 @@ class SliceNode(Node):
         self.children = {}
 
     def _construct(self):
-        return slice(
-            self.content["start"], self.content["stop"], self.content["step"]
-        )
+        return slice(self.content["start"], self.content["stop"], self.content["step"])
 
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -414,50 +451,52 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # the ones for which we can get/set attributes through
     # __getstate__/__setstate__ or reading/writing to __dict__.
 
-    # We first check if the object can be serialized using json.
-    try:
-        # if we can simply use json, then we're done.
-        obj_str = json.dumps(obj)
+    # We first check if the object can be serialized using json. Note that the type
+    # of instances of subclasses would be lost.
+    if type(obj) in JSON_TYPES:
         return {
             "__class__": "str",
             "__module__": "builtins",
             "__loader__": "JsonNode",
-            "content": obj_str,
+            "content": json.dumps(obj),
             "is_json": True,
         }
-    except Exception:
-        pass
 
-    # Then we check if the output of __reduce__ is of the form
+    # Then we check if the output of __reduce_ex__ is of the form
     # (constructor, (constructor_args,))
     # If the constructor is the same as the object's type, then we consider it
     # safe to call it with the specified arguments.
 
-    reduce_output = obj.__reduce__()
-    if len(reduce_output) == 2 and reduce_output[0] is type(obj):
+    reduce_output = obj.__reduce_ex__(4)
+    if isinstance(reduce_output, str):
+        # the name of a global variable
+        raise UnsupportedTypeException(obj)
+
+    constructor, args, *rest = reduce_output
+    attrs = rest[0] if rest else None
+    if any(item is not None for item in rest[1:]):
+        # the object has items that are not part of its attributes
+        raise UnsupportedTypeException(obj)
+
+    if constructor is type(obj) and attrs is None:
         return {
             "__class__": type(obj).__name__,
             "__module__": get_module(type(obj)),
             "__loader__": "ConstructorFromReduceNode",
-            "content": get_state(reduce_output[1], save_context),
+            "content": get_state(args, save_context),
         }
 
-    # Otherwise we recover the object from the __dict__ or __getstate__
+    # Otherwise we recover the object from its attributes, which is only possible if
+    # no other arguments than the type are needed to create the instance.
+    if constructor is type(obj) or len(args) != 1 or args[0] is not type(obj):
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "ObjectNode",
     }
 
-    # __getstate__ takes priority over __dict__, and if non exist, we only save
-    # the type of the object, and loading would mean instantiating the object.
-    if hasattr(obj, "__getstate__"):
-        attrs = obj.__getstate__()
-    elif hasattr(obj, "__dict__"):
-        attrs = obj.__dict__
-    else:
-        return res
-
     content = get_state(attrs, save_context)
     # it's sufficient to store the "content" because we know that this dict can
     # only have str type keys
@@ -517,10 +556,7 @@ class ObjectNode(Node):
 
         attrs = self.children["attrs"].construct()
         if attrs is not None:
-            if hasattr(instance, "__setstate__"):
-                instance.__setstate__(attrs)
-            else:
-                instance.__dict__.update(attrs)
+            set_attrs(instance, attrs)
 
         return instance
 
@@ -530,6 +566,10 @@ def method_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # dependent on a specific instance of an object.
     # It stores the state of the object the method is bound to,
     # and prepares both to be persisted.
+    if getattr(obj.__self__, obj.__func__.__name__, None) != obj:
+        # the method has a different name, e.g. it was added under an alias
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(obj),
@@ -608,6 +648,10 @@ class JsonNode(Node):
 
 
 def bytes_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) not in (bytes, bytearray):
+        # the type and the attributes of instances of subclasses would be lost
+        raise UnsupportedTypeException(obj)
+
     f_name = f"{uuid.uuid4()}.bin"
     save_context.zip_file.writestr(f_name, obj)
     res = {
@@ -666,7 +710,11 @@ class BytearrayNode(BytesNode):
 
 
 def operator_func_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    _, attrs = obj.__reduce__()
+    constructor, attrs = obj.__reduce__()
+    if constructor is not type(obj):
+        # methodcaller with keyword arguments
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": "operator",
diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 50225c2..c42ca1b 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -28,6 +28,10 @@ def _check_dtype(dtype: np.dtype) -> None:
 
 
 def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if getattr(obj, "__dict__", None) and not isinstance(obj, np.memmap):
+        # the attributes of instances of subclasses would be lost
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From b0ac903da0b6fb5441891c82b01cdde4d298ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 27/40] fix: show deeply nested rows when visualizing with rich

---
 skops/io/_visualize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 48ca442..0bbe119 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -196,6 +196,9 @@ def pretty_print_tree(
             current_tree = parent_tree.add(f"{node.key}: {label}")
             trees[node.level] = current_tree
 
+        # each level is indented by 4 characters and rows that do not fit are cropped,
+        # which would hide what is nested deeply
+        console.width = max(console.width, 4 * max(trees) + 40)
         console.print(tree)
 
     except ImportError:
-- 
2.43.0


From 460eaaced335229d502b5a70869573743ae576fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 28/40] fix: show unsafe nodes inside of arrays when
 visualizing

---
 skops/io/_visualize.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 0bbe119..c3673ed 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -20,7 +20,7 @@ from ._numpy import NdArrayNode
 from ._scipy import SparseMatrixNode
 from ._utils import LoadContext
 
-# The children of these types are not visualized
+# The children of these types are not visualized if they're safe
 SKIPPED_TYPES = (
     BytearrayNode,
     BytesNode,
@@ -319,10 +319,14 @@ def walk_tree(
         )
 
         # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
-        # TODO: For better security, we should check the schema if we return early,
-        # otherwise something nefarious could be hidden inside (however, if there
-        # is, the node should be marked as unsafe)
-        if isinstance(node, SKIPPED_TYPES) or id(node) in expanded:
+        # If one of the children is unsafe (and the node itself is not marked as
+        # such), it has to be shown, as otherwise nothing would be marked as unsafe.
+        if isinstance(node, SKIPPED_TYPES) and (
+            node.is_safe() or not node.is_self_safe()
+        ):
+            continue
+
+        if id(node) in expanded:
             continue
 
         expanded.add(id(node))
-- 
2.43.0


From 412796bafb46d24de033f2e6a7057fec742379fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 29/40] fix: numpy matrices could no longer be persisted

---
 skops/io/_numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index c42ca1b..43ca684 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -28,7 +28,11 @@ def _check_dtype(dtype: np.dtype) -> None:
 
 
 def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    if getattr(obj, "__dict__", None) and not isinstance(obj, np.memmap):
+    attributes = set(getattr(obj, "__dict__", ()))
+    if isinstance(obj, np.matrix):
+        # each matrix has this one
+        attributes.discard("_getitem")
+    if attributes and not isinstance(obj, np.memmap):
         # the attributes of instances of subclasses would be lost
         raise UnsupportedTypeException(obj)
 
-- 
2.43.0


From e5d73058279740af7eff4287f8a28020927017b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 30/40] fix: restore the fill value of masked arrays as it was

---
 skops/io/_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 43ca684..f7bcc17 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -210,6 +210,9 @@ class MaskedArrayNode(Node):
             fill_value = self.children["fill_value"].construct()
             if fill_value is not None:
                 content.fill_value = fill_value
+                # the property casts the value to the dtype of the data, which numpy
+                # itself does not do for the default value of an object array
+                content._fill_value = fill_value
         return content
 
 
-- 
2.43.0


From 9605a53c044b7b69ecec1e60d6b9f08bdeabee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 31/40] fix: refuse sparse matrices whose type or attributes
 would be lost

---
 skops/io/_scipy.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index e482a1a..4e4f077 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -3,14 +3,35 @@ from __future__ import annotations
 import io
 from typing import Any, Optional, Sequence
 
+import scipy.sparse
 from scipy.sparse import load_npz, save_npz, spmatrix
 
 from ._audit import Node
 from ._protocol import PROTOCOL
 from ._utils import LoadContext, SaveContext, get_module
+from .exceptions import UnsupportedTypeException
+
+
+# attributes in which scipy stores what it found out about the data
+CACHED_ATTRIBUTES = {"_has_sorted_indices", "_has_canonical_format"}
+
+
+def _is_plain(obj: Any) -> bool:
+    # whether the object consists of nothing else than what save_npz stores
+    cls = getattr(scipy.sparse, f"{obj.format}_matrix", None)
+    if type(obj) is not cls:
+        return False
+    default = cls((1, 1))
+    if set(vars(obj)) - set(vars(default)) - CACHED_ATTRIBUTES:
+        return False
+    return getattr(obj, "maxprint", None) == getattr(default, "maxprint", None)
 
 
 def sparse_matrix_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if not _is_plain(obj):
+        # the type or the attributes would be lost
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From b13ea7c82c403bf4e4e09129299e652513b9e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 32/40] fix: refuse numpy bytes whose trailing null characters
 would be lost

---
 skops/io/_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f7bcc17..ccb5d7c 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -36,6 +36,10 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         # the attributes of instances of subclasses would be lost
         raise UnsupportedTypeException(obj)
 
+    if isinstance(obj, (np.bytes_, np.str_)) and np.array(obj)[()].dtype != obj.dtype:
+        # numpy arrays ignore trailing null characters
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From b467c8846e9c7e121a039711aebdffea4e82c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 33/40] fix: subclasses of containers must not change the items
 that are persisted

---
 skops/io/_general.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 52bb607..7bd32dd 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -5,7 +5,7 @@ import io
 import json
 import operator
 import uuid
-from collections import defaultdict
+from collections import OrderedDict, defaultdict
 from functools import partial
 from reprlib import Repr
 from types import FunctionType, MethodType
@@ -108,7 +108,9 @@ class ContainerNode(Node):
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = container_get_state(obj, "DictNode", save_context)
 
-    keys = list(obj.keys())
+    # Use the methods of the base class, as subclasses may override them.
+    items = list(_dict_type(type(obj)).items(obj))
+    keys = [key for key, _ in items]
     names = [_key_to_name(key) for key in keys]
     if None not in names and len(set(names)) == len(names):
         # the keys can be restored from their type and their name
@@ -119,11 +121,16 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         res["keys"] = get_state(keys, save_context)
 
     res["content"] = {
-        name: get_state(value, save_context) for name, value in zip(names, obj.values())
+        name: get_state(value, save_context) for name, (_, value) in zip(names, items)
     }
     return res
 
 
+def _dict_type(cls: type) -> type:
+    # OrderedDict must not be modified by the methods of dict
+    return OrderedDict if issubclass(cls, OrderedDict) else dict
+
+
 def _key_to_name(key: Any) -> str | None:
     """The name of a key in json, None if the key can't be restored from it."""
     if not isinstance(key, np.generic):
@@ -165,15 +172,16 @@ class DictNode(ContainerNode):
 
     def _construct(self):
         content = gettype(self.module_name, self.class_name)()
+        set_item = _dict_type(type(content)).__setitem__
         if "keys" in self.children:
             keys = self.children["keys"].construct()
             for key, val in zip(keys, self.children["content"].values()):
-                content[key] = val.construct()
+                set_item(content, key, val.construct())
             return content
 
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
-            content[k_type(key)] = val.construct()
+            set_item(content, k_type(key), val.construct())
         return content
 
 
@@ -214,7 +222,8 @@ class DefaultDictNode(ContainerNode):
 
 def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = container_get_state(obj, "ListNode", save_context)
-    content = [get_state(value, save_context) for value in obj]
+    # Use the methods of the base class, as subclasses may override them.
+    content = [get_state(value, save_context) for value in list.__iter__(obj)]
 
     res["content"] = content
     return res
@@ -235,12 +244,18 @@ class ListNode(ContainerNode):
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        items = [item.construct() for item in self.children["content"]]
+        content = content_type(items)
+        if content_type is not list:
+            # the constructor of a subclass may have changed the items
+            list.__setitem__(content, slice(None), items)
+        return content
 
 
 def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = container_get_state(obj, "SetNode", save_context)
-    content = [get_state(value, save_context) for value in obj]
+    # Use the methods of the base class, as subclasses may override them.
+    content = [get_state(value, save_context) for value in set.__iter__(obj)]
     res["content"] = content
     return res
 
@@ -260,12 +275,19 @@ class SetNode(ContainerNode):
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        items = [item.construct() for item in self.children["content"]]
+        content = content_type(items)
+        if content_type is not set:
+            # the constructor of a subclass may have changed the items
+            set.clear(content)
+            set.update(content, items)
+        return content
 
 
 def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = container_get_state(obj, "TupleNode", save_context)
-    content = tuple(get_state(value, save_context) for value in obj)
+    # Use the methods of the base class, as subclasses may override them.
+    content = tuple(get_state(value, save_context) for value in tuple.__iter__(obj))
     res["content"] = content
     return res
 
-- 
2.43.0


From a72434868053f47220871a77252259cbca054e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 34/40] fix: dicts and sets with several nan lost items

---
 skops/io/_general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 7bd32dd..e5af8dc 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -658,7 +658,8 @@ class JsonNode(Node):
         self.trusted = self._get_trusted(trusted, PRIMITIVE_TYPE_NAMES)
 
     def _construct(self):
-        return json.loads(self.content)
+        # By default, each nan is the same object, then dicts and sets lose items.
+        return json.loads(self.content, parse_constant=float)
 
     def format(self) -> str:
         """Representation of the node's content.
-- 
2.43.0


From 0b0ada69ee7802cd659b1994f2030d97d565294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 35/40] fix: load masked arrays whatever their fill value is

---
 skops/io/_numpy.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index ccb5d7c..8c93fed 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -213,10 +213,9 @@ class MaskedArrayNode(Node):
         if "fill_value" in self.children:
             fill_value = self.children["fill_value"].construct()
             if fill_value is not None:
-                content.fill_value = fill_value
-                # the property casts the value to the dtype of the data, which numpy
-                # itself does not do for the default value of an object array
-                content._fill_value = fill_value
+                # Not the property, since it does not accept each default value that
+                # numpy itself determines, and casts it to the dtype of the data.
+                content._fill_value = np.asarray(fill_value)
         return content
 
 
-- 
2.43.0


From c63c0e63324735ae568399def23916d02812a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 36/40] fix: refuse strings that json would change

---
 skops/io/_general.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index e5af8dc..e9ffa86 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -4,6 +4,7 @@ import copyreg
 import io
 import json
 import operator
+import re
 import uuid
 from collections import OrderedDict, defaultdict
 from functools import partial
@@ -37,10 +38,18 @@ from .exceptions import UnsupportedTypeException
 # the types whose values are stored as json
 JSON_TYPES = (str, int, float, bool, type(None))
 
+# json turns these into a single character
+SURROGATE_PAIR = re.compile("[\ud800-\udbff][\udc00-\udfff]")
+
 arepr = Repr()
 arepr.maxstring = 24
 
 
+def _is_lossy(value: Any) -> bool:
+    # whether json would change the value, which has one of the types above
+    return type(value) is str and SURROGATE_PAIR.search(value) is not None
+
+
 def get_attrs(obj: Any) -> Any:
     """Get the attributes of an instance of a container type, if there are any.
 
@@ -140,7 +149,7 @@ def _key_to_name(key: Any) -> str | None:
     else:
         return None
 
-    if type(value) not in (str, int, float):
+    if type(value) not in (str, int, float) or _is_lossy(value):
         return None
 
     try:
@@ -437,7 +446,7 @@ class TypeNode(Node):
 def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     for value in (obj.start, obj.stop, obj.step):
         # other types are either lost or not supported by json
-        if type(value) not in JSON_TYPES:
+        if type(value) not in JSON_TYPES or _is_lossy(value):
             raise UnsupportedTypeException(obj)
     res = {
         "__class__": obj.__class__.__name__,
@@ -476,6 +485,8 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # We first check if the object can be serialized using json. Note that the type
     # of instances of subclasses would be lost.
     if type(obj) in JSON_TYPES:
+        if _is_lossy(obj):
+            raise UnsupportedTypeException(obj)
         return {
             "__class__": "str",
             "__module__": "builtins",
-- 
2.43.0


From 38b53599ad632f2e05056d42054ffd5a4a98abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 37/40] fix: refuse files whose objects are nested too much for
 Python or numpy

---
 skops/io/_audit.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index 207d765..7d92d5c 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import io
+import sys
 from contextlib import contextmanager
 from typing import Any, Dict, Generator, List, Optional, Sequence, Type, Union
 
@@ -8,6 +9,9 @@ from ._protocol import PROTOCOL
 from ._utils import LoadContext, get_module, get_type_paths
 from .exceptions import UntrustedTypesFoundException
 
+# the maximum number of nodes of an object, if none of them was shared
+MAX_SIZE = 10**8
+
 NODE_TYPE_MAPPING: dict[tuple[str, int], Type[Node]] = {}
 VALID_NODE_CHILD_TYPES = Optional[
     Union["Node", List["Node"], Dict[str, "Node"], Type, str, io.BytesIO]
@@ -140,6 +144,9 @@ class Node:
         self.class_name, self.module_name = state["__class__"], state["__module__"]
         self._is_safe = None
         self._constructed = UNINITIALIZED
+        # how many levels of nodes are below this one, and how many nodes there would
+        # be if none of them was shared
+        self.depth, self.size = 0, 1
         saved_id = state.get("__id__")
         if saved_id and memoize:
             # hold reference to obj in case same instance encountered again in
@@ -307,6 +314,31 @@ class CachedNode(Node):
 NODE_TYPE_MAPPING[("CachedNode", PROTOCOL)] = CachedNode
 
 
+def _check_nesting(node: Node) -> None:
+    """Raise an error if the object is nested too much.
+
+    Nodes can refer to nodes that were loaded before, which allows for objects that
+    are nested much more than the file. Those can't have been dumped. Python and
+    numpy crash or do not terminate if they handle, e.g. hash, such objects.
+    """
+    children: list[Any] = []
+    for child in node.children.values():
+        if isinstance(child, dict):
+            children.extend(child.values())
+        elif isinstance(child, list):
+            children.extend(child)
+        else:
+            children.append(child)
+
+    for child in children:
+        if isinstance(child, Node):
+            node.depth = max(node.depth, child.depth + 1)
+            node.size += child.size
+
+    if node.depth > sys.getrecursionlimit() or node.size > MAX_SIZE:
+        raise RecursionError("The object is nested too much to be loaded.")
+
+
 def get_tree(
     state: dict[str, Any],
     load_context: LoadContext,
@@ -375,4 +407,5 @@ def get_tree(
             )
 
     loaded_tree = node_cls(state, load_context, trusted=trusted)
+    _check_nesting(loaded_tree)
     return loaded_tree
-- 
2.43.0


From 25e1d668271bec7006bb622bcf3a1c869128eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 38/40] fix: time to visualize files with many references to
 the same object

---
 skops/io/_visualize.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index c3673ed..608a7e0 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -278,6 +278,8 @@ def walk_tree(
     to_visit: list[tuple[Any, str, int, bool]] = [(node, node_name, level, is_last)]
     # nodes whose children were already visited, to not visit them repeatedly
     expanded = set()
+    # whether the nodes that were already visited are safe
+    safe_nodes: dict[int, bool] = {}
 
     while to_visit:
         node, node_name, level, is_last = to_visit.pop()
@@ -307,14 +309,17 @@ def walk_tree(
         # YIELDING THE ACTUAL NODE INFORMATION HERE
 
         # Note: calling node.is_safe() on all nodes is potentially wasteful because
-        # it also visits the child nodes, i.e. child nodes will be checked many
-        # times. A solution to this would be to add caching to its call.
+        # it also visits the child nodes, therefore it's only called once per node.
+        if id(node) not in safe_nodes:
+            safe_nodes[id(node)] = node.is_safe()
+        is_safe = safe_nodes[id(node)]
+
         yield NodeInfo(
             level=level,
             key=node_name,
             val=node.format(),
             is_self_safe=node.is_self_safe(),
-            is_safe=node.is_safe(),
+            is_safe=is_safe,
             is_last=is_last,
         )
 
@@ -322,7 +327,7 @@ def walk_tree(
         # If one of the children is unsafe (and the node itself is not marked as
         # such), it has to be shown, as otherwise nothing would be marked as unsafe.
         if isinstance(node, SKIPPED_TYPES) and (
-            node.is_safe() or not node.is_self_safe()
+            is_safe or not node.is_self_safe()
         ):
             continue
 
-- 
2.43.0


From 4d988dda404994f5f29b568551c05cb623224ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 39/40] fix: write valid json for slices with nan or infinity

---
 skops/io/_general.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index e9ffa86..dc89281 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import copyreg
 import io
 import json
+import math
 import operator
 import re
 import uuid
@@ -453,14 +454,21 @@ def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(type(obj)),
         "__loader__": "SliceNode",
         "content": {
-            "start": obj.start,
-            "stop": obj.stop,
-            "step": obj.step,
+            "start": _get_slice_value(obj.start, save_context),
+            "stop": _get_slice_value(obj.stop, save_context),
+            "step": _get_slice_value(obj.step, save_context),
         },
     }
     return res
 
 
+def _get_slice_value(value: Any, save_context: SaveContext) -> Any:
+    if isinstance(value, float) and not math.isfinite(value):
+        # there is no valid json for nan and inf
+        return get_state(value, save_context)
+    return value
+
+
 class SliceNode(Node):
     def __init__(
         self,
@@ -472,9 +480,20 @@ class SliceNode(Node):
         self.trusted = self._get_trusted(trusted, [slice])
         self.content = state["content"]
         self.children = {}
+        for key in ("start", "stop", "step"):
+            if isinstance(self.content[key], dict):
+                self.children[key] = get_tree(
+                    self.content[key], load_context, trusted=trusted
+                )
 
     def _construct(self):
-        return slice(self.content["start"], self.content["stop"], self.content["step"])
+        values = []
+        for key in ("start", "stop", "step"):
+            if key in self.children:
+                values.append(self.children[key].construct())
+            else:
+                values.append(self.content[key])
+        return slice(*values)
 
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From df7bf4b90e8b4c500d462e34e3732c86486b1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:07 +0000
Subject: [PATCH 40/40] fix: parse_modelcard: tables with cells that span rows
 or columns lost cells or moved them to other columns

---
 skops/card/_markup.py | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 8265a9d..74c7b94 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -232,24 +232,57 @@ class Markdown:
         body = self._table_body_old(tbody)
         return columns, body
 
+    @staticmethod
+    def _fill_spans(rows, ncols: int):  # pragma: no cover
+        # A cell that spans several rows or columns is listed only once, in the
+        # first row and column. Add empty cells in the other positions, so that
+        # each row has a cell for each column.
+        empty_cell = (None, None, 1, 1, [])
+        filled = []
+        # for each column, the number of rows covered by cells from above
+        covered = [0] * ncols
+        for attr, cells in rows:
+            cells = list(cells)
+            row: list[Any] = []
+            while len(row) < ncols:
+                col = len(row)
+                if covered[col] or not cells:
+                    row.append(empty_cell)
+                    covered[col] = max(covered[col] - 1, 0)
+                    continue
+                cell = cells.pop(0)
+                _, _, row_span, col_span, _ = cell
+                row.append(cell)
+                covered[col] = row_span - 1
+                # the cell ends at the latest where a cell from above begins
+                while col_span > 1 and len(row) < ncols and not covered[len(row)]:
+                    covered[len(row)] = row_span - 1
+                    row.append(empty_cell)
+                    col_span -= 1
+            filled.append((attr, row + cells))
+        return filled
+
     def _table_new(self, item) -> tuple[list[str], list[list[str]]]:  # pragma: no cover
         # pandoc >= 2.10
         # attr capt specs thead tbody tfoot
         _, _, colspecs, thead, tbody, tfoot = item
+        ncols = len(colspecs)
         # header, which may be missing
         (_, thead_bodies) = thead
+        thead_bodies = self._fill_spans(thead_bodies, ncols)
         if thead_bodies:
             (attr, thead_body) = thead_bodies[0]
             columns = self._table_cols_new(thead_body)
         else:
-            columns = [""] * len(colspecs)
+            columns = [""] * ncols
         # rows, additional header rows and footer rows are treated as normal rows
         trows = list(thead_bodies[1:])
         for _, _, intermediate_head, rows in tbody:
             # attr rhc hd bd
-            trows += intermediate_head + rows
+            trows += self._fill_spans(intermediate_head, ncols)
+            trows += self._fill_spans(rows, ncols)
         _, tfoot_rows = tfoot
-        trows += tfoot_rows
+        trows += self._fill_spans(tfoot_rows, ncols)
         body = self._table_body_new(trows)
         return columns, body
 
-- 
2.43.0

