From 10a5031d45456e2146a6410c40105ea852a090ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 01/37] fix: accept ranges of dynamic lists in the stage 2
 schema

Struct tables containing a dynamic list produce ranges whose bounds are
formulas, kept as text. The schema only knew integer bounds, so
--validate-json rejected e.g. the KV, NVM and Zoned command set models.
---
 src/spex/resources/stage2.schema.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spex/resources/stage2.schema.json b/src/spex/resources/stage2.schema.json
index c7eaea1..0ea50c3 100644
--- a/src/spex/resources/stage2.schema.json
+++ b/src/spex/resources/stage2.schema.json
@@ -150,6 +150,18 @@
                             }
                           }
                         },
+                        {
+                          "description": "a range in a dynamic list, both bounds are kept as text since either may be a formula",
+                          "type": "object",
+                          "properties": {
+                            "low": {
+                              "type": "string"
+                            },
+                            "high": {
+                              "type": "string"
+                            }
+                          }
+                        },
                         {
                           "description": "special range signifying a gap in the data-structure's definition",
                           "type": "object",
-- 
2.43.0


From 5a4381717fd050db5285ea3d29d0797937cd9412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 02/37] fix: compare each row with its predecessor when
 checking row order

Only the first field of a run was ever compared against, so rows at
offsets 0, 10, 5 were reported as overlapping instead of out of order.
---
 src/spex/jsonspec/extractors/structtable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 926ebee..ad1a9cc 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -242,8 +242,7 @@ class StructTableExtractor(FigureExtractor, ABC):
                 ):
                     self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                     return
-            else:
-                prev_range = field_range
+            prev_range = field_range
 
         labels = {fields[0]["label"]}
         prev_range = field_get_range(fields[0])
-- 
2.43.0


From 25a791d6c0617d7bc15f786ddc7e9c571a6e0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 03/37] fix: do not truncate unparseable ranges to their
 leading number

The range pattern was only anchored at the start, so cells holding a formula
or another notation, e.g. '2*n+7:2*n+6' or '4095:z', silently became the
range of the digits they start with instead of being kept as text and
reported as an invalid range.
---
 src/spex/jsonspec/extractors/structtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index ad1a9cc..1850c64 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -410,7 +410,7 @@ class StructTableExtractor(FigureExtractor, ABC):
         Returns:
             MaybeRange:
         """
-        m = RANGE_REGEX.match(value)
+        m = RANGE_REGEX.fullmatch(value)
         if not m:  # cannot parse into a range, sadly
             # elided rows are simply skipped.
             self.add_issue(LintErr.RANGE_INVALID, row_key=row_key)
-- 
2.43.0


From d7e207702a8680dcb0f71854fa7b5303edbe66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 04/37] fix: do not truncate unparseable ranges of dynamic
 lists

As for regular ranges, anchor the pattern at both ends; a formula such as
'8*n+7:8*n/2' was cut off at the first unsupported character.
---
 src/spex/jsonspec/extractors/structtable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 1850c64..db9ec98 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -427,7 +427,7 @@ class StructTableExtractor(FigureExtractor, ABC):
         return content_extract_brief(content, self.BRIEF_MAXLEN)
 
     def _parse_dynamic_range(self, field_range: str) -> MaybeRange:
-        range_match = DYNAMIC_RANGE_REGEX.match(
+        range_match = DYNAMIC_RANGE_REGEX.fullmatch(
             field_range.replace("\n", "").replace(" ", "")
         )
         if range_match is None:
-- 
2.43.0


From 57cd5e23c48bc6e8e61982646e73eab68daaf4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 05/37] fix: keep reserved and obsolete fields having further
 text

A row named Reserved or Obsolete whose content cell holds more than that
name, e.g. a second paragraph or a separate attribute column, was dropped
from the structure and showed up as a gap.
---
 src/spex/jsonspec/extractors/structtable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index db9ec98..1f865f0 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -175,7 +175,11 @@ class StructTableExtractor(FigureExtractor, ABC):
                 if self.is_special_case(range_field):
                     continue
                 elif field := self.handle_special_case(
-                    content=content_field,
+                    content=(
+                        label_field
+                        if self.is_special_case(label_field)
+                        else content_field
+                    ),
                     range=self._parse_range(range_field, range_field),
                 ):
                     fields.append(field)
-- 
2.43.0


From 42cd955e3b2a740777649560f2a9fc34e87690c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 06/37] fix: ignore tables without rows when looking for
 figures

A single empty table aborted the processing of the whole document, even
with --skip-figure-on-error.
---
 src/spex/jsonspec/document.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 4e31b50..3fc5bb5 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -193,7 +193,10 @@ class DocumentParser:
             if inner_tbl is not None and inner_tbl.tag == "table":
                 tbl = inner_tbl
 
-            fig_tr = Xpath.elem_first_req(tbl, "./tr[1]")
+            fig_tr = Xpath.elem_first(tbl, "./tr[1]")
+            if fig_tr is None:
+                # an empty table is no figure
+                continue
             # remove entire tr to simplify downstream processing between top-level and
             # nested figures.
             parent = fig_tr.getparent()
-- 
2.43.0


From 6dd3c0b50f133cb4e30502837c95b766ba6a03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 07/37] fix: escape title, revision and file name in the HTML
 head

An ampersand in any of these made the HTML model malformed, and a quote in
the document title cut it short.
---
 src/spex/htmlspec/htmlrenderer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 81e6e16..83f386e 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -134,14 +134,14 @@ class SpexHtmlRenderer:
         s.emitln("<head>").indent()
         title = self._document.header.title
         revision = self._document.header.revision
-        s.emit(f'<meta charset="utf-8" data-spec="{title}"')
+        s.emit(f'<meta charset="utf-8" data-spec="{html_escape(title)}"')
         if revision is not None:
-            s.emit(f' data-revision="{revision}"')
+            s.emit(f' data-revision="{html_escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        s.emitln(f"<title>{self._fname}</title>")
+        s.emitln(f"<title>{html_escape(self._fname)}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{self._fname}.css"/>')
+        s.emitln(f'<link rel="stylesheet" href="{html_escape(self._fname)}.css"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0


From 092d98f59f79fa39cd0c6c5571ad1c5468f19480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 08/37] fix: accept vertically merged cells marked with an
 explicit 'continue'

'continue' is the default value of w:vMerge and may be spelled out, which
tripped an assertion.
---
 src/spex/htmlspec/docx/tablewrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index e6bc9ca..c4b9603 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -52,7 +52,7 @@ class TableWrap:
                 return VerticalMergeState.NONE
             assert isinstance(merge_elem, _Element)
             row_val = Xpath.attr_first(merge_elem, "@w:val")
-            if row_val:
+            if row_val and row_val != "continue":
                 assert row_val == "restart"
                 return VerticalMergeState.RESTART
             else:
-- 
2.43.0


From 91181e311c42e7d354444834bc16de26bb5e4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 09/37] fix: keep every run of hyperlinks and fields

Word splits the text of a hyperlink or field into several runs, e.g. when
parts are formatted differently. All but the first were dropped, and an
empty hyperlink or field aborted the conversion.
---
 src/spex/htmlspec/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 5755a2a..1f0ab10 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -206,15 +206,15 @@ class SpexParser:
     def _select_runs(self, p: _Element) -> Iterator[_Element]:
         # we also want to extract text from hyperlinks, so loop over top-level
         # children, extracting runs (w:r) and hyperlinks (w:hyperlink)
-        # if a hyperlink, strip and yield the run.
+        # if a hyperlink, strip and yield its runs.
         # TODO: works, but need to satisfy mypy somehow...
         for child in p.iterchildren():
             if child.tag == Tag.r.value:
                 yield child
             elif child.tag == Tag.hyperlink.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+                yield from Xpath.elems(child, "./w:r")
             elif child.tag == Tag.fldSimple.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+                yield from Xpath.elems(child, "./w:r")
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-- 
2.43.0


From 11ff799324e0863bc4506f334e8deae1fec920e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 10/37] fix: keep all text of a run

A run may hold several texts, separated by tabs or line breaks. Only the
first was kept.
---
 src/spex/htmlspec/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 1f0ab10..19a73c6 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -218,11 +218,15 @@ class SpexParser:
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-            txt = Xpath.elem_first(r, "./w:t")
-            if txt is None or txt.text is None:
+            if not any(t.text for t in Xpath.elems(r, "./w:t")):
                 continue
+            # a tab or line break separates the texts around it
+            txt = "".join(
+                (e.text or "") if e.tag == Tag.t.value else " "
+                for e in Xpath.elems(r, "./w:t | ./w:tab | ./w:br | ./w:cr")
+            )
             r_rpr = self._document.extract_r_rpr(r)
-            yield Span(style=r_rpr, text=txt.text)
+            yield Span(style=r_rpr, text=txt)
 
     def _parse_table(self, stream: Stream[_Element]) -> Optional[Table]:
         tbl = stream.consume()
-- 
2.43.0


From 10d32b08365fb06e3acc1d77f56b4179f34b7d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 11/37] fix: do not apply text formatting which is switched off

Text with an explicit 'no underline' or 'no strikethrough' was rendered
underlined or struck through, as was any formatting switched off with
'false' or 'off' rather than '0'.
---
 src/spex/htmlspec/docx/runproperties.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index d01644d..c664036 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -173,9 +173,9 @@ class RunProperties:
         # underline and strikethrough (line-through) are governed by the same
         # css property.
         txt_dec_line = []
-        if self.__underline is not None:
+        if self.__underline:
             txt_dec_line.append("underline")
-        if self.__strikethrough is not None:
+        if self.__strikethrough:
             txt_dec_line.append("line-through")
         if txt_dec_line:
             attrs["text-decoration-line"] = " ".join(txt_dec_line)
@@ -209,19 +209,20 @@ class RunProperties:
             #   ...because we use this value to signal that the rPr did
             #   not explicitly disable the prop either.
             # if present w/o w:val attr -> True
-            # if present with w:val attr -> "1" is True, "0" is false
+            # if present with w:val attr -> "0", "false" and "off" are false, all
+            #   others (i.e. "1", "true" and "on") are True
             r1 = Xpath.elem_first(e, selector)
             if r1 is None:
                 return None
             r2 = Xpath.attr_first(r1, "./@w:val")
-            return r2 is None or r2.strip() != "0"
+            return r2 is None or r2.strip() not in ("0", "false", "off")
 
         def u_val(e: _Element) -> Optional[bool]:
             r1 = Xpath.elem_first(e, "./w:u")
             if r1 is None:
                 return None
-            r2 = Xpath.attr_first_req(r1, "./@w:val")
-            return r2 != "none"
+            r2 = Xpath.attr_first(r1, "./@w:val")
+            return None if r2 is None else r2 != "none"
 
         rpr = RunProperties(
             bold=bprop_val(rpr_xml, "./w:b", "w:val"),
-- 
2.43.0


From 910b5f1680bf0a9726cbca4bbee58be8c1ef771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 12/37] fix: answer requests for unknown reports with 404

Looking up a report which does not exist (any more) ended in an unhandled
TypeError and thus a 500.
---
 src/spexsrv/application/app.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 542d847..fdb7ba7 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -111,11 +111,12 @@ async def index() -> str:
 async def report(hash: str) -> str:
     # TODO: enable this part again this actually looks for the document requested
     json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
 
     if json_fpath is None or not json_fpath.is_file():
         abort(404)
 
+    html_fpath = json_fpath.with_suffix(".html")
+
     with open(json_fpath) as fh:
         report_json = json.load(fh)
 
@@ -147,14 +148,18 @@ async def report(hash: str) -> str:
 
 @app.route("/json/<hash>")
 async def json_report(hash: str) -> Response:
-    json_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash))
+    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    if json_fpath is None:
+        abort(404)
     return await quart.helpers.send_file(json_fpath)
 
 
 @app.route("/html/<hash>")
 async def html_report(hash: str) -> Response:
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
-    return await quart.helpers.send_file(html_fpath)
+    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    if json_fpath is None:
+        abort(404)
+    return await quart.helpers.send_file(json_fpath.with_suffix(".html"))
 
 
 @app.route("/parse", methods=["POST"])
-- 
2.43.0


From e41f46de68804a2df30a97b665f1dc03b054c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 13/37] fix: keep the reports of equally named uploads apart

Reports were stored by file name, so uploading another document of the same
name replaced what the first report's URL served.
---
 src/spexsrv/application/app.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index fdb7ba7..8474350 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -205,11 +205,12 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
                 json_fpath = e.value
                 html_path = Path(json_fpath.with_suffix(".html"))
 
-                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / json_fpath.name
+                # different documents may well share a file name
+                cache_dir = Path(app.config[SPEX_CACHE_TMPDIR].name) / hash
+                cache_dir.mkdir(exist_ok=True)
+                cache_entry = cache_dir / json_fpath.name
                 shutil.copy(json_fpath, cache_entry)
-                shutil.copy(
-                    html_path, Path(app.config[SPEX_CACHE_TMPDIR].name) / html_path.name
-                )
+                shutil.copy(html_path, cache_dir / html_path.name)
                 app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
-- 
2.43.0


From f74d8ae458caa8cf4d5296d2dd7a840c93822eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 14/37] fix: confine uploaded documents to their temporary
 directory

The client-supplied file name was used as is, so a name such as
'../../x.html' or an absolute path was written to outside of it.
---
 src/spexsrv/application/app.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 8474350..5893b32 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -173,10 +173,14 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
         abort(400)
 
     spec = files["document"]
+    # never trust directories in a client-supplied name, they may point anywhere
+    spec_name = Path(spec.filename or "").name
+    if spec_name in ("", ".."):
+        return "document lacks a file name", 422, {}
 
     temp_dir = tempfile.TemporaryDirectory()
     temp_dir_path = Path(temp_dir.name)
-    destination = temp_dir_path / spec.filename
+    destination = temp_dir_path / spec_name
 
     await spec.save(destination)
     hash = md5sum(destination)
-- 
2.43.0


From c5def2f87ee66a9b144c58081c472e20c37bb9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 15/37] fix: account for rows whose cells are all covered by
 cells of prior rows

---
 src/spex/jsonspec/rowiter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/rowiter.py b/src/spex/jsonspec/rowiter.py
index f20fc82..cf152c0 100644
--- a/src/spex/jsonspec/rowiter.py
+++ b/src/spex/jsonspec/rowiter.py
@@ -82,7 +82,7 @@ def alst_repr(alst: List[ALST]) -> str:
 
 
 def row_iter(tbl: Element) -> Iterator[Element]:
-    it = Xpath.elems(tbl, "./tr/td[1]/parent::tr | ./tr/th[1]/parent::tr")
+    it = Xpath.elems(tbl, "./tr")
     # it = Xpath.elems(tbl, "./tr/td[1]/parent::tr")
     alst: List[ALST] = []
 
@@ -91,6 +91,10 @@ def row_iter(tbl: Element) -> Iterator[Element]:
         if contains_th(row):
             yield row
             continue
+        if not alst and Xpath.elem_first(row, "./td") is None:
+            # a row without any cells of its own only has a meaning if all its
+            # columns are covered by cells of prior rows
+            continue
         if alst:
             row_ = row
             # There's one or more cells to re-insert. Insert while respecting
-- 
2.43.0


From 4c1c861dd68db22b2cc0d4907f1f2c28f81c7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 16/37] fix: skip figures with unmappable columns of corrected
 documents too

---
 src/spex/jsonspec/document.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 3fc5bb5..89265c0 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -296,6 +296,15 @@ class DocumentParser:
             # extractor_cls not None, class gotten from override
             mapping = extractor_cls.can_apply(tbl_hdrs)
             if mapping is None:
+                if "parent_fig_id" not in entity and self.args.skip_fig_on_error:
+                    # same handling as any other failure to parse a figure
+                    logger.log(ULog.ERROR, f"failed parsing figure {entity!r}")
+                    self.linter.add_issue(
+                        LintErr.TBL_PARSE_ERR,
+                        fig_id,
+                        ctx={"title": entity["title"]},
+                    )
+                    return
                 raise RuntimeError(
                     "override class failed to detect columns to extract from"
                 )
-- 
2.43.0


From 267a56fc1991fb4fe24fb6767861abf7387fce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 17/37] fix: apply names given by hand to fields of structures
 too

---
 src/spex/jsonspec/extractors/structtable.py | 24 ++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 1f865f0..5c013d5 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -192,7 +192,11 @@ class StructTableExtractor(FigureExtractor, ABC):
                 range = self._parse_range(range_field, range_field)
 
             row_key = self._range_to_row_key(range)
-            label = self._parse_label(label=label_field, row_key=row_key)
+            if self._label_override(range_field) is not None:
+                label = label_field
+                self.add_issue(LintErr.LBL_OVERRIDDEN, row_key=row_key)
+            else:
+                label = self._parse_label(label=label_field, row_key=row_key)
             brief = self._parse_brief(content_field, row_key=row_key)
 
             sub_table_entity: "EntityMeta" = {
@@ -354,10 +358,24 @@ class StructTableExtractor(FigureExtractor, ABC):
               range, label and content
         """
         range = XmlUtils.to_text(self.range_elem(row))
-        content = XmlUtils.to_text(self.content_elem(row))
-        label = XmlUtils.to_text(self.label_elem(row))
+        content_elem = self.content_elem(row)
+        content = XmlUtils.to_text(content_elem)
+        label = self._label_override(range)
+        if label is None:
+            label = XmlUtils.to_text(self.label_elem(row))
+        elif Xpath.elem_first(content_elem, "./p") is None:
+            # nothing but sub-tables, whose text must not become the brief
+            content = ""
         return (range, content, label)
 
+    def _label_override(self, range: str) -> Optional[str]:
+        """Return the label provided for the row with this range, if any."""
+        m = RANGE_REGEX.fullmatch(range)
+        if m is None:
+            return None
+        low = m.group("low") or m.group("high")
+        return self.doc_parser.label_overrides.get((self.fig_id, str(int(low))), None)
+
     def _extract_label_separate_column(self, label: str, row_key: str) -> str:
         txt_parts = label.split(":", 1)
         if len(txt_parts) == 1:
-- 
2.43.0


From 0ff964db27b490591db488359943425934b090ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 18/37] fix: name value 01b of figure 49_0_4, not of figure
 42_0_4

---
 src/spex/jsonspec/quirks/nvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/quirks/nvm.py b/src/spex/jsonspec/quirks/nvm.py
index 10998ec..a3cc37d 100644
--- a/src/spex/jsonspec/quirks/nvm.py
+++ b/src/spex/jsonspec/quirks/nvm.py
@@ -89,7 +89,7 @@ class NvmCmdSet1c(DocumentParser):
         ("42_4", "10b"): "normal",
         ("42_4", "11b"): "low",
         ("49_0_4", "00b"): "none",
-        ("42_0_4", "01b"): "idle",
+        ("49_0_4", "01b"): "idle",
         ("49_0_4", "10b"): "normal",
         ("49_0_4", "11b"): "low",
         ("64_0_4", "00b"): "none",
-- 
2.43.0


From d9d85b2d536448d836ffbe9b89a8de7a3625185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 19/37] fix: read a newline in the text of a docx as a space

---
 src/spex/htmlspec/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 19a73c6..a03a8fa 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -222,7 +222,7 @@ class SpexParser:
                 continue
             # a tab or line break separates the texts around it
             txt = "".join(
-                (e.text or "") if e.tag == Tag.t.value else " "
+                (e.text or "").replace("\n", " ") if e.tag == Tag.t.value else " "
                 for e in Xpath.elems(r, "./w:t | ./w:tab | ./w:br | ./w:cr")
             )
             r_rpr = self._document.extract_r_rpr(r)
-- 
2.43.0


From 36c73b0ac68a7da84b08957bf15d5b5ccc9d5803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 20/37] fix: keep tabs and line breaks in runs of their own

---
 src/spex/htmlspec/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index a03a8fa..8092a18 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -217,14 +217,17 @@ class SpexParser:
                 yield from Xpath.elems(child, "./w:r")
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
-        for r in self._select_runs(p):
-            if not any(t.text for t in Xpath.elems(r, "./w:t")):
-                continue
+        runs = list(self._select_runs(p))
+        if not any(t.text for r in runs for t in Xpath.elems(r, "./w:t")):
+            return
+        for r in runs:
             # a tab or line break separates the texts around it
             txt = "".join(
                 (e.text or "").replace("\n", " ") if e.tag == Tag.t.value else " "
                 for e in Xpath.elems(r, "./w:t | ./w:tab | ./w:br | ./w:cr")
             )
+            if not txt:
+                continue
             r_rpr = self._document.extract_r_rpr(r)
             yield Span(style=r_rpr, text=txt)
 
-- 
2.43.0


From 0e3a92c254b915a8af269c450f78677975a73df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 21/37] fix: match figure ids of reports as text, not as part
 of a query

---
 src/spexsrv/application/report_view.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 26b377d..6ecfc8a 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -5,22 +5,18 @@
 from pathlib import Path
 from typing import Dict, List
 
-import lxml
-import lxml.etree
-
 from spex.xml import XmlUtils, Xpath, etree
 
 
 def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
     doc = etree.parse(html_doc)
+    # ids are arbitrary text, hence not to be made part of a query
+    tables = Xpath.elems(doc, "./body/table[@id]")
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-        try:
-            p = Xpath.elem_first(doc, f"./body/table[@id={figure_id}]")
-            if p is not None:
-                _err_figures[figure] = XmlUtils.fmt(p)
-        except lxml.etree.XPathEvalError:
-            ...
+        p = next((t for t in tables if t.get("id") == figure_id), None)
+        if p is not None:
+            _err_figures[figure] = XmlUtils.fmt(p)
 
     return _err_figures
-- 
2.43.0


From fdf3dc6d4fafff97f59c95050cafd8b90f1d3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 22/37] fix: Remove all white space from the offsets of dynamic
 lists

---
 src/spex/jsonspec/extractors/structtable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 5c013d5..adbbf48 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -449,9 +449,7 @@ class StructTableExtractor(FigureExtractor, ABC):
         return content_extract_brief(content, self.BRIEF_MAXLEN)
 
     def _parse_dynamic_range(self, field_range: str) -> MaybeRange:
-        range_match = DYNAMIC_RANGE_REGEX.fullmatch(
-            field_range.replace("\n", "").replace(" ", "")
-        )
+        range_match = DYNAMIC_RANGE_REGEX.fullmatch("".join(field_range.split()))
         if range_match is None:
             self.add_issue(LintErr.RANGE_INVALID, row_key=field_range)
             return field_range
-- 
2.43.0


From 475ed9dda6c9a1dca2bde7d9c52653be27edcf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 23/37] fix: show figure ids on the report page as text, not as
 markup

---
 src/spexsrv/templates/report.html | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/templates/report.html b/src/spexsrv/templates/report.html
index cba1fcc..c4a6433 100644
--- a/src/spexsrv/templates/report.html
+++ b/src/spexsrv/templates/report.html
@@ -258,13 +258,20 @@
         return lints.reduce((n, {amount}) => n + amount, 0);
     }
 
+    // ids stem from captions, which may hold anything, markup included
+    const escapeHtml = (text) => {
+        const el = document.createElement("span");
+        el.textContent = text;
+        return el.innerHTML;
+    };
+
     const getFigureId = (figure) => {
         const fig_id = figure.split("_")[0];
         const html = report_html[fig_id];
         if (html != undefined) {
             return html;
         } else {
-            return figure;
+            return escapeHtml(figure);
         }
 
     };
-- 
2.43.0


From 1fcdb59f8176663371aee1d7db286f4548932ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 24/37] fix: group lint entries of figures whose ids name
 object members on the report page

---
 src/spexsrv/templates/report.html | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/templates/report.html b/src/spexsrv/templates/report.html
index c4a6433..867cd12 100644
--- a/src/spexsrv/templates/report.html
+++ b/src/spexsrv/templates/report.html
@@ -267,9 +267,8 @@
 
     const getFigureId = (figure) => {
         const fig_id = figure.split("_")[0];
-        const html = report_html[fig_id];
-        if (html != undefined) {
-            return html;
+        if (Object.hasOwn(report_html, fig_id)) {
+            return report_html[fig_id];
         } else {
             return escapeHtml(figure);
         }
@@ -329,7 +328,7 @@
                         acc[l.fig] = [l];
                     }
                     return acc;
-                }, {});
+                }, Object.create(null));
 
                 // add lint_errors to entities
                 let ents_w_lints = ents.map(e => {
-- 
2.43.0


From 9b80f2e294b9bc311ea7a4ad4caa489aaef3d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 25/37] fix: do not lose events cut in two on the upload page

---
 src/spexsrv/templates/upload-form.html | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spexsrv/templates/upload-form.html b/src/spexsrv/templates/upload-form.html
index ebef2dc..7bbdc67 100644
--- a/src/spexsrv/templates/upload-form.html
+++ b/src/spexsrv/templates/upload-form.html
@@ -126,14 +126,16 @@ const submitForm = () => {
         if (rsp.ok) {
             const reader = rsp.body.getReader();
             const decoder = new TextDecoder();
+            let pending = ""; // start of a line whose end has not arrived yet
             Alpine.store("processing", true);
             return reader.read().then(function processMsg({done, value}) {
                 if (done) {
                     window.location.href = url;
                     return;
                 }
-                const chunk = decoder.decode(value);
-                chunk.split("\n").forEach((line) => {
+                const lines = (pending + decoder.decode(value, { stream: true })).split("\n");
+                pending = lines.pop();
+                lines.forEach((line) => {
                     if (line.startsWith("data: ")) {
                         try {
                             msg = JSON.parse(line.substring(6));
-- 
2.43.0


From f05c1c9b1c768fc3bf0b31684ec5febb272cffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 26/37] fix: read and write files as UTF-8 whatever the locale

---
 src/spex/htmlspec/htmlrenderer.py | 13 +++++++++++--
 src/spex/jsonspec/parse.py        |  2 +-
 src/spex/validate.py              |  6 ++++--
 src/spex/writer.py                |  2 +-
 src/spexsrv/application/app.py    |  6 +++---
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 83f386e..df32c80 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -25,6 +25,15 @@ from spex.htmlspec.parser import (
 ProgressStatus: TypeAlias = Tuple[int, int]  # processing figure X of Y figures
 
 
+class write_utf8_file(write_file):
+    """As `write_file`, with an encoding which does not depend on the locale."""
+
+    def __enter__(self) -> Section:
+        section = super().__enter__()
+        self._fh.reconfigure(encoding="utf-8")
+        return section
+
+
 # TODO: nicer way of using `write_file` ?
 class SpexHtmlRenderer:
     def __init__(self, docx_path: Path, out_dir: Optional[Path] = None):
@@ -37,13 +46,13 @@ class SpexHtmlRenderer:
             out_dir = docx_path.parent
 
         self._html_path = out_dir / f"{self._fname}.html"
-        self._html_writer = write_file(self._html_path)
+        self._html_writer = write_utf8_file(self._html_path)
         self._html_head = Section()
         self._html_body = Section()
         self._html_doc: Optional[Section] = self._html_writer.__enter__()
 
         self._css_path = out_dir / f"{self._fname}.css"
-        self._css_writer = write_file(self._css_path)
+        self._css_writer = write_utf8_file(self._css_path)
         self._css_doc: Optional[Section] = self._css_writer.__enter__()
         # from props -> name
         self._css_txtfmt_cache = css.CssCache("txtfmt")
diff --git a/src/spex/jsonspec/parse.py b/src/spex/jsonspec/parse.py
index 0a03ced..673f081 100644
--- a/src/spex/jsonspec/parse.py
+++ b/src/spex/jsonspec/parse.py
@@ -34,7 +34,7 @@ class SpecDocument:
 
 # TODO determine what to return
 def open_doc(spec: Path) -> SpecDocument:
-    return html_to_spec_doc(spec.absolute().read_text())
+    return html_to_spec_doc(spec.absolute().read_text(encoding="utf-8"))
 
 
 def html_to_spec_doc(html_doc: str) -> SpecDocument:
diff --git a/src/spex/validate.py b/src/spex/validate.py
index 8cc77fb..9b7fc7f 100644
--- a/src/spex/validate.py
+++ b/src/spex/validate.py
@@ -11,7 +11,9 @@ from jsonschema import validate
 
 def validate_json(document_path: Path) -> None:
     schema = (
-        resources.files("spex.resources").joinpath("stage2.schema.json").read_text()
+        resources.files("spex.resources")
+        .joinpath("stage2.schema.json")
+        .read_text(encoding="utf-8")
     )
-    document = document_path.read_text()
+    document = document_path.read_text(encoding="utf-8")
     validate(json.loads(document), json.loads(schema))
diff --git a/src/spex/writer.py b/src/spex/writer.py
index 1c26530..5a62288 100644
--- a/src/spex/writer.py
+++ b/src/spex/writer.py
@@ -73,7 +73,7 @@ class FileWriter:
         fname = src.name[: -len(src.suffix)]
         self._output = output / f"{fname}.json"
         self._src = src
-        self._dst: Optional[TextIOWrapper] = open(self._output, "w")
+        self._dst: Optional[TextIOWrapper] = open(self._output, "w", encoding="utf-8")
         self._doc: S2Model = {
             "meta": {},
             "entities": [],
diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 5893b32..81a24dd 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -33,9 +33,9 @@ async def render_template(tpl: str, **ctx: str) -> str:
     static = Path(app.static_folder)
 
     if bundle:
-        with open(static / Path("alpinejs.3.13.5.js")) as fh:
+        with open(static / Path("alpinejs.3.13.5.js"), encoding="utf-8") as fh:
             ctx["alpinejs_src"] = fh.read()
-        with open(static / Path("bulma-0.9.4.min.css")) as fh:
+        with open(static / Path("bulma-0.9.4.min.css"), encoding="utf-8") as fh:
             ctx["bulma_src"] = fh.read()
     else:
         ctx["bulma_url"] = url_for("static", filename="bulma-0.9.4.min.css")
@@ -117,7 +117,7 @@ async def report(hash: str) -> str:
 
     html_fpath = json_fpath.with_suffix(".html")
 
-    with open(json_fpath) as fh:
+    with open(json_fpath, encoding="utf-8") as fh:
         report_json = json.load(fh)
 
     erroneous_figure_ids: Set[str] = {
-- 
2.43.0


From f55cc05aa388c7565cf61a3eff4a03ddfd682749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 27/37] fix: fail if HTML or CSS cannot be written instead of
 processing an older file

---
 src/spex/htmlspec/htmlrenderer.py | 9 ++++++++-
 src/spex/parse.py                 | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index df32c80..99f5b0c 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -270,10 +270,17 @@ class SpexHtmlRenderer:
               process."""
         return len(self._document.tables)
 
-    def __del__(self) -> None:
+    def close(self) -> None:
+        """write the CSS and HTML files.
+
+        Errors are raised, lest an older file is taken for the result."""
         if self._destroyed:
             return
+        self._destroyed = True
         self._css_writer.__exit__(None, None, None)
         self._css_doc = None
         self._html_writer.__exit__(None, None, None)
         self._html_doc = None
+
+    def __del__(self) -> None:
+        self.close()
diff --git a/src/spex/parse.py b/src/spex/parse.py
index a1bddf2..8dd2a72 100644
--- a/src/spex/parse.py
+++ b/src/spex/parse.py
@@ -38,6 +38,7 @@ def parse_spec(
             else:
                 for _ in gen:
                     pass
+            sp.close()
         finally:
             del sp
 
-- 
2.43.0


From 5882524a2e85290cde906e39a4718a8d97cd2978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 28/37] fix: do not lose text in tracked insertions, content
 controls and smart tags

---
 src/spex/htmlspec/docx/__init__.py  |  3 ++-
 src/spex/htmlspec/docx/tablewrap.py |  6 +++--
 src/spex/htmlspec/docx/tags.py      | 34 ++++++++++++++++++++++++++++-
 src/spex/htmlspec/parser.py         | 19 ++++++++++------
 4 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/spex/htmlspec/docx/__init__.py b/src/spex/htmlspec/docx/__init__.py
index ac3cedf..0cd12f9 100644
--- a/src/spex/htmlspec/docx/__init__.py
+++ b/src/spex/htmlspec/docx/__init__.py
@@ -6,7 +6,7 @@ from spex.htmlspec.docx.document import Document
 from spex.htmlspec.docx.numbering import AbstractNum, AbstractNumLvl, NumberingDocument
 from spex.htmlspec.docx.runproperties import RunProperties
 from spex.htmlspec.docx.tablewrap import TableWrap
-from spex.htmlspec.docx.tags import Tag
+from spex.htmlspec.docx.tags import Tag, contents
 
 __all__ = [
     "Document",
@@ -16,4 +16,5 @@ __all__ = [
     "RunProperties",
     "TableWrap",
     "Tag",
+    "contents",
 ]
diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index c4b9603..36b75f2 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -8,6 +8,7 @@ from typing import List
 
 from lxml.etree import _Element
 
+from spex.htmlspec.docx.tags import Tag, contents
 from spex.xml import Xpath
 
 
@@ -59,10 +60,11 @@ class TableWrap:
                 return VerticalMergeState.MERGED
 
         matrix: Matrix = []
-        for row_index, row in enumerate(Xpath.elems(self._elem, "./w:tr")):
+        rows = [e for e in contents(self._elem) if e.tag == Tag.tr.value]
+        for row_index, row in enumerate(rows):
             cell_index = 0
             merge_row = []
-            for cell in row.findall("./w:tc", row.nsmap):  # type: ignore
+            for cell in (e for e in contents(row) if e.tag == Tag.tc.value):
                 grid_span = tc_grid_span(cell)
                 vertical_merge = cell_vertical_merge(cell)
                 if vertical_merge is VerticalMergeState.MERGED:
diff --git a/src/spex/htmlspec/docx/tags.py b/src/spex/htmlspec/docx/tags.py
index f429c0a..f999ce3 100644
--- a/src/spex/htmlspec/docx/tags.py
+++ b/src/spex/htmlspec/docx/tags.py
@@ -3,6 +3,9 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 from enum import Enum
+from typing import Iterator
+
+from lxml.etree import _Element
 
 _nsmap = {
     "m": "http://schemas.openxmlformats.org/officeDocument/2006/math",
@@ -51,6 +54,35 @@ class Tag(Enum):
     t = _expand("w:t")  # text
     hyperlink = _expand("w:hyperlink")
     fldSimple = _expand("w:fldSimple")
+    ins = _expand("w:ins")  # tracked insertion
+    moveTo = _expand("w:moveTo")  # tracked move, at its target
+    dir = _expand("w:dir")  # bi-directional text
+    bdo = _expand("w:bdo")
+    smartTag = _expand("w:smartTag")
+    customXml = _expand("w:customXml")
+    sdt = _expand("w:sdt")  # content control
+    sdtContent = _expand("w:sdtContent")
+
+
+_wrappers = {
+    Tag.ins.value,
+    Tag.moveTo.value,
+    Tag.dir.value,
+    Tag.bdo.value,
+    Tag.smartTag.value,
+    Tag.customXml.value,
+    Tag.sdt.value,
+    Tag.sdtContent.value,
+}
+
+
+def contents(elem: _Element) -> Iterator[_Element]:
+    """iterate over children, looking into those which merely wrap contents."""
+    for child in elem.iterchildren():
+        if child.tag in _wrappers:
+            yield from contents(child)
+        else:
+            yield child
 
 
-__all__ = ["Tag"]
+__all__ = ["Tag", "contents"]
diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 8092a18..3060b57 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -9,7 +9,14 @@ from typing import Optional, Set, Union
 
 from lxml.etree import _Element
 
-from spex.htmlspec.docx import AbstractNumLvl, Document, RunProperties, TableWrap, Tag
+from spex.htmlspec.docx import (
+    AbstractNumLvl,
+    Document,
+    RunProperties,
+    TableWrap,
+    Tag,
+    contents,
+)
 from spex.htmlspec.stream import Stream
 from spex.jsonspec.extractors.regular_expressions import TABLE_ID_REGEX
 from spex.xml import Xpath
@@ -208,13 +215,13 @@ class SpexParser:
         # children, extracting runs (w:r) and hyperlinks (w:hyperlink)
         # if a hyperlink, strip and yield its runs.
         # TODO: works, but need to satisfy mypy somehow...
-        for child in p.iterchildren():
+        for child in contents(p):
             if child.tag == Tag.r.value:
                 yield child
             elif child.tag == Tag.hyperlink.value:
-                yield from Xpath.elems(child, "./w:r")
+                yield from self._select_runs(child)
             elif child.tag == Tag.fldSimple.value:
-                yield from Xpath.elems(child, "./w:r")
+                yield from self._select_runs(child)
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         runs = list(self._select_runs(p))
@@ -276,9 +283,7 @@ class SpexParser:
                     tag = "th"
 
                 tcell = TableCell(
-                    elems=list(
-                        self._parse_any(Stream(e for e in gridcell.cell.iterchildren()))
-                    ),
+                    elems=list(self._parse_any(Stream(contents(gridcell.cell)))),
                     span=Point(gridcell.colspan, gridcell.rowspan),
                     origin=Point(gridcell.left, gridcell.top),
                     tc_pr=tcpr,
-- 
2.43.0


From 86b2d8467febca6dcd35a240cab704f76f18fea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 29/37] fix: do not lose non-breaking hyphens

---
 src/spex/htmlspec/docx/tags.py |  1 +
 src/spex/htmlspec/parser.py    | 21 +++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/docx/tags.py b/src/spex/htmlspec/docx/tags.py
index f999ce3..1c65c40 100644
--- a/src/spex/htmlspec/docx/tags.py
+++ b/src/spex/htmlspec/docx/tags.py
@@ -52,6 +52,7 @@ class Tag(Enum):
     sz = _expand("w:sz")  # sz, size
     color = _expand("w:color")  # color
     t = _expand("w:t")  # text
+    noBreakHyphen = _expand("w:noBreakHyphen")
     hyperlink = _expand("w:hyperlink")
     fldSimple = _expand("w:fldSimple")
     ins = _expand("w:ins")  # tracked insertion
diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 3060b57..dda0c64 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -223,15 +223,28 @@ class SpexParser:
             elif child.tag == Tag.fldSimple.value:
                 yield from self._select_runs(child)
 
+    def _parse_text(self, e: _Element) -> str:
+        if e.tag == Tag.t.value:
+            return (e.text or "").replace("\n", " ")
+        if e.tag == Tag.noBreakHyphen.value:
+            return "-"
+        # a tab or line break separates the texts around it
+        return " "
+
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         runs = list(self._select_runs(p))
-        if not any(t.text for r in runs for t in Xpath.elems(r, "./w:t")):
+        if not any(
+            t.text or t.tag == Tag.noBreakHyphen.value
+            for r in runs
+            for t in Xpath.elems(r, "./w:t | ./w:noBreakHyphen")
+        ):
             return
         for r in runs:
-            # a tab or line break separates the texts around it
             txt = "".join(
-                (e.text or "").replace("\n", " ") if e.tag == Tag.t.value else " "
-                for e in Xpath.elems(r, "./w:t | ./w:tab | ./w:br | ./w:cr")
+                self._parse_text(e)
+                for e in Xpath.elems(
+                    r, "./w:t | ./w:tab | ./w:br | ./w:cr | ./w:noBreakHyphen"
+                )
             )
             if not txt:
                 continue
-- 
2.43.0


From 2e41091178a5707f41e6f6e1cb234b082d6a3b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 30/37] fix: do not split lists at bookmarks and the like

---
 src/spex/htmlspec/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index dda0c64..837a8f7 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -176,8 +176,13 @@ class SpexParser:
             if child is None:
                 break
 
+            if child.tag == Tag.tbl.value:
+                break  # a table ends the list
+
             if child.tag != Tag.p.value:
-                break  # not a paragraph tag, assume end of list
+                # has no contents, e.g. a bookmark
+                stream.consume()
+                continue
 
             if not self.__p_is_list_paragraph(child):
                 # not a list paragraph
-- 
2.43.0


From 5c1e24a4bfdbb51ae981897c241eddae563e2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 31/37] fix: give lists the style of their level however they
 are nested

---
 src/spex/htmlspec/docx/numbering.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 678da38..3d6ece1 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -40,14 +40,13 @@ class AbstractNumLvl:
 
     @property
     def css_clsname(self) -> str:
-        return f"{self.tag}{self.abstract_num_id}"
+        return f"{self.tag}{self.abstract_num_id}-{self.ilvl}"
 
     def to_css(self) -> str:
         is_ordered = self.is_ordered
         ilvl = self.ilvl
         tag = self.tag
         clsname = self.css_clsname
-        tags = " ".join(tag for _ in range(ilvl))
         # TODO: determine CSS list style.
         if is_ordered:
             style = self.__ol_styles.get(self.num_fmt, "decimal")
@@ -55,10 +54,7 @@ class AbstractNumLvl:
             # word defaults to alternating between two styles for unordered lists.
             ul_styles = ["disc", "circle"]
             style = ul_styles[ilvl % len(ul_styles)]
-        if tags:
-            return f"{tag}.{clsname} {tags} {{ list-style-type: {style}; }}"
-        else:
-            return f"{tag}.{clsname} {{ list-style-type: {style}; }}"
+        return f"{tag}.{clsname} {{ list-style-type: {style}; }}"
 
 
 T = TypeVar("T")
-- 
2.43.0


From 0f208341ba1cf9ac5bf1651899b3110b52e002ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 32/37] fix: keep the style of lists numbered in upper case

---
 src/spex/htmlspec/docx/numbering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 3d6ece1..ac94d12 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -27,6 +27,9 @@ class AbstractNumLvl:
             "decimal": "decimal",
             "lowerLetter": "lower-alpha",
             "lowerRoman": "lower-roman",
+            "upperLetter": "upper-alpha",
+            "upperRoman": "upper-roman",
+            "decimalZero": "decimal-leading-zero",
         }
     )
 
-- 
2.43.0


From c8243d9ae0d215311a08f399261af10a2e204bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 33/37] fix: ignore undefined character styles instead of
 failing

---
 src/spex/htmlspec/docx/styles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/styles.py b/src/spex/htmlspec/docx/styles.py
index 1a5e56f..10be0db 100644
--- a/src/spex/htmlspec/docx/styles.py
+++ b/src/spex/htmlspec/docx/styles.py
@@ -51,11 +51,14 @@ class StyleResolver:
             # style is stand-alone
             return rpr
         # style extends some other base style
-        based_on_rpr = self.__get_style(based_on)
+        based_on_rpr = self.get_style(based_on)
         return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr
 
     def get_style(self, style_id: str) -> Optional[RunProperties]:
-        canonical_style_name = self._style_aliases[style_id]
+        canonical_style_name = self._style_aliases.get(style_id)
+        if canonical_style_name is None:
+            # not defined, hence without effect
+            return None
         return self.__get_style(canonical_style_name)
 
 
-- 
2.43.0


From 5443438de8e565a313301e7d5f8cb800f8a99bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 34/37] fix: do not fail on lists whose levels are implied or
 not defined

---
 src/spex/htmlspec/docx/numbering.py | 13 +++++++------
 src/spex/htmlspec/parser.py         | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index ac94d12..c2bdffe 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -93,7 +93,7 @@ class AbstractNum:
     ilvls: List[AbstractNumLvl]
 
     def get_ilvl(self, ilvl: Union[str, int]) -> AbstractNumLvl:
-        return self.ilvls[int(ilvl)]
+        return next(lvl for lvl in self.ilvls if lvl.ilvl == int(ilvl))
 
 
 class NumberingDocument:
@@ -105,9 +105,10 @@ class NumberingDocument:
         self._path = doc_path
         self.__parse_absnum()
 
-    def has_num_id(self, num_id: Union[str, int]) -> bool:
-        """true if num_id points to a defined numbering style."""
-        return int(num_id) in self._num_to_abs_num
+    def has_ilvl(self, num_id: Union[str, int], ilvl: int) -> bool:
+        """true if num_id points to a numbering style which defines the level."""
+        abs_num = self._abstract_nums.get(self._num_to_abs_num.get(int(num_id), -1))
+        return abs_num is not None and any(lvl.ilvl == ilvl for lvl in abs_num.ilvls)
 
     def get_style(self, num_id: Union[str, int]) -> AbstractNum:
         if int(num_id) == 0:
@@ -126,8 +127,8 @@ class NumberingDocument:
             num_id = int(Xpath.attr_first_req(abs_num, "./@w:abstractNumId"))
             for ilvl in Xpath.elems(abs_num, "./w:lvl"):
                 s_ilvl = int(Xpath.attr_first_req(ilvl, "./@w:ilvl"))
-                s_fmt = Xpath.attr_first_req(ilvl, "./w:numFmt/@w:val")
-                s_txt = Xpath.attr_first_req(ilvl, "./w:lvlText/@w:val")
+                s_fmt = Xpath.attr_first(ilvl, "./w:numFmt/@w:val") or "decimal"
+                s_txt = Xpath.attr_first(ilvl, "./w:lvlText/@w:val") or ""
                 ilvls.append(
                     AbstractNumLvl(
                         abstract_num_id=num_id,
diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 837a8f7..5e26bec 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -142,7 +142,10 @@ class SpexParser:
         num_id = Xpath.attr_first(e, "./w:pPr/w:numPr/w:numId/@w:val")
         if num_id is None or self._document.numbering_xml is None:
             return False
-        return self._document.numbering_xml.has_num_id(num_id)
+        return self._document.numbering_xml.has_ilvl(num_id, self.__ilvl(e))
+
+    def __ilvl(self, e: _Element) -> int:
+        return int(Xpath.attr_first(e, "./w:pPr/w:numPr/w:ilvl/@w:val") or 0)
 
     def _parse_list(self, stream: Stream[_Element]) -> List:
         current = stream.peek()
@@ -155,7 +158,7 @@ class SpexParser:
         ), "cannot have numbering styles w/o a numbering document"
         style = self._document.numbering_xml.get_style(num_id)
 
-        ilvl = int(Xpath.attr_first_req(current, "./w:pPr/w:numPr/w:ilvl/@w:val"))
+        ilvl = self.__ilvl(current)
         slvl = style.get_ilvl(ilvl)
 
         return List(
@@ -193,9 +196,7 @@ class SpexParser:
                 # different list
                 break
 
-            child_ilvl = int(
-                Xpath.attr_first_req(child, "./w:pPr/w:numPr/w:ilvl/@w:val")
-            )
+            child_ilvl = self.__ilvl(child)
             if child_ilvl > ilvl:
                 # nested list
                 yield self._parse_list(stream)
-- 
2.43.0


From f79c5452f262cb8471b30dbabb70b2769460ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 35/37] fix: let the automatic color of a run override that of
 its style

---
 src/spex/htmlspec/docx/runproperties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index c664036..cf75393 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -62,8 +62,9 @@ class RunProperties:
         # w:sz
         self.__size = int(size) if size else None
         # w:color
-        if color is not None and len(color) != 6:
-            # disregard 'auto' and similar non-hex values.
+        if color is not None and len(color) != 6 and color != "auto":
+            # disregard non-hex values, except for 'auto' which
+            # overrides the color of a style.
             color = None
         self.__color = color
         self.__css_attrs = self.__compute_css_attrs()
@@ -106,7 +107,7 @@ class RunProperties:
 
     @property
     def color(self) -> Optional[str]:
-        if self.__color is None:
+        if self.__color is None or self.__color == "auto":
             return None
         return self.__color
 
@@ -194,8 +195,8 @@ class RunProperties:
             # TODO: should we do more than converting to points?
             sz = int(self.__size) / 2.0
             attrs["font-size"] = f"{sz}pt"
-        if self.__color is not None:
-            attrs["color"] = f"#{self.__color}"
+        if self.color is not None:
+            attrs["color"] = f"#{self.color}"
         return attrs
 
     @classmethod
-- 
2.43.0


From cf92865c73a314cc3dfb4f8e72c4dd8fabf20120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 36/37] fix: read a newline in the page header of a docx as a
 space

---
 src/spex/htmlspec/docx/header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/header.py b/src/spex/htmlspec/docx/header.py
index 8b145eb..f9fdde0 100644
--- a/src/spex/htmlspec/docx/header.py
+++ b/src/spex/htmlspec/docx/header.py
@@ -17,7 +17,9 @@ class Header:
         self._elem = docx_extract_contents(doc_path, "word/header1.xml")
         self._path = doc_path
         self._header = "".join(
-            e.text for e in Xpath.elems(self._elem, ".//w:t") if e.text is not None
+            e.text.replace("\n", " ")
+            for e in Xpath.elems(self._elem, ".//w:t")
+            if e.text is not None
         )
         m = _rgx_revision.match(self._header)
         self._revision = m.group("rev") if m is not None else None
-- 
2.43.0


From b8430638acd751c081d2b703088eb4fce40261a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 37/37] fix: treat all white space in column headers alike

---
 src/spex/jsonspec/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 89265c0..92d0e85 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -247,7 +247,7 @@ class DocumentParser:
 
         def normalize_hdr(hdr: str) -> str:
             # some headers have newlines and use spaces for indentation, strip
-            hdr = sub(" +", " ", hdr.replace("\n", " ").replace("\r", "")).strip()
+            hdr = sub(r"\s+", " ", hdr).strip()
             replacement = self.tbl_normalize_mappings.get(hdr, None)
             if replacement is not None:
                 self.linter.add_issue(
-- 
2.43.0

