From 5276e96d34bbf8ff583c784d6eb3153b0e742aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 01/33] fix: keep keys, operators and templates on one line in
 the grammar

'\s*' after the section operator, before the element operators and after the
copy operator also matched line feeds, so that tokens of one instruction were
gathered from several lines and every following line number was off.
---
 python/enolib/grammar_regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 7f2486f..20a4420 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -57,7 +57,7 @@ class Grammar:
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
     SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}\s*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
@@ -88,11 +88,11 @@ class Grammar:
     FIELDSET_ENTRY_VALUE_INDEX = 26
 
     # < template
-    COPY = rf"(<)\s*{REQUIRED}"
+    COPY = rf"(<)[^\S\n]*{REQUIRED}"
     COPY_OPERATOR_INDEX = 27
     TEMPLATE_INDEX = 28
 
-    LATE_DETERMINED = rf"{KEY}\s*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
+    LATE_DETERMINED = rf"{KEY}[^\S\n]*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
 
     NOT_EMPTY = f"(?:{EARLY_DETERMINED}|{LATE_DETERMINED})"
 
-- 
2.43.0


From 313b3aed57c76df1ef1bfe6828716de22054e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 02/33] fix: return no comment instead of raising KeyError for
 a single empty comment line

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 791c7f1..4464d2d 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -21,7 +21,7 @@ class Context:
         if not 'computed_comment' in element:
             if 'comments' in element:
                 if len(element['comments']) == 1:
-                    element['computed_comment'] = element['comments'][0]['comment']
+                    element['computed_comment'] = element['comments'][0].get('comment')
                 else:
                     first_non_empty_line_index = None
                     shared_indent = math.inf
-- 
2.43.0


From b9bac67a9eacbeb42362185be4297761d88d69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 03/33] fix: return the elements of a mirrored section from
 Context.elements

raw() of a document with a section that copies another one without adding
elements of its own raised KeyError.
---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 4464d2d..7d37c68 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -59,7 +59,7 @@ class Context:
 
     def elements(self, section):
         if 'mirror' in section:
-            self.elements(section['mirror'])
+            return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
                 section['computed_elements_map'] = {}
-- 
2.43.0


From 4ffb515d9946025143b1c4353a240a4cef05f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 04/33] fix: report a missing template instead of a KeyError
 when an earlier copy depends on it

---
 python/enolib/resolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 17de161..1150f5c 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -151,6 +151,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.non_section_element_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_non_section_elements.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_non_section_element(target)
@@ -162,6 +163,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.section_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_sections.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_section(target)
-- 
2.43.0


From 47c9a114e4955048c7d3020fa77b1000b432cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 05/33] fix: parent() of elements obtained through lookup and
 of sections

---
 python/enolib/elements/empty.py          | 2 +-
 python/enolib/elements/field.py          | 2 +-
 python/enolib/elements/fieldset_entry.py | 2 +-
 python/enolib/elements/list_item.py      | 2 +-
 python/enolib/elements/section.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/enolib/elements/empty.py b/python/enolib/elements/empty.py
index 6147dd0..4f2cf7c 100644
--- a/python/enolib/elements/empty.py
+++ b/python/enolib/elements/empty.py
@@ -7,4 +7,4 @@ class Empty(ElementBase):
         return f"<class Empty key={self._instruction['key']}>"
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index ba44871..e740099 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -36,7 +36,7 @@ class Field(ValueElementBase):
         return self._value(loader, required=False)
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
 
     def required_string_value(self):
         return self._value(required=True)
diff --git a/python/enolib/elements/fieldset_entry.py b/python/enolib/elements/fieldset_entry.py
index e383624..6ab1540 100644
--- a/python/enolib/elements/fieldset_entry.py
+++ b/python/enolib/elements/fieldset_entry.py
@@ -7,4 +7,4 @@ class FieldsetEntry(ValueElementBase):
         return f"<class FieldsetEntry key={self._instruction['key']} value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or fieldset.Fieldset(self._context, self._instruction.parent)
+        return self._parent or fieldset.Fieldset(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/list_item.py b/python/enolib/elements/list_item.py
index 62584e1..d6f4d9b 100644
--- a/python/enolib/elements/list_item.py
+++ b/python/enolib/elements/list_item.py
@@ -7,4 +7,4 @@ class ListItem(ValueElementBase):
         return f"<class ListItem value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or list.List(self._context, self._instruction.parent)
+        return self._parent or list.List(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9f95629..45f750a 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -382,7 +382,7 @@ class Section(ElementBase):
         return self._section(key, required=False)
 
     def parent(self):
-        if self._instruction['type'] is not InstructionType.DOCUMENT:
+        if self._instruction['type'] is InstructionType.DOCUMENT:
             return None
 
         return self._parent or Section(self._context, self._instruction['parent'])
-- 
2.43.0


From 0693ddbd16896b4211433042120049ccebd39787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 06/33] fix: Element.to_fieldset_entry and to_list_item no
 longer fail with an AttributeError

---
 python/enolib/elements/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 6b4239c..0638d89 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -11,7 +11,7 @@ class Element(SectionElement):
         return f"<class Element key={self._instruction['key']}>"
 
     def to_fieldset_entry(self):
-        if not self._fieldset_entry:
+        if not hasattr(self, '_fieldset_entry'):
             if self._instruction['type'] is not InstructionType.FIELDSET_ENTRY:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset_entry')
 
@@ -20,7 +20,7 @@ class Element(SectionElement):
         return self._fieldset_entry
 
     def to_list_item(self):
-        if not self._list_item:
+        if not hasattr(self, '_list_item'):
             if self._instruction['type'] is not InstructionType.LIST_ITEM:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list_item')
 
-- 
2.43.0


From 1f2c47b7148d5db00a72f6f77ad698302e8fb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 07/33] fix: Fieldset.entry returns a missing entry proxy that
 can raise its error

---
 python/enolib/elements/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 6a644f8..ea820df 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -22,7 +22,7 @@ class Fieldset(ElementBase):
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
-    def _entry(self, key, *, required=False):
+    def _entry(self, key, *, required=None):
         self._touched = True
 
         if not key:
@@ -71,7 +71,7 @@ class Fieldset(ElementBase):
 
             self._instantiated_entries.extend(native_entries)
 
-    def _missingError(self, entry):
+    def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
 
     def _untouched(self):
-- 
2.43.0


From dac0a4cb0f2495dd0dd4df587966ae90ac807c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 08/33] fix: Fieldset.assert_all_touched raises the validation
 error

---
 python/enolib/elements/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index ea820df..2d8b37e 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -97,7 +97,7 @@ class Fieldset(ElementBase):
                     if callable(message):
                         message = message(entry)
 
-                    raise Validation.unexpected_element(self._context, message, entry['instruction'])
+                    raise Validation.unexpected_element(self._context, message, entry._instruction)
 
     def entries(self, key=None):
         self._touched = True
-- 
2.43.0


From f7f9737fae6efd210ba1a47cbe5406c70846f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 09/33] fix: all_elements_required works before elements are
 yielded

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 45f750a..80f9335 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -265,9 +265,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and element._yielded:
+            if element._instruction['type'] is InstructionType.SECTION and hasattr(element, '_yielded'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and element._yielded:
+            elif element._instruction['type'] is InstructionType.FIELDSET and hasattr(element, '_yielded'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From dbda87e1cac134f9a98eead54cf19446c717fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 10/33] fix: optional section accessors can be called without a
 key

---
 python/enolib/elements/section.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 80f9335..7b6545d 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -363,22 +363,22 @@ class Section(ElementBase):
 
         return [cast(element) for element in elements]
 
-    def optional_element(self, key):
+    def optional_element(self, key=None):
         return self._element(key, required=False)
 
-    def optional_empty(self, key):
+    def optional_empty(self, key=None):
         return self._empty(key, required=False)
 
-    def optional_field(self, key):
+    def optional_field(self, key=None):
         return self._field(key, required=False)
 
-    def optional_fieldset(self, key):
+    def optional_fieldset(self, key=None):
         return self._fieldset(key, required=False)
 
-    def optional_list(self, key):
+    def optional_list(self, key=None):
         return self._list(key, required=False)
 
-    def optional_section(self, key):
+    def optional_section(self, key=None):
         return self._section(key, required=False)
 
     def parent(self):
-- 
2.43.0


From fb8f304483e64a311ca0af3f6feb57f1ebbcbd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 11/33] fix: TerminalReporter no longer fails on parse errors
 and deep copies

---
 python/enolib/reporters/terminal_reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 4fb296c..262cbdb 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -36,7 +36,7 @@ RANGE_STYLE = {
     'entry_operator': WHITE,
     'section_operator': WHITE,
     'copy_operator': WHITE,
-    'deepCopy_operator': WHITE,
+    'deep_copy_operator': WHITE,
     'multiline_field_operator': WHITE,
     'direct_line_continuation_operator': WHITE,
     'spaced_line_continuation_operator': WHITE,
@@ -71,7 +71,7 @@ class TerminalReporter(Reporter):
 
         content = ''
         if instruction:
-            if instruction['type'] is InstructionType.COMMENT or instruction['type'] is InstructionType.UNPARSED:
+            if instruction.get('type') in (InstructionType.COMMENT, InstructionType.UNPARSED):
                 content = BRIGHT_BLACK + self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]] + RESET
             else:
                 content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]
-- 
2.43.0


From f4a1a85281d953aac5da9e7d554ebe94cb8a543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 12/33] fix: report sections that contain empty elements or
 copied fieldsets

---
 python/enolib/reporters/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b29a69a..54fa4bf 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -124,6 +124,8 @@ class Reporter:
                 return element['line'] + 1
         elif element['type'] is InstructionType.SECTION:
             return self._tag_section(element, tag)
+        elif element['type'] is not InstructionType.DOCUMENT:
+            return element['line'] + 1
 
     def _tag_section(self, section, tag, recursive=True):
         scan_line = section['line'] + 1
-- 
2.43.0


From 5ad5c6d1078137a0b7b2fd796879ff68beaed859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 13/33] fix: report cyclic section copies whose chain starts
 and ends with plain sections

---
 python/enolib/errors/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1c87b9b..2399fe3 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -15,6 +15,8 @@ class Parsing:
             copy_instruction = feedback_chain[-1]
         elif 'template' in feedback_chain[0]:
             copy_instruction = feedback_chain[0]
+        else:
+            copy_instruction = next(element for element in feedback_chain if 'template' in element)
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From c1704afe7cfcfb757c019d9c3bda5c53764dcb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 14/33] fix: string_key() and key() on the document no longer
 raise a KeyError

---
 python/enolib/elements/element_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/enolib/elements/element_base.py b/python/enolib/elements/element_base.py
index c5d434a..98be538 100644
--- a/python/enolib/elements/element_base.py
+++ b/python/enolib/elements/element_base.py
@@ -30,6 +30,9 @@ class ElementBase:
         if self._instruction['type'] is InstructionType.LIST_ITEM:
             return self._instruction['parent']['key']
 
+        if self._instruction['type'] is InstructionType.DOCUMENT:
+            return None
+
         return self._instruction['key']
 
     def comment_error(self, message):
-- 
2.43.0


From b12d91d2de5ee8575fdb4fd6831e77117c16827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:15 +0000
Subject: [PATCH 15/33] fix: comment_error() works for elements without a
 comment

---
 python/enolib/errors/selections.py  | 2 +-
 python/enolib/reporters/reporter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index 099192e..fef8b33 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,7 +41,7 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
-    comments = element['comments']
+    comments = element.get('comments', [])
 
     if len(comments) == 1:
         if 'comment' in comments[0]:
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 54fa4bf..ea2cd02 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -154,7 +154,7 @@ class Reporter:
 
     def report_comments(self, element):
         self._snippet[element['line']] = INDICATE
-        for comment in element['comments']:
+        for comment in element.get('comments', []):
             self._snippet[comment['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From badc987bfca1b18cd6086ee6d7bddb342e08ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 16/33] fix: escape the source label in HTML snippets

---
 python/enolib/reporters/html_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/html_reporter.py b/python/enolib/reporters/html_reporter.py
index e797b93..548a0fc 100644
--- a/python/enolib/reporters/html_reporter.py
+++ b/python/enolib/reporters/html_reporter.py
@@ -40,6 +40,6 @@ class HtmlReporter(Reporter):
         snippet = '\n'.join(self._line(line, tag) for line, tag in enumerate(self._snippet) if tag is not None)
 
         if self._context.source:
-            return f"<div><div>{self._context.source}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
+            return f"<div><div>{escape(self._context.source)}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
 
         return f"<pre class=\"eno-report\">{columns_header}{snippet}</pre>"
-- 
2.43.0


From 5a5cfda621006f4267c6ed791e69edfc17b4931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 17/33] fix: lookup finds continuations of the last item or
 entry

---
 python/enolib/lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 6b367eb..c97d12f 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -71,7 +71,7 @@ def check_fieldset_by_line(fieldset, line):
     if line == fieldset['line']:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or line > fieldset['entries'][-1]['line']:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -92,7 +92,7 @@ def check_fieldset_by_index(fieldset, index):
     if index <= fieldset['ranges']['line'][END]:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or index > fieldset['entries'][-1]['ranges']['line'][END]:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -113,7 +113,7 @@ def check_list_by_line(list, line):
     if line == list['line']:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or line > list['items'][-1]['line']:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
@@ -134,7 +134,7 @@ def check_list_by_index(list, index):
     if index <= list['ranges']['line'][END]:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or index > list['items'][-1]['ranges']['line'][END]:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
-- 
2.43.0


From 18b3406f13cd1fa0d9ac15dfb7c26a31a5f73bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 18/33] fix: lookup by index finds the ranges of unassociated
 comments

---
 python/enolib/lookup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index c97d12f..895808e 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -236,7 +236,10 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     instruction = match['instruction']
 
     if not instruction:
-        instruction = next((i for i in context.meta if i['line'] == line), None)
+        if index is None:
+            instruction = next((i for i in context.meta if i['line'] == line), None)
+        else:
+            instruction = next((i for i in context.meta if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
 
         if not instruction:
             return result
-- 
2.43.0


From 08f5f205ed57f36a13175d5093870ece181d5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 19/33] fix: no phantom line after an unterminated multiline
 field at the end of the input

---
 python/enolib/analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1bc611b..af80976 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -344,7 +344,11 @@ class Analyzer:
                 last_non_section_element = instruction
 
                 if not terminator_match:
-                    self._tokenize_error_context()
+                    if self._index > len(self._context.input):
+                        self._context.line_count = self._line
+                    else:
+                        self._tokenize_error_context()
+
                     raise Parsing.unterminated_multiline_field(self._context, instruction)
 
                 end_of_multiline_field_index = terminator_match.start()
-- 
2.43.0


From dcf9e94a2f11e9b30bebcc4c425aef022ca08edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 20/33] fix: elements of an extended section come in the same
 order as in raw()

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 7b6545d..610eb54 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -169,11 +169,13 @@ class Section(ElementBase):
                 return instance
 
             filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
-            self._instantiated_elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
+            native_elements = [instantiate_and_index(element) for element in filtered]
 
             if 'extend' in section:
                 self._instantiate_elements(section['extend'])
 
+            self._instantiated_elements.extend(native_elements)
+
     def _list(self, key, *, required=None):
         self._touched = True
 
-- 
2.43.0


From 099da61d3ce6da7b987ac82bb69e19848785061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 21/33] fix: deep copies merge the subsections a template has
 itself copied

---
 python/enolib/resolver.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 1150f5c..465662d 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -63,7 +63,7 @@ class Resolver:
                 else:
                     merge_map[section_element['key']] = { 'section': section_element }
 
-            for section_element in template['elements']:
+            for section_element in self._section_elements(template):
                 if section_element['key'] in merge_map:
                     merger = merge_map[section_element['key']]
 
@@ -79,6 +79,17 @@ class Resolver:
                 if merger and 'template' in merger:
                     self.consolidate_sections(merger['section'], merger['template'], True)
 
+    def _section_elements(self, section):
+        if 'mirror' in section:
+            return self._section_elements(section['mirror'])
+
+        if 'extend' in section:
+            own_keys = [element['key'] for element in section['elements']]
+
+            return [element for element in self._section_elements(section['extend']) if element['key'] not in own_keys] + section['elements']
+
+        return section['elements']
+
     def mirror(self, element, template):
         if 'mirror' in template:
             element['mirror'] = template['mirror']
-- 
2.43.0


From aece446756e1b8a278717849129ad5db66669809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 22/33] fix: snippets of parse errors show the comments before
 the invalid line

---
 python/enolib/reporters/reporter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index ea2cd02..282c0d1 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -70,6 +70,16 @@ class Reporter:
         for meta in self._context.meta:
             self._index[meta['line']] = meta
 
+        # Lines that were not stored anywhere because parsing ended with an error (e.g. comments before the invalid line)
+        begin = 0
+        for line, content in enumerate(self._context.input.split('\n')):
+            end = begin + len(content)
+
+            if self._index[line] is None and content.strip():
+                self._index[line] = { 'line': line, 'ranges': { 'line': (begin, end) }, 'type': InstructionType.UNPARSED }
+
+            begin = end + 1
+
     def _tag_continuations(self, element, tag):
         scan_line = element['line'] + 1
 
-- 
2.43.0


From 0d07a8e1658382d6e9cace0ce609a762a2e373eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 23/33] fix: show the lines following a reported first line

---
 python/enolib/reporters/reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 282c0d1..a1eca3f 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -216,9 +216,9 @@ class Reporter:
                     continue
 
                 if(line + 2 < self._context.line_count and self._snippet[line + 2] is not None and self._snippet[line + 2] != DISPLAY or
-                   line - 2 > 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
+                   line - 2 >= 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
                    line + 1 < self._context.line_count and self._snippet[line + 1] is not None and self._snippet[line + 1] != DISPLAY or
-                   line - 1 > 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
+                   line - 1 >= 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
                     self._snippet[line] = DISPLAY
                 elif line + 3 < self._context.line_count and self._snippet[line + 3] is not None and self._snippet[line + 3] != DISPLAY:
                     self._snippet[line] = OMISSION
-- 
2.43.0


From b1a334f6a16bf26e6a53f09ef6acb14cad92a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:09 +0000
Subject: [PATCH 24/33] fix: reject documents whose deep copies lead back to
 themselves instead of recursing endlessly

---
 python/enolib/resolver.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 465662d..c6dfe51 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -41,7 +41,13 @@ class Resolver:
                   template['type'] is InstructionType.MULTILINE_FIELD_BEGIN):
                 raise Parsing.missing_list_for_list_item(self._context, element['items'][0])
 
-    def consolidate_sections(self, section, template, deep_merge):
+    def consolidate_sections(self, section, template, deep_merge, copying_section):
+        # Deep merging adds dependencies that are not visible as copies in the document, thus cycles can also come up here
+        feedback_path = self._path_to_section(template, section, set())
+
+        if feedback_path is not None:
+            raise Parsing.cyclic_dependency(self._context, section, [section, *feedback_path, copying_section])
+
         if 'comments' in template and not 'comments' in section:
             section['comments'] = template['comments']
 
@@ -77,7 +83,27 @@ class Resolver:
 
             for merger in merge_map.values():
                 if merger and 'template' in merger:
-                    self.consolidate_sections(merger['section'], merger['template'], True)
+                    self.consolidate_sections(merger['section'], merger['template'], True, copying_section)
+
+    def _path_to_section(self, start, section, visited):
+        if start is section:
+            return []
+
+        if id(start) in visited:
+            return None
+
+        visited.add(id(start))
+
+        dependencies = [start[relation] for relation in ('mirror', 'extend') if relation in start]
+        dependencies.extend(element for element in start['elements'] if element['type'] is InstructionType.SECTION)
+
+        for dependency in dependencies:
+            path = self._path_to_section(dependency, section, visited)
+
+            if path is not None:
+                return [start, *path]
+
+        return None
 
     def _section_elements(self, section):
         if 'mirror' in section:
@@ -126,7 +152,7 @@ class Resolver:
             if 'copy'in template or 'deep_resolve' in template:
                 self.resolve_section(template, [*previous_sections, section])
 
-            self.consolidate_sections(section, template, 'deep_copy' in section)
+            self.consolidate_sections(section, template, 'deep_copy' in section, section)
 
             del section['copy']
 
-- 
2.43.0


From de7a99b7278008c89a4ef6c5c781a42c9dc991aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 25/33] fix: touching a section touches the elements that were
 not yielded yet

---
 python/enolib/elements/section_element.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section_element.py b/python/enolib/elements/section_element.py
index f9c25e9..4fc3eb7 100644
--- a/python/enolib/elements/section_element.py
+++ b/python/enolib/elements/section_element.py
@@ -13,6 +13,9 @@ class SectionElement(ElementBase):
         return f"<class SectionElement key={self._instruction['key']}>"
 
     def _untouched(self):
+        if hasattr(self, '_touched_before_yielded'):
+            return False
+
         if not hasattr(self, '_yielded'):
             return self._instruction
 
@@ -96,9 +99,17 @@ class SectionElement(ElementBase):
         return self._section
 
     def touch(self):
-        # TODO: Here and elsewhere: This needs to touch anyway; possibly not so small implications
         if not hasattr(self, '_yielded'):
-            return
+            if self.yields_empty():
+                self._touched_before_yielded = True  # Still open as what it is going to be yielded
+            elif self.yields_field():
+                self.to_field()
+            elif self.yields_fieldset():
+                self.to_fieldset()
+            elif self.yields_list():
+                self.to_list()
+            elif self.yields_section():
+                self.to_section()
 
         if hasattr(self, '_empty'):
             self._empty._touched = True
-- 
2.43.0


From 97cb6ffeb9aca682e729298ebd3f3e8a259a1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 26/33] fix: errors about the document as a whole raised a
 KeyError

---
 python/enolib/errors/selections.py  | 4 ++++
 python/enolib/reporters/reporter.py | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index fef8b33..7fcdfb5 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -22,6 +22,10 @@ def last_in(element):
         return element
 
 def cursor(instruction, range, position):
+    # The document has no line of its own
+    if instruction.get('type') is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN['from']
+
     index = instruction['ranges'][range][position]
 
     return {
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index a1eca3f..234d1e0 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -163,6 +163,9 @@ class Reporter:
         return self
 
     def report_comments(self, element):
+        if element['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[element['line']] = INDICATE
         for comment in element.get('comments', []):
             self._snippet[comment['line']] = EMPHASIZE
@@ -170,6 +173,9 @@ class Reporter:
         return self
 
     def report_element(self, element):
+        if element['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[element['line']] = EMPHASIZE
         self._tag_element(element, INDICATE)
 
@@ -183,6 +189,9 @@ class Reporter:
         return self
 
     def report_line(self, instruction):
+        if instruction.get('type') is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[instruction['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From 2ac2dce026b6a332b09552406b46dbe0227bcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 27/33] fix: key_error on a list item raised a KeyError

---
 python/enolib/errors/validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 0cb62c1..ac42689 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -22,6 +22,10 @@ class Validation:
 
     @staticmethod
     def key_error(context, message, element):
+        # The key of a list item is the one of its list
+        if element['type'] is InstructionType.LIST_ITEM:
+            element = element['parent']
+
         return ValidationError(
             context.messages.key_error(message),
             context.reporter(context).report_line(element).snippet(),
-- 
2.43.0


From 34c3e9d6fb2d86feabaf5b5a7db53ff47962b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:40 +0000
Subject: [PATCH 28/33] fix: errors about missing values of items and entries
 left out empty continuations

---
 python/enolib/errors/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index ac42689..cda416d 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -74,7 +74,7 @@ class Validation:
 
         snippet = context.reporter(context).report_element(element).snippet()
 
-        if element['type'] is InstructionType.FIELD and 'continuations' in element:
+        if 'continuations' in element:
             selection['to'] = cursor(element['continuations'][-1], 'line', END)
         else:
             selection['to'] = cursor(element, 'line', END)
-- 
2.43.0


From 25dae4fabe3be36ac9a954ca593634b7135a51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 29/33] fix: all_elements_required missed empty elements that
 were queried as fieldsets

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 610eb54..9653344 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -267,9 +267,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and hasattr(element, '_yielded'):
+            if hasattr(element, '_section'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and hasattr(element, '_yielded'):
+            elif hasattr(element, '_fieldset'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From c0b8a03e4e4da004203c04bd14b4efd0d09986dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:51 +0000
Subject: [PATCH 30/33] fix: parent() of a nested untouched element passed to a
 message function was the outermost section

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9653344..ea853fc 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -284,7 +284,9 @@ class Section(ElementBase):
 
                 if untouched:
                     if callable(message):
-                        message = message(element_module.Element(self._context, untouched, self))
+                        # Anything further below has another parent than this section
+                        parent = self if untouched is element._instruction else None
+                        message = message(element_module.Element(self._context, untouched, parent))
 
                     raise Validation.unexpected_element(self._context, message, untouched)
 
-- 
2.43.0


From 8667319405d557ea28e25d57c27069e0f79d6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:51 +0000
Subject: [PATCH 31/33] fix: repr() of values with line feeds spread over
 several lines, and empty values were shown as None

---
 python/enolib/elements/value_element_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/value_element_base.py b/python/enolib/elements/value_element_base.py
index d2ea72f..71f4d1e 100644
--- a/python/enolib/elements/value_element_base.py
+++ b/python/enolib/elements/value_element_base.py
@@ -6,13 +6,13 @@ class ValueElementBase(ElementBase):
     def _print_value(self):
         value = self._context.value(self._instruction)
 
-        if not value:
+        if value is None:
             return 'None'
 
         if len(value) > 14:
             value = f"{value[0:11]}..."
 
-        return value.replace("\n", '\n')
+        return value.replace('\n', '\\n')
 
     def _value(self, loader=None, *, required):
         self._touched = True
-- 
2.43.0


From 1eb4e70f33a5acfa84c688a1f72bf4b4e3a81945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:51 +0000
Subject: [PATCH 32/33] fix: repr() of the document or a list item found
 through lookup raised a KeyError

---
 python/enolib/elements/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 0638d89..a61e42f 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -8,7 +8,7 @@ from .section_element import SectionElement
 class Element(SectionElement):
     # TODO: Revisit (also: missing in js implementation)
     def __repr__(self):
-        return f"<class Element key={self._instruction['key']}>"
+        return f"<class Element key={self._key()}>"
 
     def to_fieldset_entry(self):
         if not hasattr(self, '_fieldset_entry'):
-- 
2.43.0


From fadc142837168b6fc0ca4c96aed10b330d1f373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:52 +0000
Subject: [PATCH 33/33] fix: a missing list has no length()

---
 python/enolib/elements/missing/missing_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/enolib/elements/missing/missing_list.py b/python/enolib/elements/missing/missing_list.py
index a23d433..8ac261e 100644
--- a/python/enolib/elements/missing/missing_list.py
+++ b/python/enolib/elements/missing/missing_list.py
@@ -10,6 +10,9 @@ class MissingList(MissingElementBase):
     def items(self):
         return []
 
+    def length(self):
+        return 0
+
     def optional_string_values(self):
         return []
 
-- 
2.43.0

