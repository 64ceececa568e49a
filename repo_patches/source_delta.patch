From ab196703d9782bef49aff2fe7098951c8f2aa8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 01/16] fix: JSON unescape no longer fails on an unpaired
 surrogate escape followed by a cut escape

---
 openformats/utils/json.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index f8b8a50..ed6b973 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -398,7 +398,11 @@ def _unescape_generator(string):
             # Surrogates: https://unicode.org/faq/utf_bom.html#utf16-2
             if 0xd800 <= ord(unescaped) <= 0xdfff:
                 unicode_escaped = string[ptr:ptr+12]
-                escaped = json.loads('"' + unicode_escaped + '"')
+                try:
+                    escaped = json.loads('"' + unicode_escaped + '"')
+                except ValueError:
+                    # Unpaired surrogate; the slice cut through what follows
+                    escaped = u''
                 if len(escaped) == 1:
                     yield escaped
                     ptr += 12
-- 
2.43.0


From b512d69b8878d8d32029e7addf3ded95d7c379fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 02/16] fix: DumbJson accepts every JSON number (1.5e3, 1E5,
 1e+5)

---
 openformats/utils/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index ed6b973..5beef25 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -242,7 +242,7 @@ class DumbJson(object):
             r'{_float}|{integer}'.format(
                 dict_list_string=r'[{\["]',
                 true_false_null=r'true|false|null',
-                e_notation=r'-?\d+e-?\d+',
+                e_notation=r'-?\d+(?:\.\d+)?[eE][+-]?\d+',
                 _float=r'-?\d+\.\d+',
                 integer=r'-?\d+',
             )
-- 
2.43.0


From 06602b0465ca1cec13797eb1331f8538ef1a3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 03/16] fix: Chrome JSON with a top-level message or a list
 root no longer raises TypeError

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index abf7321..64c6156 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1413,7 +1413,7 @@ class ChromeI18nHandler(JsonHandler):
         key_split = key.split(".")
         try:
             return self.json_dict[key_split[0]]["description"]
-        except KeyError:
+        except (KeyError, TypeError):
             return ""
 
     def _copy_until_and_remove_section(self, pos):
-- 
2.43.0


From 07020d326a74d35b8400005d01a2e6ccef24dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 04/16] fix: SRT compile with an empty stringset removes every
 subtitle instead of raising StopIteration

---
 openformats/formats/srt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/srt.py b/openformats/formats/srt.py
index bd1f371..9e65a2b 100644
--- a/openformats/formats/srt.py
+++ b/openformats/formats/srt.py
@@ -146,7 +146,7 @@ class SrtHandler(Handler):
         transcriber = Transcriber(template)
         template = transcriber.source
         stringset = iter(stringset)
-        string = next(stringset)
+        string = next(stringset, None)
 
         for start, subtitle_section in self.\
                 _generate_split_subtitles(template):
@@ -158,7 +158,7 @@ class SrtHandler(Handler):
             second_newline = subtitle_section.index('\n', first_newline + 1)
             hash_position = second_newline + 1
 
-            if (subtitle_section[
+            if (string is not None and subtitle_section[
                     hash_position:
                     hash_position + len(string.template_replacement)
                     ] == string.template_replacement):
-- 
2.43.0


From b28a2e943db4c43cac30eebb91074056b8574cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 05/16] fix: find_newline_type detects DOS newlines in bytes

---
 openformats/utils/newlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/newlines.py b/openformats/utils/newlines.py
index 71aec58..e3156be 100644
--- a/openformats/utils/newlines.py
+++ b/openformats/utils/newlines.py
@@ -17,7 +17,8 @@ def find_newline_type(content):
         return 'UNIX'
     else:
         if (first_newline_pos > 0 and
-                content[first_newline_pos - 1] == CARRIAGE_RETURN):
+                content[first_newline_pos - 1:first_newline_pos] ==
+                CARRIAGE_RETURN):
             return 'DOS'
         else:
             return 'UNIX'
-- 
2.43.0


From 49e2fa2d80121680ff14fbc95367f435ad144cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 06/16] fix: ICU plural without any plural forms is a
 ParseError, not an IndexError

---
 openformats/utils/icu.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index fe089cc..42fd592 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -289,6 +289,14 @@ class ICUParser(object):
             key, serialized_strings, all_matches,
         )
 
+        if len(all_matches) == 0:
+            raise ParseError(
+                'No plural forms found in pluralized entry '
+                'with key: "{key}", value: "{value}"'.format(
+                    key=key, value=value,
+                )
+            )
+
         # Make sure the plurality rules are valid
         # If not, an error will be raised
         if len(valid_matches) != len(all_matches):
-- 
2.43.0


From 28313e124ed5ff45d191b7c51ebb3ee0b0ff5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 07/16] fix: ICU plural rules are compared with what was found,
 so that "another {..}" is refused

---
 openformats/utils/icu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 42fd592..2b55084 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -299,7 +299,7 @@ class ICUParser(object):
 
         # Make sure the plurality rules are valid
         # If not, an error will be raised
-        if len(valid_matches) != len(all_matches):
+        if valid_matches.asList() != all_matches.asList():
             self._handle_invalid_plural_format(
                 serialized_strings, any_plural_item, key, value
             )
-- 
2.43.0


From fdd74fc4c77fe5653acbef2240f278dd60dad207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 08/16] fix: an ICU plural form that repeats inside another
 form is no leftover

---
 openformats/utils/icu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index 2b55084..e5add0c 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -355,7 +355,7 @@ class ICUParser(object):
         # Replace all matches with spaces in the given string.
         remaining_str = serialized_strings
         for match in all_matches:
-            remaining_str = remaining_str.replace(match[0], '')
+            remaining_str = remaining_str.replace(match[0], '', 1)
 
         # Then make sure all whitespace is removed as well
         # Special characters may be present with double backslashes,
-- 
2.43.0


From 0328998e5ed39105c50bb41a07778878d6bae2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 09/16] fix: truncated XML is a DumbXmlSyntaxError, not an
 IndexError

---
 openformats/utils/xml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 9f1ca87..1967c72 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -557,6 +557,11 @@ class NewDumbXml(object):
 
         start = self.text_position + len(self.text)
         while True:
+            if start + 1 >= len(self.source):
+                raise DumbXmlSyntaxError(
+                    u"Tag '{}' not closed on line {}".
+                    format(self.tag, self._find_line_number())
+                )
             if self.source[start + 1] == self.FORWARD_SLASH:
                 # We found the closing tag
                 self._content_end = start
-- 
2.43.0


From 123277fb21dac5819795807aa1073ce35a8a528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 10/16] fix: Android compile keeps strings that are only white
 space, as parse does

---
 openformats/formats/android.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 1b45dd2..864c8c7 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -436,7 +436,7 @@ class AndroidHandler(Handler):
             self.transcriber.copy_until(child.end)
             self.transcriber.mark_section_end()
             self.next_string = self._get_next_string()
-        elif not child.text:
+        elif not (child.content and child.content.strip()):
             # In the case of a string-array we don't want to skip an
             # empty array element that was initially empty.
             pass
-- 
2.43.0


From 56f21d9de9c56b10983db776dc7d54d0c419a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 11/16] fix: an Android string and two plurals of one name no
 longer share a placeholder

---
 openformats/formats/android.py | 48 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 864c8c7..2b8bf48 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -250,32 +250,32 @@ class AndroidHandler(Handler):
                 'child_tag': 'item'
             }
         ):
-            if (name, product) in self.existing_hashes:
-                if child.tag in self.existing_hashes[(name, product)]:
-                    format_dict = {
-                        'name': name,
-                        'child_tag': child.tag
-                    }
-                    if product:
-                        msg = (
-                            u"Duplicate `tag_name` ({child_tag}) for `name`"
-                            u" ({name}) and `product` ({product}) "
-                            u"found on line {line_number}"
-                        )
-                        format_dict['product'] = product
-                    else:
-                        msg = (
-                            u"Duplicate `tag_name` ({child_tag}) for `name`"
-                            u" ({name}) specify a product to differentiate"
-                        )
-                    XMLUtils.raise_error(
-                        self.transcriber,
-                        child,
-                        msg,
-                        context=format_dict
+            if (name, product) in self.existing_hashes and \
+                    child.tag not in self.existing_hashes[(name, product)]:
+                product += child.tag
+            if child.tag in self.existing_hashes.get((name, product), []):
+                format_dict = {
+                    'name': name,
+                    'child_tag': child.tag
+                }
+                if product:
+                    msg = (
+                        u"Duplicate `tag_name` ({child_tag}) for `name`"
+                        u" ({name}) and `product` ({product}) "
+                        u"found on line {line_number}"
                     )
+                    format_dict['product'] = product
                 else:
-                    product += child.tag
+                    msg = (
+                        u"Duplicate `tag_name` ({child_tag}) for `name`"
+                        u" ({name}) specify a product to differentiate"
+                    )
+                XMLUtils.raise_error(
+                    self.transcriber,
+                    child,
+                    msg,
+                    context=format_dict
+                )
             # Create OpenString
             string = OpenString(
                 name,
-- 
2.43.0


From 386376548531b4feb1eedb54ca2e16d05db8201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 12/16] fix: customizable XML finds the root tag in the source
 it parses, also with DOS newlines

---
 openformats/formats/customizable_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index a00cb77..d41129d 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -130,7 +130,7 @@ class CustomizableXMLHandler(Handler):
         source = transcriber.source
 
         # Everything starts at the root tag
-        root_tag_pos = self._get_root_node_pos(content)
+        root_tag_pos = self._get_root_node_pos(source)
         parsed = NewDumbXml(source, root_tag_pos)
         stringset = []
 
-- 
2.43.0


From 3df8445156512e9222f17c820747c338d17483dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 13/16] fix: XML formats detect the newline type of the whole
 template when they compile

---
 openformats/formats/android.py          | 10 ++++------
 openformats/formats/customizable_xml.py | 11 ++++-------
 openformats/formats/stringsdict.py      | 10 ++++------
 3 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 2b8bf48..60ec4c0 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -362,12 +362,11 @@ class AndroidHandler(Handler):
 
     def compile(self, template, stringset, is_source=True, language_info=None,
                 **kwargs):
-        resources_tag_position = template.index(self.PARSE_START)
-
-        self.transcriber = Transcriber(template[resources_tag_position:])
+        self.transcriber = Transcriber(template)
         source = self.transcriber.source
+        resources_tag_position = source.index(self.PARSE_START)
 
-        parsed = DumbXml(source)
+        parsed = DumbXml(source, resources_tag_position)
 
         # Check against 'tools:locale' attribute
         if language_info is not None and 'tools:locale' in parsed.attrib:
@@ -398,8 +397,7 @@ class AndroidHandler(Handler):
             self._compile_child(child)
 
         self.transcriber.copy_until(len(source))
-        compiled = (template[:resources_tag_position] +
-                    self.transcriber.get_destination())
+        compiled = self.transcriber.get_destination()
 
         return compiled
 
diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index d41129d..aac527a 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -191,12 +191,11 @@ class CustomizableXMLHandler(Handler):
         :rtype: str
         :raise ParseError: if the root node is not found in `template`
         """
-        root_tag_pos = self._get_root_node_pos(template)
-
-        self.transcriber = Transcriber(template[root_tag_pos:])
+        self.transcriber = Transcriber(template)
         source = self.transcriber.source
+        root_tag_pos = self._get_root_node_pos(source)
 
-        parsed = NewDumbXml(source)
+        parsed = NewDumbXml(source, root_tag_pos)
         string_iterator = parsed.find_descendants(self.string_name)
 
         self.stringset = iter(stringset)
@@ -206,9 +205,7 @@ class CustomizableXMLHandler(Handler):
             self._compile_string(string_tag)
 
         self.transcriber.copy_to_end()
-        compiled = (
-            template[:root_tag_pos] + self.transcriber.get_destination()
-        )
+        compiled = self.transcriber.get_destination()
 
         return compiled
 
diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 26f6565..327b581 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -381,12 +381,11 @@ class StringsDictHandler(Handler):
     """ Compile Methods """
 
     def compile(self, template, stringset, **kwargs):
-        dict_tag_position = template.index(self.PARSE_START)
-
-        self.transcriber = Transcriber(template[dict_tag_position:])
+        self.transcriber = Transcriber(template)
         source = self.transcriber.source
+        dict_tag_position = source.index(self.PARSE_START)
 
-        parsed = NewDumbXml(source)
+        parsed = NewDumbXml(source, dict_tag_position)
         dict_iterator = parsed.find_children(self.DICT)
 
         self.stringset = iter(stringset)
@@ -395,8 +394,7 @@ class StringsDictHandler(Handler):
             self._compile_dict(dict_tag)
 
         self.transcriber.copy_until(len(source))
-        compiled = template[:dict_tag_position] +\
-            self.transcriber.get_destination()
+        compiled = self.transcriber.get_destination()
 
         return compiled
 
-- 
2.43.0


From 818790fae6a7c903a1460a03ceaac7fa8363f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 14/16] fix: a leading at-sign of an unescaped Android string
 is escaped once

---
 openformats/formats/android_unescaped.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 76c77ce..de41c6e 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -167,12 +167,12 @@ class AndroidUnescapedHandler(AndroidHandler):
                 # escape all special characters. One case of these errors is the
                 # presence of '<' symbols without corresponding closing tags, causing
                 # parsing errors.
-                string = AndroidHandler.escape(string)
+                string = AndroidUnescapedHandler._escape_quotes(string)
                 string = AndroidUnescapedHandler.escape_special_characters(string)
                 string = string.replace("<", "&lt;")
                 return string
 
-            string = AndroidHandler.escape(string)
+            string = AndroidUnescapedHandler._escape_quotes(string)
             string = AndroidUnescapedHandler.escape_special_characters(string)
             return AndroidUnescapedHandler._unprotect_inline_tags(
                 string, protected_tags
@@ -182,6 +182,16 @@ class AndroidUnescapedHandler(AndroidHandler):
             string, _escape, is_escape=True
         )
 
+    @staticmethod
+    def _escape_quotes(string):
+        """Escape like AndroidHandler does, except for a leading at-sign:
+        `escape_special_characters` escapes all of them.
+        """
+        escaped = AndroidHandler.escape(string)
+        if string.startswith("@") and escaped.startswith("\\@"):
+            escaped = escaped[1:]
+        return escaped
+
     @staticmethod
     def unescape(string):
 
-- 
2.43.0


From e11a32683d97772cfa1992adce802b38a1738b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 15/16] fix: an Android string whose context is already taken
 gets a context of its own

---
 openformats/formats/android.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 60ec4c0..3ca3602 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -250,7 +250,7 @@ class AndroidHandler(Handler):
                 'child_tag': 'item'
             }
         ):
-            if (name, product) in self.existing_hashes and \
+            while (name, product) in self.existing_hashes and \
                     child.tag not in self.existing_hashes[(name, product)]:
                 product += child.tag
             if child.tag in self.existing_hashes.get((name, product), []):
-- 
2.43.0


From bfe8e83e0dbcf9765959c50105d299f7f154f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:15 +0000
Subject: [PATCH 16/16] fix: XML files without their root tag are refused with
 a ParseError

---
 openformats/formats/android.py     | 6 ++++--
 openformats/formats/stringsdict.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 3ca3602..d5f7e8a 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -7,7 +7,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class AndroidHandler(Handler):
 
         source = self.transcriber.source
         # Skip XML info declaration
-        resources_tag_position = source.index(self.PARSE_START)
+        resources_tag_position = source.find(self.PARSE_START)
+        if resources_tag_position == -1:
+            raise ParseError(u"No <resources> tag found")
 
         parsed = DumbXml(source, resources_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 327b581..b930691 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -8,7 +8,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class StringsDictHandler(Handler):
         self.order_counter = itertools.count()
         source = self.transcriber.source
         # Skip xml info declaration
-        dict_tag_position = source.index(self.PARSE_START)
+        dict_tag_position = source.find(self.PARSE_START)
+        if dict_tag_position == -1:
+            raise ParseError(u"No <dict> tag found")
 
         parsed = NewDumbXml(source, dict_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
-- 
2.43.0

