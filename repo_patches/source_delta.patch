From dde1dfd1e695112c48ffffac18a99191bf0e7298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 01/85] fix: read every JSON number when tokenizing

Numbers with an upper case or signed exponent, or with both a fraction and
an exponent, and the NaN/Infinity literals the validation accepts, made the
JSON parsers fail with a ValueError.
---
 openformats/utils/json.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index f8b8a50..1fd15ef 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -238,13 +238,13 @@ class DumbJson(object):
         """
 
         # Lets construct a regular expression to find the first non-empty char
-        value_pat = r'{dict_list_string}|{true_false_null}|{e_notation}|'\
-            r'{_float}|{integer}'.format(
+        value_pat = r'{dict_list_string}|{true_false_null}|{not_finite}|'\
+            r'{number}'.format(
                 dict_list_string=r'[{\["]',
                 true_false_null=r'true|false|null',
-                e_notation=r'-?\d+e-?\d+',
-                _float=r'-?\d+\.\d+',
-                integer=r'-?\d+',
+                # Not in the JSON standard, but accepted by `json.loads`
+                not_finite=r'NaN|-?Infinity',
+                number=r'-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?',
             )
         first_non_empty = r'^(?P<spaces>\s*)(?P<value>{})'.format(value_pat)
         match = re.search(first_non_empty, self.source[start:])
-- 
2.43.0


From 2ca49d796df82708e755cf4389b9964bb3c97c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 02/85] fix: escape every control character in JSON strings

A control character without a short escape sequence was left as is, which
is not valid inside a JSON string.
---
 openformats/utils/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/utils/json.py b/openformats/utils/json.py
index 1fd15ef..169901d 100644
--- a/openformats/utils/json.py
+++ b/openformats/utils/json.py
@@ -329,6 +329,9 @@ def _escape_generator(string):
         elif symbol == DumbJson.TAB:
             yield DumbJson.BACKSLASH
             yield u't'
+        elif symbol < u' ':
+            # The rest of the control characters can't appear unescaped
+            yield u'\\u{:04x}'.format(ord(symbol))
         else:
             yield symbol
 
-- 
2.43.0


From a65ada0c6887cf65c45564cde41146b0e43ff304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 03/85] fix: keep the bracket before a container removed from a
 JSON list

When all the strings of a list or object inside a list were missing, the
character before it was removed too, breaking the document.
---
 openformats/formats/json.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index abf7321..3d3a0b2 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -478,7 +478,11 @@ class JsonHandler(Handler):
         at_least_one = not bool(list(parsed))
 
         for value, value_position in parsed:
-            self.transcriber.copy_until(value_position - 1)
+            if isinstance(value, DumbJson):
+                # The position of a container is that of its opening bracket
+                self.transcriber.copy_until(value_position)
+            else:
+                self.transcriber.copy_until(value_position - 1)
             self.transcriber.mark_section_start()
 
             tmp_at_least_one = self._insert_item(
-- 
2.43.0


From 56dafc25baa244843654e932a2b400e9031f0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 04/85] fix: leave string contents alone when cleaning up
 removed JSON entries

Keys and other literals that contain sequences like ',,' or '{,' lost
characters when any entry was removed from the template.
---
 openformats/formats/json.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 3d3a0b2..84ab4f1 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -547,6 +547,10 @@ class JsonHandler(Handler):
             '{, "a": "b", "c": "d"}' -> '{"a": "b", "c": "d"}'
             '["a", , "b"]' -> '["a", "b"]'
         """
+        # Set the string literals aside, only the structure must be cleaned
+        literals = re.findall(r'"(?:[^"\\]|\\.)*"', compiled)
+        compiled = re.sub(r'"(?:[^"\\]|\\.)*"', '""', compiled)
+
         while True:
             # First key-value of a dict was removed
             match = re.search(r"{\s*,", compiled)
@@ -591,7 +595,8 @@ class JsonHandler(Handler):
             # No substitutions happened, break
             break
 
-        return compiled
+        literals = iter(literals)
+        return re.sub(r'""', lambda _: next(literals), compiled)
 
     def _get_next_string(self):
         try:
-- 
2.43.0


From f3fb57045968c249be825c6ebcf79a4626e4d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 05/85] fix: do not escape the key of a string added to a JSON
 list twice

The key is already escaped as in the source file, so serialising it again
stored a different key.
---
 openformats/formats/json.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 84ab4f1..51a0c47 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -384,10 +384,7 @@ class JsonHandler(Handler):
         return f'"{self._unescape_key(os.key)}": "{os.template_replacement}"'
 
     def _make_added_entry_for_list(self, os):
-        return json.dumps(
-            {self._unescape_key(os.key): os.template_replacement},
-            ensure_ascii=False,
-        )
+        return f'{{"{self._unescape_key(os.key)}": "{os.template_replacement}"}}'
 
     def _insert(self, parsed, is_real_stringset):
         if parsed.type == dict:
-- 
2.43.0


From 10848fa8ef401b2fcbb7a6177cc1257a2a5f11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 06/85] fix: reject ICU plurals with no rules or with rules
 that only end in a valid name

A plural value without any rule failed with an IndexError and a rule like
'another' was silently read as 'other'.
---
 openformats/utils/icu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/utils/icu.py b/openformats/utils/icu.py
index fe089cc..7912a44 100644
--- a/openformats/utils/icu.py
+++ b/openformats/utils/icu.py
@@ -289,9 +289,11 @@ class ICUParser(object):
             key, serialized_strings, all_matches,
         )
 
-        # Make sure the plurality rules are valid
+        # Make sure there are plurality rules and that they are all valid
         # If not, an error will be raised
-        if len(valid_matches) != len(all_matches):
+        if (len(all_matches) == 0 or
+                [match[0] for match in valid_matches] !=
+                [match[0] for match in all_matches]):
             self._handle_invalid_plural_format(
                 serialized_strings, any_plural_item, key, value
             )
-- 
2.43.0


From cbe8f70b4ccb684e8a2b20848ad6984bc64d1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 07/85] fix: write structured JSON metadata at the right
 positions

---
 openformats/formats/json.py | 58 +++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 51a0c47..d32913f 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -821,22 +821,30 @@ class StructuredJsonHandler(JsonHandler):
         self.transcriber.copy_to_end()
         return self.transcriber.get_destination()
 
-    def _compile_value(self, value, template_value, value_position, skip=False):
-        value = template_value if skip else value
-
-        if value is not None:
-            if value == "" and template_value is None:
-                self.transcriber.add("null")
-            else:
-                if template_value is None:
-                    self.transcriber.add(f'"{value}"')
-                else:
-                    self.transcriber.add(f"{value}")
-        else:
-            self.transcriber.add("null")
-
-        self.transcriber.skip(len(f"{template_value}"))
-        self.transcriber.copy_until(value_position + len(f"{template_value}") + 1)
+    def _compile_value(self, value, template_value, value_position):
+        end = self._get_value_end(template_value, value_position)
+        is_text = isinstance(template_value, six.text_type)
+
+        if value is None or (value == "" and template_value is None):
+            value = "null"
+        elif template_value is None and isinstance(value, six.text_type):
+            value = f'"{value}"'
+
+        self.transcriber.add(f"{value}")
+        # Leave the closing quote of a string to be copied
+        self.transcriber.skip_until(end - 1 if is_text else end)
+        self.transcriber.copy_until(end)
+
+    def _get_value_end(self, value, value_position):
+        """Find the position right after a value of the template."""
+        if isinstance(value, DumbJson):
+            return value.end + 1
+        if isinstance(value, six.text_type):
+            return value_position + len(value) + 1
+        # Numbers, booleans and nulls aren't always written as python does
+        return re.compile(r"[^\s,\]}]*").match(
+            self.transcriber.source, value_position
+        ).end()
 
     def _compile_recursively(self, current_part):
         if isinstance(current_part, DumbJson):
@@ -853,11 +861,10 @@ class StructuredJsonHandler(JsonHandler):
                 else:
                     (value, _) = current_part.find_children(self.STRING_KEY)[0]
                     if not value.strip():
-                        translation = OpenString("", value)
-                        skip = True
+                        # Nothing was extracted, leave the entry as it is
+                        translation = None
                     else:
                         translation = next(self.translations, None)
-                        skip = False
 
                     context_added = False
                     character_limit_added = False
@@ -871,14 +878,16 @@ class StructuredJsonHandler(JsonHandler):
                             prev_position_end + 1 : key_position - 1
                         ]
                         key_value_separator = current_part.source[
-                            key_position + len(key) : value_position - 1
+                            key_position
+                            + len(key) : value_position
+                            - (1 if isinstance(value, six.text_type) else 0)
                         ]
                         self.transcriber.copy_until(key_position - 1)
                         self.transcriber.copy_until(value_position)
                         if key == self.CONTEXT_KEY and translation:
                             context = translation.context
                             self._compile_value(
-                                self.escape(context), value, value_position, skip=skip
+                                self.escape(context), value, value_position
                             )
                             context_added = True
                         elif key == self.DEVELOPER_COMMENT_KEY and translation:
@@ -887,13 +896,12 @@ class StructuredJsonHandler(JsonHandler):
                                 self.escape(developer_comment),
                                 value,
                                 value_position,
-                                skip=skip,
                             )
                             developer_comments_added = True
                         elif key == self.CHARACTER_LIMIT_KEY and translation:
                             character_limit = translation.character_limit
                             self._compile_value(
-                                character_limit, value, value_position, skip=skip
+                                character_limit, value, value_position
                             )
                             character_limit_added = True
                         elif key == self.STRING_KEY and translation:
@@ -910,9 +918,9 @@ class StructuredJsonHandler(JsonHandler):
                             self._compile_value(
                                 string_replacement, value, value_position
                             )
-                        elif not isinstance(value, DumbJson):
+                        else:
                             self.transcriber.copy_until(
-                                value_position + len(f"{value}") + 1
+                                self._get_value_end(value, value_position)
                             )
 
                     extra_elements = []
-- 
2.43.0


From 91148ebcd18c4e07e7d9d8a416f69a3e298acd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 08/85] fix: fill only the entries the structured JSON parser
 extracts

---
 openformats/formats/json.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index d32913f..66dda4a 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -846,18 +846,21 @@ class StructuredJsonHandler(JsonHandler):
             self.transcriber.source, value_position
         ).end()
 
-    def _compile_recursively(self, current_part):
+    def _compile_recursively(self, current_part, is_entry=False):
+        # Follow what the parser does: only the values of dictionaries are
+        # entries and lists that are values of dictionaries are skipped
         if isinstance(current_part, DumbJson):
             if current_part.type == list:
                 for value, value_position in current_part:
                     self._compile_recursively(value)
             if current_part.type == dict:
                 (value, _) = current_part.find_children(self.STRING_KEY)[0]
-                if not value:
+                if not is_entry or not value:
                     for key, key_position, value, value_position in current_part:
                         self.transcriber.copy_until(key_position - 1)
                         self.transcriber.copy_until(value_position)
-                        self._compile_recursively(value)
+                        if isinstance(value, DumbJson) and value.type == dict:
+                            self._compile_recursively(value, is_entry=True)
                 else:
                     (value, _) = current_part.find_children(self.STRING_KEY)[0]
                     if not value.strip():
-- 
2.43.0


From 1548ffc97d4857c9ef95e2837c111c5d3a73bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 09/85] fix: raise a parse error for structured JSON metadata
 of the wrong type

---
 openformats/formats/json.py | 47 +++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 66dda4a..7f7ea4a 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -138,7 +138,8 @@ class JsonHandler(Handler):
                 else:
                     key = f"{nest}..{index}.."
                 if isinstance(item, (six.binary_type, six.text_type)):
-                    if not item.strip():
+                    # Items of lists can't be structured strings
+                    if not item.strip() or self.name == "STRUCTURED_JSON":
                         continue
 
                     openstring = self._create_openstring(key, item, item_position)
@@ -987,6 +988,36 @@ class StructuredJsonHandler(JsonHandler):
 
         return self._create_regular_string(key, payload_dict)
 
+    def _get_metadata(self, payload_dict):
+        """Return the developer comment, the character limit and the context
+        of an entry, making sure that they can be used as such.
+
+        :param DumbJson payload_dict: the string and metadata
+        :raise ParseError: if the type of any of these is wrong
+        """
+        payload = json.loads(
+            payload_dict.source[payload_dict.start : payload_dict.end + 1]
+        )
+        comment_value = payload.get(self.DEVELOPER_COMMENT_KEY)
+        limit_value = payload.get(self.CHARACTER_LIMIT_KEY)
+        context_value = payload.get(self.CONTEXT_KEY)
+
+        for field, value, types in (
+            (self.DEVELOPER_COMMENT_KEY, comment_value, six.string_types),
+            (self.CHARACTER_LIMIT_KEY, limit_value, six.integer_types),
+            (self.CONTEXT_KEY, context_value, six.string_types),
+        ):
+            if value is None:
+                continue
+            if not isinstance(value, types) or isinstance(value, bool):
+                # Need this for line number
+                self.transcriber.copy_until(payload_dict.start)
+                raise ParseError(
+                    "Invalid {} in line {}".format(field, self.transcriber.line_number)
+                )
+
+        return comment_value, limit_value, context_value
+
     def _create_pluralized_string(self, icu_string, payload_dict):
         """Create a pluralized string based on the given information.
 
@@ -999,12 +1030,7 @@ class StructuredJsonHandler(JsonHandler):
         :rtype: OpenString
         """
         ((_, string_position),) = payload_dict.find_children(self.STRING_KEY)
-        payload_dict = json.loads(
-            payload_dict.source[payload_dict.start : payload_dict.end + 1]
-        )
-        comment_value = payload_dict.get(self.DEVELOPER_COMMENT_KEY)
-        limit_value = payload_dict.get(self.CHARACTER_LIMIT_KEY)
-        context_value = payload_dict.get(self.CONTEXT_KEY)
+        comment_value, limit_value, context_value = self._get_metadata(payload_dict)
 
         openstring = OpenString(
             icu_string.key,
@@ -1035,12 +1061,7 @@ class StructuredJsonHandler(JsonHandler):
         :return: an OpenString or None
         """
         ((string_value, string_position),) = payload_dict.find_children(self.STRING_KEY)
-        payload_dict = json.loads(
-            payload_dict.source[payload_dict.start : payload_dict.end + 1]
-        )
-        comment_value = payload_dict.get(self.DEVELOPER_COMMENT_KEY)
-        limit_value = payload_dict.get(self.CHARACTER_LIMIT_KEY)
-        context_value = payload_dict.get(self.CONTEXT_KEY)
+        comment_value, limit_value, context_value = self._get_metadata(payload_dict)
 
         openstring = OpenString(
             key,
-- 
2.43.0


From eee6ae4edde846f2087b421910e940bbf02eec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 10/85] fix: do not fail on Chrome messages outside of an entry

---
 openformats/formats/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 7f7ea4a..f928657 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1451,7 +1451,7 @@ class ChromeI18nHandler(JsonHandler):
         key_split = key.split(".")
         try:
             return self.json_dict[key_split[0]]["description"]
-        except KeyError:
+        except (KeyError, TypeError):
             return ""
 
     def _copy_until_and_remove_section(self, pos):
-- 
2.43.0


From f1cded811de90f13c7300919f2033fbb68853620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 11/85] fix: rewrite only the file's own locale and find
 strings with a context in ARB templates

---
 openformats/formats/json.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index f928657..a6f9f92 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -270,6 +270,7 @@ class JsonHandler(Handler):
             OpenString(
                 openstring.key,
                 openstring.template_replacement,
+                context=openstring.context,
                 order=openstring.order,  # type: ignore
                 pluralized=openstring.pluralized,
             )
@@ -739,12 +740,13 @@ class ArbHandler(JsonHandler):
         stringset = list(stringset)
 
         if language_info is not None:
-            match = re.search(r"(\"@@locale\"\s*:\s*\")([A-Z_a-z]*)\"", template)
-            if match:
+            # Only the locale of the file itself, not ones of nested objects
+            ((locale, position),) = DumbJson(template).find_children("@@locale")
+            if isinstance(locale, six.text_type):
                 template = "{}{}{}".format(
-                    template[: match.start(2)],
+                    template[:position],
                     language_info["code"],
-                    template[match.end(2) :],
+                    template[position + len(locale) :],
                 )
 
         return self._replace_translations(template, stringset, True)
-- 
2.43.0


From 8aeff25c294c645877e49de588240c591452ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 12/85] fix: ignore lists and metadata that is not text in ARB
 files

---
 openformats/formats/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index a6f9f92..7c1a98e 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -664,12 +664,12 @@ class ArbHandler(JsonHandler):
             elif key.startswith("@"):
                 if key.endswith(".type") and value != "text":
                     self.existing_keys.add(key)
-                elif key.endswith(".context"):
-                    self.metadata[key] = value
-                elif key.endswith(".description"):
+                elif key.endswith((".context", ".description")) and isinstance(
+                    value, six.text_type
+                ):
                     self.metadata[key] = value
 
-            if isinstance(value, DumbJson):
+            if isinstance(value, DumbJson) and value.type == dict:
                 self._find_keys(value, key)
             else:
                 pass
-- 
2.43.0


From 4e479ec5aa37a691c6eafe18cceb0ea7029665de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 13/85] fix: keep ARB entries that are not strings when
 removing sections

---
 openformats/formats/json.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 7c1a98e..59ef48f 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -759,6 +759,14 @@ class ArbHandler(JsonHandler):
         template = self.remove_strings_from_template(template, stringset, **kwargs)
         return template
 
+    def _insert_item(self, value, value_position, is_real_stringset):
+        if isinstance(value, six.text_type) and not re.search(
+            r"[0-9a-f]{32}_(?:tr|pl)", value
+        ):
+            # Not one of our strings (the locale, a type etc), leave it there
+            return True
+        return super()._insert_item(value, value_position, is_real_stringset)
+
     def _copy_until_and_remove_section(self, pos):
         """
         Copy characters to the transcriber until the given position,
-- 
2.43.0


From 891131eab5af2a6bc52c219d27c9f2ce801a75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 14/85] fix: treat plural Chrome messages like the rest

---
 openformats/formats/json.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 59ef48f..55293dc 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -1451,6 +1451,16 @@ class ChromeI18nHandler(JsonHandler):
 
         return openstring
 
+    def _create_pluralized_string(self, icu_string, value_position):
+        # Same rules as regular strings
+        if not icu_string.key.endswith(self.STRING_KEY):
+            return None
+        return super()._create_pluralized_string(
+            icu_string,
+            value_position,
+            description_value=self._get_description(icu_string.key),
+        )
+
     def _get_description(self, key):
         """Return the 'description' child for a given key
 
-- 
2.43.0


From 816363af46417e4a7154e3b9b433eb01ac9e8101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 15/85] fix: compile SRT templates without any strings

---
 openformats/formats/srt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/srt.py b/openformats/formats/srt.py
index bd1f371..9e65a2b 100644
--- a/openformats/formats/srt.py
+++ b/openformats/formats/srt.py
@@ -146,7 +146,7 @@ class SrtHandler(Handler):
         transcriber = Transcriber(template)
         template = transcriber.source
         stringset = iter(stringset)
-        string = next(stringset)
+        string = next(stringset, None)
 
         for start, subtitle_section in self.\
                 _generate_split_subtitles(template):
@@ -158,7 +158,7 @@ class SrtHandler(Handler):
             second_newline = subtitle_section.index('\n', first_newline + 1)
             hash_position = second_newline + 1
 
-            if (subtitle_section[
+            if (string is not None and subtitle_section[
                     hash_position:
                     hash_position + len(string.template_replacement)
                     ] == string.template_replacement):
-- 
2.43.0


From 2970953945216e4b863dbeeb81be5942d89442f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 16/85] fix: report the line of the timings of VTT cues without
 an identifier

---
 openformats/formats/vtt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/vtt.py b/openformats/formats/vtt.py
index 05c2799..b5d0ddf 100644
--- a/openformats/formats/vtt.py
+++ b/openformats/formats/vtt.py
@@ -85,20 +85,20 @@ class VttHandler(Handler):
                 timings_parse_error = True
         if timings_parse_error:
             raise ParseError(
-                f"Timings on line {self.transcriber.line_number + 1} "
+                f"Timings on line {self.transcriber.line_number + timings_index} "
                 "don't follow '[start] --> [end] (position)' pattern"
             )
         try:
             start = self._format_timing(start)
         except ValueError:
             raise ParseError(
-                f"Problem with start of timing at line {self.transcriber.line_number + 1}: '{start}'"
+                f"Problem with start of timing at line {self.transcriber.line_number + timings_index}: '{start}'"
             )
         try:
             end = self._format_timing(end)
         except ValueError:
             raise ParseError(
-                f"Problem with end of timing at line {self.transcriber.line_number + 1}: '{end}'"
+                f"Problem with end of timing at line {self.transcriber.line_number + timings_index}: '{end}'"
             )
 
         # Content
-- 
2.43.0


From 1346fd85e9ad25cbd157c6a372b4659acbb264c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 17/85] fix: find the separator of PO keys whose msgid ends in
 a backslash

---
 openformats/formats/po.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 82f51c1..e848c36 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -360,8 +360,13 @@ class PoHandler(Handler):
         """
         # find first *unescaped* colon
         separation_index = None
+        escaped = False
         for i, ch in enumerate(key):
-            if ch == ":" and (i == 0 or key[i - 1] != "\\"):
+            if escaped:
+                escaped = False
+            elif ch == "\\":
+                escaped = True
+            elif ch == ":":
                 separation_index = i
                 break
 
-- 
2.43.0


From ba638cbb0e21733b48a7c9aa51663cf1aaeb25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 18/85] fix: compile PO entries whose msgid_plural is only
 spaces

---
 openformats/formats/po.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index e848c36..773f8e9 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -274,7 +274,7 @@ class PoHandler(Handler):
 
         for i, entry in enumerate(po):
             if next_string is not None:
-                is_plural = True if entry.msgid_plural.strip() else False
+                is_plural = bool(entry.msgid_plural)
                 if is_plural:
                     compiled = self._compile_plural_entry(entry, next_string)
                 else:
@@ -308,7 +308,7 @@ class PoHandler(Handler):
 
         for i, entry in enumerate(po):
             if next_string is not None:
-                is_plural = True if entry.msgid_plural.strip() else False
+                is_plural = bool(entry.msgid_plural)
                 if (
                     (is_plural and entry.msgstr_plural.get("0") == next_string.template_replacement)
                     or entry.msgstr == next_string.template_replacement
-- 
2.43.0


From 43593960e28dfd784adf83827d56f727f2abeee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 19/85] fix: reject PO plural forms that are not numbered

---
 openformats/formats/po.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 773f8e9..6cff787 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -88,9 +88,17 @@ class PoHandler(Handler):
             string_data.update(self._get_metadata(entry))
 
             if pluralized:
-                msgstrs = {
-                    int(key): value for key, value in entry.msgstr_plural.items()
-                }
+                try:
+                    msgstrs = {
+                        int(key): value for key, value in entry.msgstr_plural.items()
+                    }
+                except ValueError:
+                    raise ParseError(
+                        (
+                            "Invalid plural form number found on the entry with msgid "
+                            "'{}' and msgid_plural '{}'"
+                        ).format(entry.msgid, entry.msgid_plural)
+                    )
             else:
                 msgstrs = {5: entry.msgstr}
 
-- 
2.43.0


From 3f1ba12f4f840230511b6aed12c3b8daa3a6f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 20/85] fix: reject XML that ends inside of an element

---
 openformats/utils/xml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 9f1ca87..1967c72 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -557,6 +557,11 @@ class NewDumbXml(object):
 
         start = self.text_position + len(self.text)
         while True:
+            if start + 1 >= len(self.source):
+                raise DumbXmlSyntaxError(
+                    u"Tag '{}' not closed on line {}".
+                    format(self.tag, self._find_line_number())
+                )
             if self.source[start + 1] == self.FORWARD_SLASH:
                 # We found the closing tag
                 self._content_end = start
-- 
2.43.0


From 748e2512b6a547b5104bccaf210f26e1d6bec355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 21/85] fix: leave whitespace before the equals sign out of XML
 attribute names

---
 openformats/utils/xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 1967c72..7ba00b6 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -462,7 +462,10 @@ class NewDumbXml(object):
                     # <a b="c" ... >
                     #        ^
                     status = None
-                    self._attributes.append((key_position, u''.join(key),
+                    # <a b = "c" ... >
+                    #     ^ not part of the key
+                    self._attributes.append((key_position,
+                                             u''.join(key).rstrip(),
                                              value_position, u''.join(value)))
                 else:
                     # <a b="cde" ... >
-- 
2.43.0


From 3280d616d3dc1b1bae1152ed9c8ff83ea46f820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 22/85] fix: raise a parse error for Android files without
 resources

---
 openformats/formats/android.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 1b45dd2..c0b2355 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -7,7 +7,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class AndroidHandler(Handler):
 
         source = self.transcriber.source
         # Skip XML info declaration
-        resources_tag_position = source.index(self.PARSE_START)
+        resources_tag_position = source.find(self.PARSE_START)
+        if resources_tag_position == -1:
+            raise ParseError(u"No <resources> tag found")
 
         parsed = DumbXml(source, resources_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
-- 
2.43.0


From d7e4b52a47fe2f71e592adf44411c149a1ebd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 23/85] fix: compile Android files whose resources tag is
 self-closing

---
 openformats/formats/android.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index c0b2355..401d37a 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -384,8 +384,9 @@ class AndroidHandler(Handler):
 
         # This is needed in case the first tag is skipped to retain
         # the file's formating
-        first_tag_position = parsed.text_position + len(parsed.text)
-        self.transcriber.copy_until(first_tag_position)
+        if parsed.text is not None:
+            first_tag_position = parsed.text_position + len(parsed.text)
+            self.transcriber.copy_until(first_tag_position)
 
         children_iterator = parsed.find_children(
             self.STRING,
-- 
2.43.0


From 295b79070f4e4152921893498763381342ca107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 24/85] fix: keep elements before an Android string that is
 removed

---
 openformats/formats/android.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/openformats/formats/android.py b/openformats/formats/android.py
index 401d37a..7c39d17 100644
--- a/openformats/formats/android.py
+++ b/openformats/formats/android.py
@@ -388,17 +388,15 @@ class AndroidHandler(Handler):
             first_tag_position = parsed.text_position + len(parsed.text)
             self.transcriber.copy_until(first_tag_position)
 
-        children_iterator = parsed.find_children(
-            self.STRING,
-            self.STRING_ARRAY,
-            self.STRING_PLURAL
-        )
-
         self.is_source = is_source
         self.stringset = iter(stringset)
         self.next_string = self._get_next_string()
-        for child in children_iterator:
-            self._compile_child(child)
+        for child in parsed.find_children():
+            if child.tag in (self.STRING, self.STRING_ARRAY,
+                             self.STRING_PLURAL):
+                self._compile_child(child)
+            elif child.tag != DumbXml.COMMENT:
+                self.transcriber.copy_until(child.end)
 
         self.transcriber.copy_until(len(source))
         compiled = (template[:resources_tag_position] +
@@ -439,10 +437,13 @@ class AndroidHandler(Handler):
             self.transcriber.copy_until(child.end)
             self.transcriber.mark_section_end()
             self.next_string = self._get_next_string()
-        elif not child.text:
+        elif self._is_empty(child):
             # In the case of a string-array we don't want to skip an
             # empty array element that was initially empty.
-            pass
+            self.transcriber.copy_until(child.tail_position)
+            self.transcriber.mark_section_start()
+            self.transcriber.copy_until(child.end)
+            self.transcriber.mark_section_end()
         else:
             self._skip_tag(child)
 
@@ -459,8 +460,8 @@ class AndroidHandler(Handler):
         """
         item_iterator = list(child.find_children(self.STRING_ITEM))
 
-        # If placeholder (has no children) skip
-        if len(item_iterator) == 0:
+        # If placeholder (has no children or only empty ones) skip
+        if all(self._is_empty(item_tag) for item_tag in item_iterator):
             self.transcriber.copy_until(child.end)
             return
 
@@ -495,6 +496,7 @@ class AndroidHandler(Handler):
         """
         # If placeholder (has empty children) skip
         if len(list(child.find_children(self.STRING_ITEM))):
+            self.transcriber.copy_until(child.end)
             return
 
         if self._should_compile(child):
@@ -536,6 +538,14 @@ class AndroidHandler(Handler):
             self.next_string.template_replacement == child_content
         )
 
+    @staticmethod
+    def _is_empty(tag):
+        """Checks if there is nothing to translate in a tag.
+
+        :returns: True if the tag has no content or only whitespace.
+        """
+        return not (tag.content and tag.content.strip())
+
     def _skip_tag(self, tag):
         """Skips a tag from the compilation.
 
-- 
2.43.0


From 433e57bbb0b78c5f7ed3aa505b0bfbaf37ba8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 25/85] fix: accept self-closing tags in unescaped Android
 files

---
 openformats/formats/android_unescaped.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index 76c77ce..fd0a03c 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -20,7 +20,8 @@ class AndroidUnescapedHandler(AndroidHandler):
         :returns: Returns an OpenString object if the text is not empty
                     else None.
         """
-        AndroidUnescapedHandler._check_unescaped_characters(text)
+        if text is not None:
+            AndroidUnescapedHandler._check_unescaped_characters(text)
         return super()._create_string(name, text, comment, product, child, pluralized)
 
     @staticmethod
@@ -62,7 +63,7 @@ class AndroidUnescapedHandler(AndroidHandler):
 
     @staticmethod
     def _check_unescaped_characters_in_plural_string(text):
-        for _, string in text.items():
+        for string in filter(None, text.values()):
             AndroidUnescapedHandler._check_unescaped_characters_in_simple_string(string)
 
     @staticmethod
-- 
2.43.0


From de13cd9ec376faaf83cce954904755840dceb271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 26/85] fix: escape leading at-signs once in unescaped Android
 files

---
 openformats/formats/android_unescaped.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index fd0a03c..b19c871 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -3,6 +3,7 @@ from hashlib import md5
 from openformats.exceptions import ParseError
 from openformats.formats.android import AndroidHandler
 from ..utils.xml import NewDumbXml as DumbXml
+from ..utils.xml import escape as xml_escape
 
 
 class AndroidUnescapedHandler(AndroidHandler):
@@ -168,12 +169,12 @@ class AndroidUnescapedHandler(AndroidHandler):
                 # escape all special characters. One case of these errors is the
                 # presence of '<' symbols without corresponding closing tags, causing
                 # parsing errors.
-                string = AndroidHandler.escape(string)
+                string = AndroidUnescapedHandler._escape_quotes(string)
                 string = AndroidUnescapedHandler.escape_special_characters(string)
                 string = string.replace("<", "&lt;")
                 return string
 
-            string = AndroidHandler.escape(string)
+            string = AndroidUnescapedHandler._escape_quotes(string)
             string = AndroidUnescapedHandler.escape_special_characters(string)
             return AndroidUnescapedHandler._unprotect_inline_tags(
                 string, protected_tags
@@ -183,6 +184,23 @@ class AndroidUnescapedHandler(AndroidHandler):
             string, _escape, is_escape=True
         )
 
+    @staticmethod
+    def _escape_quotes(string):
+        """Escapes the quotes outside of INLINE_TAGS. At-signs are left to
+        `escape_special_characters`.
+        """
+
+        def _escape_text(text):
+            return text.replace(
+                DumbXml.DOUBLE_QUOTES,
+                "".join([DumbXml.BACKSLASH, DumbXml.DOUBLE_QUOTES]),
+            ).replace(
+                DumbXml.SINGLE_QUOTE,
+                "".join([DumbXml.BACKSLASH, DumbXml.SINGLE_QUOTE]),
+            )
+
+        return xml_escape(string, AndroidHandler.INLINE_TAGS, _escape_text)
+
     @staticmethod
     def unescape(string):
 
-- 
2.43.0


From fadc566b686083f79d086b460d50cd5bb680befd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 27/85] fix: escape tags that are not inline in unescaped
 Android files

---
 openformats/formats/android_unescaped.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index b19c871..e6ea644 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -176,6 +176,7 @@ class AndroidUnescapedHandler(AndroidHandler):
 
             string = AndroidUnescapedHandler._escape_quotes(string)
             string = AndroidUnescapedHandler.escape_special_characters(string)
+            string = string.replace("<", "&lt;")
             return AndroidUnescapedHandler._unprotect_inline_tags(
                 string, protected_tags
             )
-- 
2.43.0


From 485b7dbc2c8fd3144db082b69ab898091ccbe9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 28/85] fix: protect every inline tag in unescaped Android
 files

---
 openformats/formats/android_unescaped.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/android_unescaped.py b/openformats/formats/android_unescaped.py
index e6ea644..c6b55d7 100644
--- a/openformats/formats/android_unescaped.py
+++ b/openformats/formats/android_unescaped.py
@@ -75,14 +75,19 @@ class AndroidUnescapedHandler(AndroidHandler):
         parsed = DumbXml(wrapped_text)
         children_iterator = parsed.find_children()
 
+        parts = []
+        last_end = len("<x>")
         for child in children_iterator:
             if child.tag in AndroidHandler.INLINE_TAGS:
                 child_content = child.source[child.position : child.tail_position]
                 string_hash = md5(child_content.encode("utf-8")).hexdigest()
-                text = text.replace(child_content, string_hash)
+                parts.append(wrapped_text[last_end : child.position])
+                parts.append(string_hash)
+                last_end = child.tail_position
                 protected_tags[string_hash] = child_content
+        parts.append(wrapped_text[last_end : -len("</x>")])
 
-        return text, protected_tags
+        return "".join(parts), protected_tags
 
     @staticmethod
     def _unprotect_inline_tags(text, protected_tags):
-- 
2.43.0


From 64da1eae9491c05ccad73bf80cffcab130a58c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 29/85] fix: escape strings with an unopened closing tag as
 plain text

---
 openformats/utils/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openformats/utils/xml.py b/openformats/utils/xml.py
index 7ba00b6..331a26c 100644
--- a/openformats/utils/xml.py
+++ b/openformats/utils/xml.py
@@ -29,6 +29,9 @@ def escape(string, inline_tags, escape_text):
     wrapped_text = transcriber.source
     try:
         root = NewDumbXml(wrapped_text)
+        if root.tail_position != len(wrapped_text):
+            # The string closes our temporary tag
+            return escape_text(string)
         _escape_tag(root, transcriber, inline_tags, escape_text)
     except DumbXmlSyntaxError:
         # If opening-closing tags do not match within text, revert to the
-- 
2.43.0


From 598abe484991547836795622826b8985c27577e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 30/85] fix: raise a parse error for strings dictionaries
 without a dict

---
 openformats/formats/stringsdict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 26f6565..8966918 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -8,7 +8,7 @@ import six
 
 from openformats.utils.compat import ensure_unicode
 
-from ..exceptions import RuleError
+from ..exceptions import ParseError, RuleError
 from ..handlers import Handler
 from ..strings import OpenString
 from ..transcribers import Transcriber
@@ -63,7 +63,9 @@ class StringsDictHandler(Handler):
         self.order_counter = itertools.count()
         source = self.transcriber.source
         # Skip xml info declaration
-        dict_tag_position = source.index(self.PARSE_START)
+        dict_tag_position = source.find(self.PARSE_START)
+        if dict_tag_position == -1:
+            raise ParseError(u"No <dict> tag found")
 
         parsed = NewDumbXml(source, dict_tag_position)
         XMLUtils.validate_no_text_characters(self.transcriber, parsed)
-- 
2.43.0


From 0d04b1dfa9311b80589761faa87d9bf73b39a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 31/85] fix: read self-closing tags in strings dictionaries as
 empty

---
 openformats/formats/stringsdict.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 8966918..2c58d0f 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -148,7 +148,7 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content)
+                                   value_tag.content or u"")
                 if matches is not None:
                     # The prefix and the suffix are relative to the FIRST
                     # variable
@@ -230,17 +230,17 @@ class StringsDictHandler(Handler):
             if extras is not None and extras["variable"] == secondary_key:
                 content = u"{prefix}{content}{suffix}".format(
                     prefix=extras["prefix"],
-                    content=value_tag.content,
+                    content=value_tag.content or u"",
                     suffix=extras["suffix"],
                 )
             else:
-                content = value_tag.content
+                content = value_tag.content or u""
             strings_dict[rule_number] = content
 
             # If empty <string> tag keep it. It is either a placeholder which
             # should be kept or it is missing plurals and we will raise a
             # ParseError on self._create_string.
-            if value_tag.content and value_tag.content.strip() != "":
+            if content.strip() != "":
                 self.transcriber.skip_until(value_tag.end)
             else:
                 self.transcriber.copy_until(value_tag.tail_position)
@@ -343,7 +343,7 @@ class StringsDictHandler(Handler):
                 context={'tag': key_tag.tag}
             )
 
-        key_content = key_tag.content
+        key_content = key_tag.content or u""
         if main_key:
             if key_content in self.main_keys:
                 message = (
-- 
2.43.0


From a372ff40037101d8c3a8ab5500773eda5300fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 32/85] fix: inline the format of strings dictionaries in the
 right place

---
 openformats/formats/stringsdict.py | 31 ++++++++++++------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index 2c58d0f..f6eec24 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -148,8 +148,11 @@ class StringsDictHandler(Handler):
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-                                   value_tag.content or u"")
-                if matches is not None:
+                                   value_tag.content or u"", re.DOTALL)
+                if matches is not None and any(
+                        tag.content == matches.group("variable") and
+                        tag.position > value_tag.position
+                        for tag in dict_tag.find_children(self.KEY)):
                     # The prefix and the suffix are relative to the FIRST
                     # variable
                     text_extras = {
@@ -157,6 +160,12 @@ class StringsDictHandler(Handler):
                         "prefix": matches.group("prefix"),
                         "suffix": matches.group("suffix"),
                     }
+                    # Only leave the variable in the format, see [1]
+                    self.transcriber.copy_until(value_tag.text_position)
+                    self.transcriber.add(
+                        u"%#@{}@".format(text_extras["variable"])
+                    )
+                    self.transcriber.skip_until(value_tag.content_end)
                 # If the key is the one of the stringsdict defaults skip it
                 continue
 
@@ -185,23 +194,7 @@ class StringsDictHandler(Handler):
         """
         dict_iterator = self._handle_dict(dict_tag)
 
-        # If inline-replacement [1] is required, the first step is to remove
-        # the prefix and the suffix from the original string.
-        if extras is not None:
-            # This isolates the part of the source file between the main key
-            # and the plural rules, so we only replace the value of the
-            # NSStringLocalizedFormatKey value
-            text = self.transcriber.source[
-                self.transcriber.ptr:dict_tag.position
-            ]
-            text = text.replace(u'<string>{}'.format(extras['prefix']),
-                                u'<string>', 1)
-            text = text.replace(u'{}</string>'.format(extras['suffix']),
-                                u'</string>', 1)
-            self.transcriber.add(text)
-            self.transcriber.skip_until(dict_tag.position)
-        else:
-            self.transcriber.copy_until(dict_tag.position)
+        self.transcriber.copy_until(dict_tag.position)
 
         # Save the line in which the plural rule starts to associate it with
         # the openstring object. This is used later for generating helpful
-- 
2.43.0


From b41f592bc98b9694d4dd60e19f9916b4020866ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 33/85] fix: reject duplicate variables in strings dictionaries

---
 openformats/formats/stringsdict.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/openformats/formats/stringsdict.py b/openformats/formats/stringsdict.py
index f6eec24..6a2337d 100644
--- a/openformats/formats/stringsdict.py
+++ b/openformats/formats/stringsdict.py
@@ -138,6 +138,7 @@ class StringsDictHandler(Handler):
         dict_iterator = self._handle_dict(dict_tag)
 
         string_list = []
+        secondary_keys = set()
         # A helper variable to save the prefix and suffix needed for the
         # inline-replacement [1].
         text_extras = None
@@ -145,6 +146,17 @@ class StringsDictHandler(Handler):
         for key_child in dict_iterator:
             # The second key contains the secondary key.
             secondary_key = self._handle_key(key_child)
+            if secondary_key in secondary_keys:
+                message = (
+                    u"Duplicate key ({key}) found on line {line_number}"
+                )
+                XMLUtils.raise_error(
+                    self.transcriber,
+                    key_child,
+                    message,
+                    context={'key': secondary_key}
+                )
+            secondary_keys.add(secondary_key)
             value_tag = self._get_key_value(dict_iterator, key_child)
             if secondary_key == self.KEY_FORMAT:
                 matches = re.match(ensure_unicode(self.VALUE_CONTENT_RE),
-- 
2.43.0


From 96ed5561c65cdead15bb6b2286898b125f0ede5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 34/85] fix: find the root of customizable XML files with DOS
 line endings

---
 openformats/formats/customizable_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index a00cb77..d41129d 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -130,7 +130,7 @@ class CustomizableXMLHandler(Handler):
         source = transcriber.source
 
         # Everything starts at the root tag
-        root_tag_pos = self._get_root_node_pos(content)
+        root_tag_pos = self._get_root_node_pos(source)
         parsed = NewDumbXml(source, root_tag_pos)
         stringset = []
 
-- 
2.43.0


From 912e29caa22b23fa93beda4864a167f6bbc14b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 35/85] fix: raise a parse error for customizable XML sections
 without a name

---
 openformats/formats/customizable_xml.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index d41129d..c7bfbdd 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -136,6 +136,7 @@ class CustomizableXMLHandler(Handler):
 
         # Translatable content is organized under <section> tags
         for section_tag in parsed.find_children(self.section_name):
+            context = section_tag.attrib.get(self.section_id_name)
 
             # Find all <string> children tags
             for string_tag in section_tag.find_children(self.string_name):
@@ -151,11 +152,18 @@ class CustomizableXMLHandler(Handler):
                     if not tag.content:
                         continue
 
+                    if context is None:
+                        raise ParseError(
+                            'Missing "{key}" attribute in <{section}> node'.
+                            format(key=self.section_id_name,
+                                   section=self.section_name)
+                        )
+
                     key = self._get_key(string_tag, tag)
                     string = OpenString(
                         key,
                         tag.content,
-                        context=section_tag.attrib[self.section_id_name],
+                        context=context,
                         order=next(order_counter),
                     )
                     stringset.append(string)
-- 
2.43.0


From 896645ae396c2870bdc98a686d42f832331aa17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 36/85] fix: compile self-closing tags of customizable XML
 files

---
 openformats/formats/customizable_xml.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index c7bfbdd..48762a2 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -234,6 +234,10 @@ class CustomizableXMLHandler(Handler):
               <variant context="b">Yet another string</variant>
             </string>
         """
+        # Nothing to compile in "<string key="..." ... />"
+        if string_tag.text_position is None:
+            return
+
         # Copy until "<string key="..." ...>"
         self.transcriber.copy_until(string_tag.text_position)
 
@@ -241,6 +245,10 @@ class CustomizableXMLHandler(Handler):
             self.base_string_name, self.variant_string_name,
         )
         for translatable_str_node in base_and_variants:
+            # Nothing to compile in "<base/>" or "<variant/>"
+            if translatable_str_node.text_position is None:
+                continue
+
             # Copy until "<base>" or "<variant>"
             self.transcriber.copy_until(translatable_str_node.text_position)
 
-- 
2.43.0


From 11015778f8ff94995a49dc1b6642f76e07908438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 37/85] fix: keep strings outside of customizable XML sections
 untranslated

---
 openformats/formats/customizable_xml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/customizable_xml.py b/openformats/formats/customizable_xml.py
index 48762a2..a2d7a4a 100644
--- a/openformats/formats/customizable_xml.py
+++ b/openformats/formats/customizable_xml.py
@@ -205,13 +205,14 @@ class CustomizableXMLHandler(Handler):
         source = self.transcriber.source
 
         parsed = NewDumbXml(source)
-        string_iterator = parsed.find_descendants(self.string_name)
 
         self.stringset = iter(stringset)
         self.next_string = self._get_next_string()
 
-        for string_tag in string_iterator:
-            self._compile_string(string_tag)
+        # Only strings directly inside of sections are translatable
+        for section_tag in parsed.find_children(self.section_name):
+            for string_tag in section_tag.find_children(self.string_name):
+                self._compile_string(string_tag)
 
         self.transcriber.copy_to_end()
         compiled = (
-- 
2.43.0


From 3f40843454dd42299f6ed45dc6e03b244b5dfbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 38/85] fix: quote YAML strings that would be loaded as other
 types

---
 openformats/formats/yaml/yaml.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 0e4c729..142f86d 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -6,8 +6,10 @@ import re
 import six
 from yaml.constructor import SafeConstructor
 from yaml.emitter import Emitter
+from yaml.resolver import Resolver
 
 from openformats.exceptions import ParseError
+from openformats.formats.yaml.constants import YAML_STRING_ID
 from openformats.formats.yaml.utils import (TxYamlDumper, TxYamlLoader,
                                             YamlGenerator, yaml)
 from openformats.handlers import Handler
@@ -366,7 +368,8 @@ class YamlHandler(Handler):
             else:
                 emitter.write_double_quoted(string.string)
         elif style == '':
-            if analysis.allow_block_plain and analysis.allow_flow_plain:
+            if (analysis.allow_block_plain and analysis.allow_flow_plain and
+                    self._is_plain_string(string)):
                 emitter.write_plain(string.string)
             else:
                 emitter.write_double_quoted(string.string)
@@ -381,6 +384,18 @@ class YamlHandler(Handler):
         emitter.stream.close()
         return translation
 
+    def _is_plain_string(self, string):
+        """ Check that a string can be written without quotes
+
+        Strings like `yes`, `5` or `null` need quotes, otherwise they will be
+        loaded as something other than a string. Tagged values are loaded
+        according to their tag.
+        """
+        if string.context:
+            return True
+        tag = Resolver().resolve(yaml.ScalarNode, string.string, (True, False))
+        return tag == YAML_STRING_ID
+
     def _compile_from_template(self, template, stringset, **kwargs):
         """ Compiles translation file from template
 
-- 
2.43.0


From 40479391ed770ca7d0b04125db516efcc7192253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 39/85] fix: put YAML strings with special characters between
 double quotes

---
 openformats/formats/yaml/yaml.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 142f86d..09193ad 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -6,6 +6,7 @@ import re
 import six
 from yaml.constructor import SafeConstructor
 from yaml.emitter import Emitter
+from yaml.reader import Reader
 from yaml.resolver import Resolver
 
 from openformats.exceptions import ParseError
@@ -45,6 +46,12 @@ class YamlHandler(Handler):
 
     language_code = None
 
+    # Characters that are either not allowed in YAML or treated as line breaks.
+    # They can only be written between double quotes.
+    ESCAPED_CHARACTERS = re.compile(
+        u'[\r\x85\u2028\u2029]|' + Reader.NON_PRINTABLE.pattern
+    )
+
     def parse(self, content, **kwargs):
         """ Parses the given YAML content to create stringset and template
 
@@ -359,11 +366,15 @@ class YamlHandler(Handler):
         analysis = emitter.analyze_scalar(string.string)
 
         style = string.flags.split(':')[-1]
+        is_block = style in ('|', '>')
+        if is_block and self.ESCAPED_CHARACTERS.search(string.string):
+            style = '"'
 
         if style == '"':
             emitter.write_double_quoted(string.string)
         elif style == '\'':
-            if analysis.allow_single_quoted:
+            if (analysis.allow_single_quoted and
+                    not self.ESCAPED_CHARACTERS.search(string.string)):
                 emitter.write_single_quoted(string.string)
             else:
                 emitter.write_double_quoted(string.string)
@@ -379,7 +390,8 @@ class YamlHandler(Handler):
             emitter.write_folded(string.string)
 
         translation = emitter.stream.getvalue() or string.string
-        if translation.startswith(">-") and not translation.endswith("\n"):
+        if is_block and not translation.endswith("\n"):
+            # The line break after a block is a part of it
             translation += "\n"
         emitter.stream.close()
         return translation
-- 
2.43.0


From c5fda3082462b1adb395385f8f81b961c64723e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 40/85] fix: indent YAML blocks more than the mapping or list
 they belong to

---
 openformats/formats/yaml/yaml.py | 42 +++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 09193ad..b517010 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -340,7 +340,23 @@ class YamlHandler(Handler):
         """
         return yaml_data
 
-    def _write_styled_literal(self, string):
+    def _get_parent_column(self, line):
+        """ Find the column of the mapping or list a value belongs to
+
+        Args:
+            line: A string, the part of the value's line that precedes it
+
+        Returns:
+            The column or None if the value is on a line of its own.
+        """
+        match = re.match(u'((?:[ \t]*[-?:](?=[ \t]))*)[ \t]*', line)
+        rest = line[match.end():]
+        if re.match(r'([!&]\S*\s+)*$', rest):
+            # There is no key, find the position of the last indicator
+            return len(match.group(1)) - 1 if match.group(1) else None
+        return match.end()
+
+    def _write_styled_literal(self, string, line=None):
         """ Produce a properly formatted YAML string
 
         Properly format translation string based on string's style
@@ -348,6 +364,8 @@ class YamlHandler(Handler):
 
         Args:
             string: An OpenString instance
+            line: A string, the part of the line the translation will be
+                written to that precedes it
 
         Returns:
             The formatted string.
@@ -358,6 +376,16 @@ class YamlHandler(Handler):
         stream = StringIO()
         emitter = Emitter(stream, allow_unicode=True)
         indent = self.indent * (len(string.key.split('.')) + self.extra_indent)
+        column = None
+        if line is not None:
+            column = self._get_parent_column(line)
+            if column is None:
+                indent = max(indent, len(line))
+            elif not column < indent <= column + 9:
+                indent = column + min(max(self.indent, 1), 9)
+        if column is not None:
+            # Used when the indentation has to be written explicitly
+            emitter.best_indent = indent - column
         emitter.indent = indent
         # set best_width to `float(inf)` so that long strings are not broken
         # into multiple lines
@@ -369,6 +397,10 @@ class YamlHandler(Handler):
         is_block = style in ('|', '>')
         if is_block and self.ESCAPED_CHARACTERS.search(string.string):
             style = '"'
+        if (is_block and line is not None and column is None and
+                string.string[:1] in (' ', '\n')):
+            # The indentation of the block can not be written explicitly
+            style = '"'
 
         if style == '"':
             emitter.write_double_quoted(string.string)
@@ -420,12 +452,16 @@ class YamlHandler(Handler):
         transcriber = Transcriber(template)
         template = transcriber.source
 
+        translation = u""
         for string in stringset:
+            hash_position = template.index(string.template_replacement)
+            # Find what precedes the translation on its line
+            line = translation + template[transcriber.ptr:hash_position]
+            line = line[line.rfind(u"\n") + 1:]
             if string.pluralized:
                 translation = self._compile_pluralized(string)
             else:
-                translation = self._write_styled_literal(string)
-            hash_position = template.index(string.template_replacement)
+                translation = self._write_styled_literal(string, line)
             transcriber.copy_until(hash_position)
             # The context contains custom tags. If it exists, we must prepend
             # it and apply a space afterwards so it doesn't get merged with the
-- 
2.43.0


From 858223c4816c9f719fad67a1bee58aa24945d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 41/85] fix: find YAML values after anchors and tags in any
 order

---
 openformats/formats/yaml/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 22826dc..e8e200d 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -126,13 +126,12 @@ class TxYamlLoader(yaml.SafeLoader):
                 # 'key: &anchor' should be interpreted as 'key:', ie the value
                 # should be ignored
                 return node
-            anchor_value = self.stream[
-                node.start_mark.index:node.end_mark.index
-            ].split(' ', 1)[1]
-            leading_spaces = len(anchor_value) - len(anchor_value.lstrip(' '))
-
-            node.start_mark.index = node.end_mark.index - len(anchor_value) \
-                + leading_spaces
+            # A tag that precedes the anchor is left out along with it
+            match = re.match(
+                ensure_unicode(r'(?:![^\s]*\s+)?&[^\s]+\s*'),
+                self.stream[node.start_mark.index:node.end_mark.index]
+            )
+            node.start_mark.index += match.end()
             return node
 
     def _is_custom_tag(self, tag):
@@ -226,6 +225,8 @@ class TxYamlLoader(yaml.SafeLoader):
             if (
                 hasattr(value_node, 'tag')
                 and self._is_custom_tag(value_node.tag)
+                # The tag may have been left out because of an anchor
+                and self.stream[start:start + 1] == '!'
             ):
                 tag = six.text_type(value_node.tag)
                 # remove the exclamation mark from the tag
-- 
2.43.0


From daecccbe096866b9c03754bd7635dcf33b7889eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 42/85] fix: keep the custom tags of YAML list items

---
 openformats/formats/yaml/utils.py | 33 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index e8e200d..4a73dd5 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -157,6 +157,23 @@ class TxYamlLoader(yaml.SafeLoader):
                         tag,
                         re.IGNORECASE)
 
+    def _get_custom_tag(self, node):
+        """
+        Return the custom tag of a node without its exclamation mark or `None`
+        if there isn't one.
+        """
+        start = node.start_mark.index
+        if (
+            hasattr(node, 'tag')
+            and self._is_custom_tag(node.tag)
+            # The tag may have been left out because of an anchor
+            and self.stream[start:start + 1] == '!'
+        ):
+            tag = six.text_type(node.tag)
+            # remove the exclamation mark from the tag
+            return tag[1:] if tag.startswith('!') else tag
+        return None
+
     def construct_mapping(self, node, deep=True):
         """
         Override `yaml.SafeLoader.construct_mapping` to return for each item
@@ -220,18 +237,7 @@ class TxYamlLoader(yaml.SafeLoader):
                   isinstance(value, six.text_type)):
                 style = value_node.style
 
-            # Setup the node's tag
-            tag = None
-            if (
-                hasattr(value_node, 'tag')
-                and self._is_custom_tag(value_node.tag)
-                # The tag may have been left out because of an anchor
-                and self.stream[start:start + 1] == '!'
-            ):
-                tag = six.text_type(value_node.tag)
-                # remove the exclamation mark from the tag
-                tag = tag[1:] if tag.startswith('!') else tag
-
+            tag = self._get_custom_tag(value_node)
             value = Node(value, start, end, style, tag)
             pairs.append((key, value))
 
@@ -291,7 +297,8 @@ class TxYamlLoader(yaml.SafeLoader):
                 values.append(Node(value, start, end, style, None))
             else:
                 style = value_node.style
-                values.append(Node(value, start, end, style, None))
+                tag = self._get_custom_tag(value_node)
+                values.append(Node(value, start, end, style, tag))
         return values
 
     def _calculate_block_end_pos(self, start, end):
-- 
2.43.0


From 1f7f81f2fbf8fdea3b2b2ae5fc55e904d8641a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 43/85] fix: compile YAML lists that lack some of their items

---
 openformats/formats/yaml/utils.py             | 15 +++++++--------
 .../formats/yaml/yaml_representee_classes.py  | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 4a73dd5..a5a72c6 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -485,18 +485,17 @@ class YamlGenerator(object):
                         yaml_dict[key] = self._create_dict_node(styles[i])
                     yaml_dict = yaml_dict[key]
             else:
-                if index < len(yaml_dict):
-                    yaml_dict = yaml_dict[index]
-                else:
+                if index not in yaml_dict.positions:
                     if next_is_list:
-                        yaml_dict.append(self._create_list_node(styles[i]))
+                        node = self._create_list_node(styles[i])
                     else:
-                        yaml_dict.append(self._create_dict_node(styles[i]))
-                    yaml_dict = yaml_dict[index]
+                        node = self._create_dict_node(styles[i])
+                    yaml_dict.add(index, node)
+                yaml_dict = yaml_dict[yaml_dict.positions[index]]
             if is_last:
                 if next_is_list:
-                    yaml_dict.append(self._get_styled_string(entry,
-                                                             styles[-1]))
+                    yaml_dict.add(next_key,
+                                  self._get_styled_string(entry, styles[-1]))
                 else:
                     yaml_dict[next_key] = self._get_styled_string(entry,
                                                                   styles[-1])
diff --git a/openformats/formats/yaml/yaml_representee_classes.py b/openformats/formats/yaml/yaml_representee_classes.py
index 6375064..daa77f2 100644
--- a/openformats/formats/yaml/yaml_representee_classes.py
+++ b/openformats/formats/yaml/yaml_representee_classes.py
@@ -38,11 +38,26 @@ class single_quoted_unicode(plain_unicode):  # noqa: N801
     pass
 
 
-class BlockList(list):
+class IndexedList(list):
+    """ A list that may lack some of the items of the source list
+
+    The positions of the items are kept by their index in the source list.
+    """
+
+    def __init__(self, *args):
+        super(IndexedList, self).__init__(*args)
+        self.positions = {i: i for i in range(len(self))}
+
+    def add(self, index, item):
+        self.positions[index] = len(self)
+        self.append(item)
+
+
+class BlockList(IndexedList):
     pass
 
 
-class FlowList(list):
+class FlowList(IndexedList):
     pass
 
 
-- 
2.43.0


From fb608bb46a59f8bd5c0204921b6af3149195a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 44/85] fix: compile YAML files that are lists without a
 template

---
 openformats/formats/yaml/utils.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index a5a72c6..d910f36 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -348,9 +348,17 @@ class YamlGenerator(object):
             stringset: The OpenString stringset of the resource
 
         Returns:
-            An YAML serializable OrderedDict instance.
+            An YAML serializable OrderedDict or list instance.
         """
-        yaml_dict = OrderedDict()
+        stringset = list(stringset)
+        if stringset and all(
+            self._parse_list_index_key(se.key.split('.')[0])[1]
+            for se in stringset
+        ):
+            # The root of the file is a list
+            yaml_dict = self._create_list_node('block')
+        else:
+            yaml_dict = OrderedDict()
         for se in stringset:
             keys = se.key.split('.')
             flags = se.flags.split(':')
@@ -460,8 +468,11 @@ class YamlGenerator(object):
         entry = translation_string
         if len(keys) == 1:
             key = self._parse_int_key(keys[0])
-            yaml_dict[key] = self._get_styled_string(entry, styles[-1],
-                                                     tag=tag)
+            entry = self._get_styled_string(entry, styles[-1], tag=tag)
+            if isinstance(yaml_dict, list):
+                yaml_dict.add(self._parse_list_index_key(key)[0], entry)
+            else:
+                yaml_dict[key] = entry
             return
 
         for i, key in enumerate(keys[:-1]):
-- 
2.43.0


From 6847c4fed4ee93adc298d9b0453b0ce03e19df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 45/85] fix: reject YAML files with keys that look the same

---
 openformats/formats/yaml/yaml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index b517010..fdb00f2 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -95,6 +95,7 @@ class YamlHandler(Handler):
 
         end = 0
         order = 0
+        found = set()
         for node in self._parsed_data:
             start = node.get('start')
             end_ = node.get('end')
@@ -106,6 +107,10 @@ class YamlHandler(Handler):
                 continue
             if isinstance(value, dict) and not all(six.itervalues(value)):
                 continue
+            # Different YAML keys may look the same, e.g. `1` and `'<1>'`
+            if (key, tag) in found:
+                raise ParseError("Duplicate keys found ({})".format(key))
+            found.add((key, tag))
             string_object = OpenString(
                 key, value, context=tag or '', flags=style, order=order,
             )
-- 
2.43.0


From 20e6f092bbdf319fb78871e65956d9874ad3a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 46/85] fix: read ordered mappings in YAML files

---
 openformats/formats/yaml/constants.py | 2 ++
 openformats/formats/yaml/utils.py     | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/constants.py b/openformats/formats/yaml/constants.py
index 4abea3f..45166dd 100644
--- a/openformats/formats/yaml/constants.py
+++ b/openformats/formats/yaml/constants.py
@@ -4,3 +4,5 @@ YAML_STRING_ID = u'tag:yaml.org,2002:str'
 YAML_LIST_ID = u'tag:yaml.org,2002:seq'
 YAML_DICT_ID = u'tag:yaml.org,2002:map'
 YAML_BINARY_ID = u'tag:yaml.org,2002:binary'
+YAML_OMAP_ID = u'tag:yaml.org,2002:omap'
+YAML_PAIRS_ID = u'tag:yaml.org,2002:pairs'
diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index d910f36..ec7403e 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -10,7 +10,8 @@ from yaml.constructor import ConstructorError
 from openformats.exceptions import ParseError
 from openformats.utils.compat import ensure_unicode
 
-from .constants import YAML_BINARY_ID, YAML_STRING_ID
+from .constants import (YAML_BINARY_ID, YAML_OMAP_ID, YAML_PAIRS_ID,
+                        YAML_STRING_ID)
 from .yaml_representee_classes import (BlockList, BlockStyleOrderedDict,
                                        FlowList, FlowStyleOrderedDict,
                                        double_quoted_unicode, folded_unicode,
@@ -324,6 +325,12 @@ class TxYamlLoader(yaml.SafeLoader):
         return end
 
 
+# Values with unknown tags are strings, ordered mappings are lists of mappings
+TxYamlLoader.add_constructor(None, TxYamlLoader.construct_yaml_str)
+for yaml_tag in (YAML_OMAP_ID, YAML_PAIRS_ID):
+    TxYamlLoader.add_constructor(yaml_tag, TxYamlLoader.construct_yaml_seq)
+
+
 class YamlGenerator(object):
     """
     Generate YAML content for a resource translation.
-- 
2.43.0


From 322236143d62dca41adc33888353cff0ac36d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 47/85] fix: accept internationalization YAML files without
 strings

---
 openformats/formats/yaml/yaml_i18n.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 876f8b8..29ce259 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -67,6 +67,10 @@ class I18nYamlHandler(YamlHandler):
         return True
 
     def _get_yaml_data_to_parse(self, yaml_data):
+        if not yaml_data:
+            return yaml_data
+        if not isinstance(yaml_data, dict):
+            raise ParseError("YAML file does not contain a root key.")
         keys = list(six.iterkeys(yaml_data))
         if len(keys) > 1:
             raise ParseError("YAML file contains more than one root keys.")
-- 
2.43.0


From 1b71c1afbce65203d5e4739f1889773f126248b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 48/85] fix: write the plurals of YAML files in the styles they
 are read in

---
 openformats/formats/yaml/utils.py     |   8 +-
 openformats/formats/yaml/yaml.py      |  90 ++++++++++++-------
 openformats/formats/yaml/yaml_i18n.py | 119 ++++++++------------------
 3 files changed, 101 insertions(+), 116 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index ec7403e..2cbf70b 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -46,7 +46,10 @@ yaml.add_representer(FlowStyleOrderedDict,
                      flow_style_ordered_dict_representer)
 
 
-Node = namedtuple("Node", ['value', 'start', 'end', 'style', 'tag'])
+Node = namedtuple("Node", ['value', 'start', 'end', 'style', 'tag',
+                           'key_start'])
+# The position of the key, only for the values of mappings
+Node.__new__.__defaults__ = (None,)
 
 
 class TxYamlLoader(yaml.SafeLoader):
@@ -239,7 +242,8 @@ class TxYamlLoader(yaml.SafeLoader):
                 style = value_node.style
 
             tag = self._get_custom_tag(value_node)
-            value = Node(value, start, end, style, tag)
+            value = Node(value, start, end, style, tag,
+                         key_node.start_mark.index)
             pairs.append((key, value))
 
         # If there are duplicate keys, throw an exception
diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index fdb00f2..76ceeab 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -378,8 +378,6 @@ class YamlHandler(Handler):
         if string.flags is None:
             return string.string
 
-        stream = StringIO()
-        emitter = Emitter(stream, allow_unicode=True)
         indent = self.indent * (len(string.key.split('.')) + self.extra_indent)
         column = None
         if line is not None:
@@ -388,61 +386,82 @@ class YamlHandler(Handler):
                 indent = max(indent, len(line))
             elif not column < indent <= column + 9:
                 indent = column + min(max(self.indent, 1), 9)
+
+        style = string.flags.split(':')[-1]
+        return self._write_scalar(string.string, style, indent, column,
+                                  tag=string.context)
+
+    def _write_scalar(self, text, style, indent, column=None, tag=None,
+                      in_flow=True):
+        """ Write a text in a YAML style
+
+        Args:
+            text: A string, the text to write
+            style: A YAML style. If the text can't be written in this style it
+                is written between double quotes.
+            indent: The indentation of the lines after the first one
+            column: The column of the mapping or list the text belongs to, if
+                it is known
+            tag: A custom tag that is going to precede the text
+            in_flow: Whether the text may be inside of a flow mapping or list
+
+        Returns:
+            The formatted string, ends in a line break if it is a block.
+        """
+        stream = StringIO()
+        emitter = Emitter(stream, allow_unicode=True)
+        emitter.indent = indent
         if column is not None:
             # Used when the indentation has to be written explicitly
             emitter.best_indent = indent - column
-        emitter.indent = indent
         # set best_width to `float(inf)` so that long strings are not broken
         # into multiple lines
         emitter.best_width = float('inf')
 
-        analysis = emitter.analyze_scalar(string.string)
+        analysis = emitter.analyze_scalar(text)
 
-        style = string.flags.split(':')[-1]
         is_block = style in ('|', '>')
-        if is_block and self.ESCAPED_CHARACTERS.search(string.string):
-            style = '"'
-        if (is_block and line is not None and column is None and
-                string.string[:1] in (' ', '\n')):
-            # The indentation of the block can not be written explicitly
+        if is_block and (
+            self.ESCAPED_CHARACTERS.search(text) or
+            # The indentation has to be written explicitly
+            (column is None and text[:1] in (' ', '\n'))
+        ):
             style = '"'
 
         if style == '"':
-            emitter.write_double_quoted(string.string)
+            emitter.write_double_quoted(text)
         elif style == '\'':
             if (analysis.allow_single_quoted and
-                    not self.ESCAPED_CHARACTERS.search(string.string)):
-                emitter.write_single_quoted(string.string)
+                    not self.ESCAPED_CHARACTERS.search(text)):
+                emitter.write_single_quoted(text)
             else:
-                emitter.write_double_quoted(string.string)
+                emitter.write_double_quoted(text)
         elif style == '':
-            if (analysis.allow_block_plain and analysis.allow_flow_plain and
-                    self._is_plain_string(string)):
-                emitter.write_plain(string.string)
+            if (analysis.allow_block_plain and
+                    (analysis.allow_flow_plain or not in_flow) and
+                    (tag or self._is_plain_string(text))):
+                emitter.write_plain(text)
             else:
-                emitter.write_double_quoted(string.string)
+                emitter.write_double_quoted(text)
         elif style == '|':
-            emitter.write_literal(string.string)
+            emitter.write_literal(text)
         elif style == '>':
-            emitter.write_folded(string.string)
+            emitter.write_folded(text)
 
-        translation = emitter.stream.getvalue() or string.string
+        translation = emitter.stream.getvalue() or text
         if is_block and not translation.endswith("\n"):
             # The line break after a block is a part of it
             translation += "\n"
         emitter.stream.close()
         return translation
 
-    def _is_plain_string(self, string):
-        """ Check that a string can be written without quotes
+    def _is_plain_string(self, text):
+        """ Check that a text can be written without quotes
 
-        Strings like `yes`, `5` or `null` need quotes, otherwise they will be
-        loaded as something other than a string. Tagged values are loaded
-        according to their tag.
+        Texts like `yes`, `5` or `null` need quotes, otherwise they will be
+        loaded as something other than a string.
         """
-        if string.context:
-            return True
-        tag = Resolver().resolve(yaml.ScalarNode, string.string, (True, False))
+        tag = Resolver().resolve(yaml.ScalarNode, text, (True, False))
         return tag == YAML_STRING_ID
 
     def _compile_from_template(self, template, stringset, **kwargs):
@@ -464,7 +483,10 @@ class YamlHandler(Handler):
             line = translation + template[transcriber.ptr:hash_position]
             line = line[line.rfind(u"\n") + 1:]
             if string.pluralized:
-                translation = self._compile_pluralized(string)
+                rest_position = hash_position + len(string.template_replacement)
+                line_end = template.find(u"\n", rest_position) + 1
+                rest = template[rest_position:line_end or None]
+                translation = self._compile_pluralized(string, line, rest)
             else:
                 translation = self._write_styled_literal(string, line)
             transcriber.copy_until(hash_position)
@@ -528,8 +550,14 @@ class YamlHandler(Handler):
         indent = indent.replace('\t', ' ' * 4)
         return len(indent)
 
-    def _compile_pluralized(self, string):
+    def _compile_pluralized(self, string, line=u"", rest=u""):
         """ Prepare a pluralized string to be added to the template
+
+        Args:
+            string: An OpenString instance
+            line: A string, the part of the line the plural rules will be
+                written to that precedes them
+            rest: A string, the rest of the line
         """
         raise NotImplementedError
 
diff --git a/openformats/formats/yaml/yaml_i18n.py b/openformats/formats/yaml/yaml_i18n.py
index 29ce259..8d52bb9 100644
--- a/openformats/formats/yaml/yaml_i18n.py
+++ b/openformats/formats/yaml/yaml_i18n.py
@@ -7,7 +7,6 @@ import six
 
 from openformats.exceptions import ParseError
 from openformats.formats.yaml import YamlHandler
-from openformats.formats.yaml.utils import yaml
 
 
 class I18nYamlHandler(YamlHandler):
@@ -109,10 +108,19 @@ class I18nYamlHandler(YamlHandler):
                 pass
         return {}
 
-    def _compile_pluralized(self, string):
+    def _compile_pluralized(self, string, line=u"", rest=u""):
         # Retrieve the styles of the plural rules that are stored in the
         # string's flag
         plural_styles_json = self._get_plural_styles(string)
+        is_flow = 'flow' in string.flags
+
+        # Find the column of the plural rules
+        if is_flow:
+            column = self.indent * (len(string.key.split('.')) +
+                                    self.extra_indent)
+        else:
+            # Hash replacement in template is indented as much as its key
+            column = len(line) + self.indent
 
         plurals = []
         for rule, translation in six.iteritems(string.string):
@@ -124,75 +132,29 @@ class I18nYamlHandler(YamlHandler):
                                                    u'')
             plural_style = plural_styles_json.get(six.text_type(rule),
                                                   default_style)
-            # Dump a Python dictionary that contains a single plural rule as a
-            # single YAML rule and preserve the string's style
-            plural = yaml.safe_dump(
-                {self.get_rule_string(rule): translation},
-                default_flow_style=False,
-                default_style=plural_style,
-                allow_unicode=True,
-                width=float('inf'),
-            )
-            if isinstance(plural, six.binary_type):
-                plural = plural.decode('utf8')
-            # The safe_dump method places quotes around the keys too, which are
-            # unnecessary. Remove them using the regular expression below. By
-            # default, the safe_dump method wraps the keys in double quotes
-            key_wrap = plural_style if plural_style == "'" else '"'
-            try:
-                plural = re.sub(
-                    '^{style}(\w+){style}:'.format(style=key_wrap),
-                    '\g<1>:',
-                    plural
-                )
-            except re.error:
-                pass
-            # The safe_dump method appends a dash in the folded and literal
-            # styles. We need to remove it for consistency between the compiled
-            # file and the original one
-            if plural_style in ['|', '>']:
-                plural = plural.replace('|-', '|').replace('>-', '>')
-            plurals.append(plural)
-
-        # Calculate the indentation we need to prepend to each line of the
-        # plural rules
-        indentation_levels = len(string.key.split('.')) + self.extra_indent
-        indent = " " * indentation_levels * self.indent
-        plural_entry = self._indent_plurals(plurals, indent, flow='flow' in string.flags)
-
-        # Hash replacement in template is already indented in the template
-        # so for the first line we need to keep on one level of indentation
-        if 'flow' in string.flags:
-            return plural_entry[(len(indent)):]
-        else:
-            return plural_entry[(len(indent) - self.indent):]
-
-    def _indent_plurals(self, plurals, indentation, flow=False):
-        """Apply the correct indentation to a set of plural rules.
-        Slightly different rules for when handling plurals in regular yaml
-        syntax vs when handling in flow syntax"""
-        # First apply the indentation to the literal values that start in a new
-        # line. We need to search for newline characters followed by a number
-        # of spaces.
-        try:
-            plurals = [
-                re.sub('\n(\s+)', '\n{}\g<1>'.format(indentation), line)
-                for line in plurals
-            ]
-        except re.error:
-            pass
-        # Apply the indentation to the beginning of each plural rule
-        joined = u''.join([
-            u"{indentation}{line}".format(indentation=indentation,
-                                          line=line[:-1] + ',' + line[-1:] if flow and i != len(plurals) else line)
-            for i, line in enumerate(plurals, start=1)
-        ])
-        # strip trailing comma
-        if flow:
-            joined = joined[:-1]
-        # Remove trailing newlines since there is already one after each
-        # pluralized string on the template
-        return joined.strip('\n')
+            plurals.append(u"{}: {}".format(
+                self.get_rule_string(rule),
+                self._write_scalar(translation, plural_style, column + 2,
+                                   column, in_flow=is_flow)
+            ))
+
+        indent = u" " * column
+        if is_flow:
+            return (u",\n" + indent).join(plurals)
+
+        # Blocks already end in a line break
+        ends_in_block = plurals[-1].endswith(u"\n")
+        plurals = [plural if plural.endswith(u"\n") else plural + u"\n"
+                   for plural in plurals]
+        plural_entry = u" " * self.indent + indent.join(plurals)
+
+        # The last line break is usually a part of the template, maybe after a
+        # comment
+        if re.match(r'\r?\n', rest) or (
+            not ends_in_block and re.match(r'[ \t]+#|[ \t]*(\r?\n|$)', rest)
+        ):
+            plural_entry = plural_entry[:-1]
+        return plural_entry
 
     def _parse_pluralized_leaf_node(self, node, parent_key, style=[],
                                     pluralized=False):
@@ -242,18 +204,9 @@ class I18nYamlHandler(YamlHandler):
         """ Calculate start position of pluralized string """
 
         # This is called on flow nodes so this means that we want to return
-        # the start of the top-most element in the flow list.
-        # For eg. if we have the structure:
-        # abc: {
-        #   bcd: 'efg'.
-        #   hij: 'klm'
-        # }
-        # we want to return exactly where 'bcd' starts,
-        # so that template generation picks up both the indentation and the {.
-        # So 1) we get the top-most element: bcd.
-        # 2) We get it's start position (where 'efg' starts).
-        # 3) We move back len('bcd") + len(' ') + len(':') from it.
-        return min([entry.start - len(name) - 2 for name, entry in six.iteritems(node)])
+        # the start of the top-most key in the flow list, so that template
+        # generation picks up both the indentation and the {.
+        return min([entry.key_start for entry in six.itervalues(node)])
 
     def _parse_pluralized_value(self, node):
         """ Parses input value into an OpenString pluralized value
-- 
2.43.0


From 576d01ab040284f1115f6575eb9ddc134d911f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 49/85] fix: indent YAML plurals when the first key is followed
 by an empty line

---
 openformats/formats/yaml/yaml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 76ceeab..2239c4e 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -548,7 +548,9 @@ class YamlHandler(Handler):
         # keep only last line
         indent = indent.splitlines()[-1]
         indent = indent.replace('\t', ' ' * 4)
-        return len(indent)
+        # There is no indentation if the key is followed by an empty line and
+        # a comment or a list
+        return len(indent) or 2
 
     def _compile_pluralized(self, string, line=u"", rest=u""):
         """ Prepare a pluralized string to be added to the template
-- 
2.43.0


From 21fc1d4efc09295b7af3b3c73ddb63f12c48b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 50/85] fix: keep empty keys at the root of YAML files

---
 openformats/formats/yaml/yaml.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 2239c4e..59b6e78 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -89,7 +89,7 @@ class YamlHandler(Handler):
         yaml_data = self._get_yaml_data_to_parse(yaml_data)
         # Helper to store the processed data while parsing the file
         self._parsed_data = []
-        self._parse_yaml_data(yaml_data, '', '')
+        self._parse_yaml_data(yaml_data, None, '')
         self._parsed_data = sorted(self._parsed_data,
                                    key=lambda node: node.get('start'))
 
@@ -250,7 +250,8 @@ class YamlHandler(Handler):
         Args:
             yaml_data: The output of yaml.loads()
             parent_key: A string of keys concatenated by '.' to
-                        reach this node,
+                        reach this node, None for the root. The key of the
+                        root's item may be an empty string.
             context: A string
             parent_style: A list of YAML node styles for each parent node.
 
@@ -262,7 +263,9 @@ class YamlHandler(Handler):
 
         if isinstance(yaml_data, dict):
             for key, node in six.iteritems(yaml_data):
-                node_key = self._get_key_for_node(key, parent_key)
+                node_key = self._get_key_for_node(key, '')
+                if parent_key is not None:
+                    node_key = parent_key + '.' + node_key
                 # Copy style for each node to avoid getting affected from the
                 # previous loops
                 node_style = copy.copy(parent_style)
@@ -293,7 +296,9 @@ class YamlHandler(Handler):
             # using the position (index) of it as parent key using
             # brackets around it. I.e.: 'foo.[0].bar'.
             for i, node in enumerate(yaml_data):
-                node_key = self._get_key_for_node('[%s]' % (i), parent_key)
+                node_key = self._get_key_for_node('[%s]' % (i), '')
+                if parent_key is not None:
+                    node_key = parent_key + '.' + node_key
                 # Copy style for each node to avoid getting affected from the
                 # previous loops
                 node_style = copy.copy(parent_style)
-- 
2.43.0


From 5768d089d6de4b859a58a2b72011952b40fad830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 51/85] fix: do not fail on Markdown code at the start of a
 document

---
 openformats/formats/github_markdown.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index 0e58bfe..f9981de 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -38,7 +38,9 @@ def string_handler(token, template):
         spaces = re.findall(
             ensure_unicode(r'\n( *){}').format(re.escape(line)),
             template
-        )[0]
+        )
+        # Not found if the document starts with the code
+        spaces = spaces[0] if spaces else ''
         if spaces:
             string = ''
             for line in lines:
-- 
2.43.0


From 8e7afa616183db84bf546033d24a941ad116ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 52/85] fix: do not fail on Markdown callouts that are not
 found again

---
 openformats/formats/github_markdown_v2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index d0dc40f..0987d0d 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -128,10 +128,11 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             ):
                 # Special handling for [!NOTE] blocks
                 if bool(re.match(block_pattern, string)):
-                    start, end = self.find_fuzzy_substring(
+                    span = self.find_fuzzy_substring(
                         string, md_template, curr_pos
                     )
-                    if start is not None and end is not None:
+                    if span is not None:
+                        start, end = span
                         string_object = OpenString(
                             six.text_type(order), string, order=order
                         )
-- 
2.43.0


From 6280a95e3409d576762d5eb564723d99e7e97299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 53/85] fix: quote the texts of Markdown headers that YAML
 would read as something else

---
 openformats/formats/github_markdown_v2.py | 68 +++++++++++++++++++----
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 0987d0d..332bee1 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -4,6 +4,7 @@ import re
 
 import six
 import unicodedata
+import yaml
 from mistune import Markdown
 from yaml.reader import Reader
 
@@ -52,7 +53,6 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         for openstring in stringset:
             tr_string = openstring.string
             if self._is_yaml_string(openstring):
-                self._escape_invalid_chars(openstring)
                 tr_string = self._transform_yaml_string(openstring)
 
             hash_position = template.index(openstring.template_replacement)
@@ -276,15 +276,23 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         :rtype: str
         """
         should_wrap, quote_char = self._should_wrap_in_quotes(openstring)
+        if not should_wrap and not self._is_plain(openstring):
+            should_wrap, quote_char = True, self.DOUBLE_QUOTES
+        if (quote_char == self.SINGLE_QUOTE and
+                self._needs_escaping(openstring.string)):
+            quote_char = self.DOUBLE_QUOTES
         if should_wrap:
             string = self._wrap_in_quotes(openstring.string, quote_char)
+            if quote_char == self.DOUBLE_QUOTES and not self._is_block(openstring):
+                string = self._escape_special_chars(string)
         else:
+            self._escape_invalid_chars(openstring)
             string = openstring.string
 
         # this is to ensure that if the style is literal or folded
         # http://www.yaml.org/spec/1.2/spec.html#id2795688
         # a new line always follows the string
-        if (openstring.flags and openstring.flags[-1] in '|>'):
+        if self._is_block(openstring):
             string = openstring.flags[-1] + self.NEWLINE + string
 
         return string
@@ -300,7 +308,8 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         :raise ValueError: if `quote_char` is not one of the valid values
         """
         if quote_char == '"':
-            string = string.replace(quote_char, self.BACKSLASH + quote_char)
+            for char in (self.BACKSLASH, quote_char):
+                string = string.replace(char, self.BACKSLASH + char)
         elif quote_char == u"'":
             string = string.replace(quote_char, quote_char * 2)
         else:
@@ -313,6 +322,49 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         # wrap string with quotes
         return '{}{}{}'.format(quote_char, string, quote_char)
 
+    def _escape_special_chars(self, string):
+        """Escape what can't be as it is in double quotes.
+
+        Line breaks in quotes are read as spaces.
+        """
+        return YamlHandler.ESCAPED_CHARACTERS.sub(
+            lambda match: '\\u{:04x}'.format(ord(match.group())),
+            string.replace(self.NEWLINE, self.BACKSLASH + 'n')
+        )
+
+    @staticmethod
+    def _is_block(openstring):
+        """Check if a string is written in one of YAML's block styles."""
+        return bool(openstring.flags) and openstring.flags[-1] in '|>'
+
+    def _needs_escaping(self, string):
+        """Check if a string has characters that can't be in single quotes."""
+        return (self.NEWLINE in string or
+                YamlHandler.ESCAPED_CHARACTERS.search(string) is not None)
+
+    def _is_quoted(self, string, quote_char):
+        """Check if a string is wrapped in quotes in a way that is valid YAML."""
+        if not (string.startswith(quote_char) and string.endswith(quote_char)):
+            return False
+        try:
+            node = yaml.compose(string, Loader=yaml.SafeLoader)
+        except yaml.YAMLError:
+            return False
+        return (isinstance(node, yaml.ScalarNode) and
+                node.style == quote_char and self.NEWLINE not in string)
+
+    def _is_plain(self, openstring):
+        """Check if a string doesn't need (more) quotes to be read as it is."""
+        if self._is_block(openstring):
+            return True
+        string = openstring.string.strip(' ')
+        if (self._is_quoted(string.strip(), self.DOUBLE_QUOTES) or
+                self._is_quoted(string.strip(), self.SINGLE_QUOTE)):
+            return True
+        in_flow = 'flow' in openstring.flags.split(':')
+        return YamlHandler()._write_scalar(string, '', 0,
+                                           in_flow=in_flow) == string
+
     def _should_wrap_in_quotes(self, openstring):
         """Check if the given string should be wrapped in quotes.
 
@@ -336,18 +388,12 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         string = openstring.string.strip()
 
         # If wrapped already in double quotes, don't wrap again
-        wrapped_in_double_quotes = (
-            string.startswith(self.DOUBLE_QUOTES)
-            and string.endswith(self.DOUBLE_QUOTES)
-        )
+        wrapped_in_double_quotes = self._is_quoted(string, self.DOUBLE_QUOTES)
         if wrapped_in_double_quotes:
             return False, None
 
         # If wrapped already in single quotes, don't wrap again
-        wrapped_in_single_quotes = (
-            string.startswith(self.SINGLE_QUOTE)
-            and string.endswith(self.SINGLE_QUOTE)
-        )
+        wrapped_in_single_quotes = self._is_quoted(string, self.SINGLE_QUOTE)
         if wrapped_in_single_quotes:
             return False, None
 
-- 
2.43.0


From 077d4d24606b5772207962ebd207c6ca06aaffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:25 +0000
Subject: [PATCH 54/85] fix: keep the texts of neighbouring runs of office
 documents apart

---
 openformats/formats/office_open_xml/parser.py |  8 ++++++++
 openformats/formats/pptx.py                   | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index d1aeff0..27b974c 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -90,6 +90,7 @@ class OfficeOpenXmlHandler(object):
         text_elements_count = len(text_elements)
 
         open_hyperlink = None
+        untagged_text = False
         leading_spaces = 0
         for index, text_element in enumerate(text_elements):
             text = text_element.text
@@ -116,12 +117,19 @@ class OfficeOpenXmlHandler(object):
                 index > 0,
                 index < text_elements_count - 1,
                 not hyperlink_url or hyperlink_url == open_hyperlink
+            ]) or all([
+                untagged_text,
+                (hyperlink_url or None) == open_hyperlink
             ]):
                 # skip surrounding text with tags if:
                 #   * first element
                 #   * last element
                 #   * opening hyperlink (we will add the tx tag later)
+                # unless there is nothing to separate it from the previous text
                 text = u'<tx>{}</tx>'.format(text)
+                untagged_text = False
+            else:
+                untagged_text = True
 
             if hyperlink_url and not open_hyperlink:
                 # open an a tag
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 642715c..1f092a1 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -421,7 +421,8 @@ class PptxHandlerV2(PptxHandler):
 
         text_elements_count = len(text_elements)
 
-        open_hyperlink = None        
+        open_hyperlink = None
+        untagged_text = False
         for index, text_element in enumerate(text_elements):
             text = text_element.text            
 
@@ -439,12 +440,19 @@ class PptxHandlerV2(PptxHandler):
                 index > 0,
                 index < text_elements_count - 1,
                 not hyperlink_url or hyperlink_url == open_hyperlink
+            ]) or all([
+                untagged_text,
+                (hyperlink_url or None) == open_hyperlink
             ]):
                 # skip surrounding text with tags if:
                 #   * first element
                 #   * last element
                 #   * opening hyperlink (we will add the tx tag later)
+                # unless there is nothing to separate it from the previous text
                 text = u'<tx>{}</tx>'.format(text)
+                untagged_text = False
+            else:
+                untagged_text = True
 
             if hyperlink_url and not open_hyperlink:
                 # open an a tag
-- 
2.43.0


From 76d0d7ae2ea77053537e903ca7416d9ad75b4f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 55/85] fix: keep the whitespace of consecutive blank runs of
 office documents

---
 openformats/formats/office_open_xml/parser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index 27b974c..d6f7e5e 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -192,7 +192,7 @@ class OfficeOpenXmlHandler(object):
 
         added_hl_text_elements = defaultdict(list)
         deleted_hl_text_elements = defaultdict(list)
-        empty_text_element = None
+        empty_text_elements = []
         elements_for_removal = []
         last_element = None
 
@@ -209,8 +209,8 @@ class OfficeOpenXmlHandler(object):
             # detect text elements that contain no text
             # and remove leading whitespace from the next string
             if not text.strip():
-                leading_spaces = len(text) - len(text.strip())
-                empty_text_element = text_element
+                leading_spaces += len(text) - len(text.strip())
+                empty_text_elements.append(text_element)
                 continue
 
             last_element = text_element
@@ -232,11 +232,10 @@ class OfficeOpenXmlHandler(object):
 
                 if not translation[:leading_spaces].strip():
                     translation = translation[leading_spaces:]
-                    leading_spaces = 0
                 else:
-                    if empty_text_element:
-                        elements_for_removal.append(empty_text_element)
-                        empty_text_element = None
+                    elements_for_removal.extend(empty_text_elements)
+                leading_spaces = 0
+                empty_text_elements = []
 
                 text_element.clear()
                 text_element.insert(0, translation)
-- 
2.43.0


From 9f4c7d58ed304ea80ddb713e30290bba287cd669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 56/85] fix: ignore texts without content in the second PPTX
 handler

---
 openformats/formats/pptx.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 1f092a1..b7784ff 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -423,8 +423,12 @@ class PptxHandlerV2(PptxHandler):
 
         open_hyperlink = None
         untagged_text = False
+        has_text = False
         for index, text_element in enumerate(text_elements):
-            text = text_element.text            
+            text = text_element.text
+            # skip text elements that contain nothing
+            if not text:
+                continue
 
             try:
                 hyperlink_url = cls.get_hyperlink_url(
@@ -433,6 +437,9 @@ class PptxHandlerV2(PptxHandler):
             except MissingParentError:
                 continue
 
+            if text.strip():
+                has_text = True
+
             if all([
                 text_elements_count == 2,
                 not hyperlink_url or hyperlink_url == open_hyperlink
@@ -482,7 +489,7 @@ class PptxHandlerV2(PptxHandler):
             open_hyperlink = None
 
         paragraph_text = u''.join(paragraph_text)
-        if not paragraph_text.strip():
+        if not has_text:
             return None
 
         open_string = OpenString(
@@ -524,6 +531,10 @@ class PptxHandlerV2(PptxHandler):
             cls.set_rtl_orientation(paragraph)
 
         for _, text_element in enumerate(text_elements):
+            # skip text elements that contain nothing
+            if not text_element.text:
+                continue
+
             last_element = text_element
             try:
                 hyperlink_url = cls.get_hyperlink_url(text_element, rels_soup)
-- 
2.43.0


From 480912dd024a806a68523b78149b6fa6bdb65c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 57/85] fix: keep the runs that share a hyperlink of a DOCX
 document

---
 openformats/formats/docx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 1f8a8ba..88acd3e 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -229,13 +229,19 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-        text_element.parent.parent.unwrap()
+        run_parent = text_element.find_parent('w:r').parent
+        # another text of the same hyperlink may have removed it already
+        if run_parent.name == 'hyperlink':
+            run_parent.unwrap()
 
     @classmethod
     def remove_text_element(cls, text_element):
         if text_element.find_parent('w:r') is not None:
             run_parent = text_element.find_parent('w:r').parent
-            if run_parent.name == 'hyperlink':
+            if (
+                run_parent.name == 'hyperlink' and
+                len(run_parent.find_all(cls.TEXT_ELEMENT_TAG)) == 1
+            ):
                 return text_element.find_parent('w:hyperlink').decompose()
 
         return text_element.decompose()
-- 
2.43.0


From 8c25a9fdaab9d0ad5891870581febed995036161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:09 +0000
Subject: [PATCH 58/85] fix: change the target of one link of an office
 document only

---
 openformats/formats/docx.py                   | 22 +---------
 openformats/formats/office_open_xml/parser.py | 41 +++++++++++++++++++
 openformats/formats/pptx.py                   | 21 +---------
 3 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 88acd3e..164f7b8 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -1,7 +1,6 @@
 import io
 import itertools
 import os
-import re
 import shutil
 import tempfile
 import uuid
@@ -198,28 +197,11 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         run_parent = element.find_parent('w:r').parent
 
         if run_parent.name == 'hyperlink':
-            rel = document_rels.find(
-                attrs={"Id": run_parent.attrs.get('r:id')}
-            )
-            if rel and rel.attrs['TargetMode'] == 'External':
-                rel.attrs['Target'] = url
+            cls.set_element_url(run_parent, document_rels, url)
 
     @classmethod
     def create_hyperlink_url(cls, element, document_rels, url):
-        max_rid = max([
-            int(re.findall(r'\d+', e["Id"])[0])
-            for e in document_rels.find_all(attrs={"Id": True})
-        ])
-
-        rid = "rId{}".format(max_rid+1)
-        hyperlink_rel = document_rels.new_tag(
-            "Relationship",
-            TargetMode="External",
-            Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",  # noqa
-            Target=url,
-            Id=rid
-        )
-        document_rels.Relationships.append(hyperlink_rel)
+        rid = cls.create_hyperlink_rel(document_rels, url)
         hyperlink = document_rels.new_tag(
             "w:hyperlink",
             **{"r:id": rid}
diff --git a/openformats/formats/office_open_xml/parser.py b/openformats/formats/office_open_xml/parser.py
index d6f7e5e..ed821eb 100644
--- a/openformats/formats/office_open_xml/parser.py
+++ b/openformats/formats/office_open_xml/parser.py
@@ -1,3 +1,4 @@
+import re
 import six
 from copy import copy
 
@@ -20,6 +21,46 @@ class OfficeOpenXmlHandler(object):
     def create_hyperlink_url(cls, element, document_rels, url):
         raise NotImplementedError
 
+    @staticmethod
+    def create_hyperlink_rel(document_rels, url):
+        """ Add a relationship for an external link and return its id """
+        max_rid = max([
+            int((re.findall(r'\d+', e["Id"]) or [0])[0])
+            for e in document_rels.find_all(attrs={"Id": True})
+        ] or [0])
+
+        rid = "rId{}".format(max_rid+1)
+        hyperlink_rel = document_rels.new_tag(
+            "Relationship",
+            TargetMode="External",
+            Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",  # noqa
+            Target=url,
+            Id=rid
+        )
+        document_rels.Relationships.append(hyperlink_rel)
+        return rid
+
+    @classmethod
+    def set_element_url(cls, hyperlink, document_rels, url):
+        """ Change the target of an external link. A relationship that other
+            links of the document use too is left as it is.
+        """
+        rid = hyperlink.attrs.get('r:id')
+        rel = document_rels.find(attrs={'Id': rid})
+        if (
+            not rel or rel.attrs.get('TargetMode') != 'External' or
+            rel.attrs['Target'] == url
+        ):
+            return
+
+        document = hyperlink.find_parents()[-1]
+        if len(document.find_all(attrs={'r:id': rid})) > 1:
+            hyperlink.attrs['r:id'] = cls.create_hyperlink_rel(
+                document_rels, url
+            )
+        else:
+            rel.attrs['Target'] = url
+
     @classmethod
     def remove_hyperlink(cls, text_element):
         raise NotImplementedError
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index b7784ff..36f5276 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -291,31 +291,14 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
 
         hyperlinks = parent.find_all('a:hlinkClick', limit=1)
         if hyperlinks:
-            rel = document_rels.find(
-                attrs={'Id': hyperlinks[0].attrs.get('r:id')}
-            )
-            if rel and rel.attrs.get('TargetMode') == 'External':
-                rel.attrs['Target'] = url
+            cls.set_element_url(hyperlinks[0], document_rels, url)
 
     @classmethod
     def create_hyperlink_url(cls, element, document_rels, url):
         if cls.get_hyperlink_url(element, document_rels):
             cls.set_hyperlink_url(element, document_rels, url)
         else:
-            max_rid = max([
-                int(re.findall(r'\d+', e["Id"])[0])
-                for e in document_rels.find_all(attrs={"Id": True})
-            ])
-
-            rid = "rId{}".format(max_rid+1)
-            hyperlink_rel = document_rels.new_tag(
-                "Relationship",
-                TargetMode="External",
-                Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",  # noqa
-                Target=url,
-                Id=rid
-            )
-            document_rels.Relationships.append(hyperlink_rel)
+            rid = cls.create_hyperlink_rel(document_rels, url)
             hyperlink = document_rels.new_tag(
                 "a:hlinkClick",
                 **{"r:id": rid}
-- 
2.43.0


From b2f8e98244597d974690d0a131b77b11ce98933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 59/85] fix: write the direction of XLSX sheets as an XML
 boolean

---
 openformats/formats/xlsx_unstructured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index f3a0f48..6beb805 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -435,7 +435,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             if is_rtl is not None:
                 sheet_view = sheet_soup.find("sheetView")
                 if sheet_view:
-                    sheet_view.attrs["rightToLeft"] = is_rtl
+                    sheet_view.attrs["rightToLeft"] = "1" if is_rtl else "0"
 
             sheet_text_cells = sheet_soup.find_all(
                 "c",
-- 
2.43.0


From de567985067a691eae8a4e6506d803724ec9b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 60/85] fix: compile XLSX cells without a value

---
 openformats/formats/xlsx_unstructured.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 6beb805..9d33ec9 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -469,6 +469,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     not txid,
                     sheet_text_cell.has_attr("t"),
                     sheet_text_cell.attrs["t"] == 's',
+                    sheet_text_cell.v,
                 ]):
                     shared_string_index = int(sheet_text_cell.v.text)
                     shared_string_element = shared_strings[shared_string_index]
-- 
2.43.0


From ae1e53961369d0413b5f9db29a9699743dd2a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 61/85] fix: leave no txid attributes in compiled XLSX files

---
 openformats/formats/xlsx_unstructured.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 9d33ec9..4485e84 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -303,7 +303,9 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     shared_string_element = shared_strings[shared_string_index]
 
                 if cell_hyper_link and shared_string_element:
-                    sheet_text_cell.v.replace_with(copy.copy(shared_string_element))
+                    inline_string = copy.copy(shared_string_element)
+                    inline_string.attrs.pop("txid", None)
+                    sheet_text_cell.v.replace_with(inline_string)
                     sheet_text_cell.si.name = "is"
                     find_string_from = sheet_text_cell
                     sheet_text_cell.attrs["t"] = "inlineStr"
@@ -400,7 +402,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
         )
         sheets = workbook_soup.find_all("sheet")
         for sheet in sheets:
-            txid = sheet.attrs.get("txid")
+            txid = sheet.attrs.pop("txid", None)
             if not txid:
                 continue
             open_string = stringset.get(txid)
@@ -409,7 +411,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 continue
 
             sheet.attrs["name"] = open_string.string
-            sheet.attrs.pop("txid", None)
         xlsx.set_workbook_content(workbook_soup)
 
 
@@ -480,6 +481,7 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 if not replace_string_to:
                     continue
 
+                replace_string_to.attrs.pop("txid", None)
                 open_string = stringset.get(txid)
 
                 if not open_string:
@@ -554,7 +556,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                             t_string.string = ""
                             continue
                         t_string.string = translation
-                replace_string_to.attrs.pop("txid", None)
             xlsx.set_sheet_content(sheet, sheet_soup)
             xlsx.set_shared_strings_content(shared_strings_soup)
             if xlsx.has_rels(sheet):
-- 
2.43.0


From 5566035a6e0da809ab99f4f003b2907855065301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 62/85] fix: keep the blank texts of XLSX cells

---
 openformats/formats/xlsx_unstructured.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 4485e84..36dbfc7 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -330,14 +330,18 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     t_strings_len = len(t_strings)
 
                     string_parts = []
+                    has_text = False
                     for t_string in t_strings:
                         text_string = t_string.text
+                        if text_string.strip():
+                            has_text = True
                         text = wrap(text_string) if t_strings_len > 1 else text_string
                         string_parts.append(text)
-                    string = "".join(string_parts)
 
-                    if cell_hyper_link:
-                        string = wrap(string, cell_hyper_link)
+                    if has_text:
+                        string = "".join(string_parts)
+                        if cell_hyper_link:
+                            string = wrap(string, cell_hyper_link)
 
                 if string:
                     open_string_tmp = OpenString(
@@ -538,7 +542,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                             )
 
                 else:
-                    t_strings = replace_string_to.find_all("t")
+                    # blank parts of the translation are skipped below and so
+                    # are the blank texts of the cell
+                    t_strings = [
+                        t_string for t_string in replace_string_to.find_all("t")
+                        if t_string.text.strip()
+                    ]
                     t_strings_len = len(t_strings)
 
                     translation_parts_cleaned = self._prepare_string(
-- 
2.43.0


From 8eadc2364c7177bfcd52728146bc913f72cbbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 63/85] fix: keep the rest and the quotes of XLSX HYPERLINK
 formulas

---
 openformats/formats/xlsx_unstructured.py | 42 ++++++++++++++++--------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 36dbfc7..056f6d2 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -200,6 +200,20 @@ class XlsxFile(object):
         return result
 
 
+# a double quote in a text of a formula is doubled
+HYPERLINK_FORMULA = re.compile(
+    r'HYPERLINK\("((?:[^"]|"")*)","((?:[^"]|"")*)"\)'
+)
+
+
+def quote_formula(text):
+    return text.replace('"', '""')
+
+
+def unquote_formula(text):
+    return text.replace('""', '"')
+
+
 def wrap(string, hyperlink=None):
     href = ""
     if hyperlink:
@@ -321,9 +335,11 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
-                    link, text = match.groups() if match else (None, None)
-                    if link and text:
+                    match = HYPERLINK_FORMULA.search(link_content)
+                    link, text = (
+                        unquote_formula(group) for group in match.groups()
+                    ) if match else (None, None)
+                    if link and text and text.strip():
                         string = wrap(text, link)
                 else:
                     t_strings = find_string_from.find_all("t")
@@ -528,18 +544,16 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                     sheet_text_cell.f,
                 ]):
                     link_content = sheet_text_cell.f.text
-                    match = re.search(r'HYPERLINK\("(.*?)","(.*?)"\)', link_content)
-                    link, text = match.groups() if match else (None, None)
-                    if link and text:
+                    match = HYPERLINK_FORMULA.search(link_content)
+                    if match and all(match.groups()):
+                        link = target_url or unquote_formula(match.group(1))
                         translation = "".join(translation_parts)
-                        if target_url:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{target_url}","{translation}")'
-                            )
-                        else:
-                            sheet_text_cell.f.string = (
-                                f'HYPERLINK("{link}","{translation}")'
-                            )
+                        sheet_text_cell.f.string = '{}HYPERLINK("{}","{}"){}'.format(
+                            link_content[:match.start()],
+                            quote_formula(link),
+                            quote_formula(translation),
+                            link_content[match.end():],
+                        )
 
                 else:
                     # blank parts of the translation are skipped below and so
-- 
2.43.0


From ea276ab0118152a20ec186842e81f31eb9e9c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 64/85] fix: keep XLSX links with apostrophes

---
 openformats/formats/xlsx_unstructured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 056f6d2..4f0eeb1 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -217,7 +217,8 @@ def unquote_formula(text):
 def wrap(string, hyperlink=None):
     href = ""
     if hyperlink:
-        href = " href='{}'".format(hyperlink)
+        quote = '"' if "'" in hyperlink else "'"
+        href = " href={}{}{}".format(quote, hyperlink, quote)
     return "<tx{}>{}</tx>".format(href, string)
 
 
-- 
2.43.0


From d23726c685b2d81a9355f5398cbddb06e0256e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 65/85] fix: compile InDesign stories with DOS line endings

---
 openformats/formats/indesign.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index c43f0ba..d7610eb 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -197,6 +197,7 @@ class InDesignHandler(Handler):
             compiled_story: the compiled story content
         """
         transcriber = Transcriber(story_content)
+        story_content = transcriber.source
         hash_regex = re.compile(ensure_unicode(r'[a-z,0-9]{32}_tr'))
         found = True
         while found:
-- 
2.43.0


From aea45e8833926d959f0a82c2dfc34351f5e5e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 66/85] fix: keep every special character of InDesign

---
 openformats/formats/indesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index d7610eb..95f8b57 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -288,7 +288,7 @@ class InDesignHandler(Handler):
         escaped_lt_positions = {
             match.span()[0]
             for match in re.finditer(
-                r'<(\?ACE 18\?|\?ACE 19\?|\?ACE 3\?|\?ACE 8\?|\?ACE 7\?|Br\/)>',
+                r'<(\?ACE \d+\?|Br\/)>',
                 string)}
         target_positions = sorted(all_lt_positions - escaped_lt_positions)
 
-- 
2.43.0


From a305639ae92a9b3ae86b523d2bf292b1c2ba7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 67/85] fix: escape ]]> in InDesign translations

---
 openformats/formats/indesign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index 95f8b57..f40a1d2 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -228,7 +228,8 @@ class InDesignHandler(Handler):
     def _escape_special_chars(self, string):
         string = self._escape_amps(string)
         string = self._escape_lt(string)
-        return string
+        # Not allowed in the text of an XML element
+        return string.replace(']]>', ']]&gt;')
 
     @staticmethod
     def _escape_amps(string):
-- 
2.43.0


From e89184ad2ff1ebd567ddbcab17934faa6edaf9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 68/85] fix: order the unlisted stories of InDesign

---
 openformats/formats/indesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index f40a1d2..fddf524 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -98,7 +98,7 @@ class InDesignHandler(Handler):
             k for k in six.iterkeys(idml)
             if k.startswith('Stories') or k == BACKING_STORY
         }
-        story_keys.extend(all_stories - set(story_keys))
+        story_keys.extend(sorted(all_stories - set(story_keys)))
         return story_keys
 
     def _can_skip_content(self, string):
-- 
2.43.0


From aafa344d7ee0d1921a833885982a8eaead3cbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 69/85] fix: keep what follows one-line plurals in the earlier
 Android handler

---
 openformats/formats/beta_android.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index 1a32fac..e7df3a8 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -358,9 +358,7 @@ class BetaAndroidHandler(Handler):
                             rule=self.get_rule_string(rule), string=value
                         )
                     )
-                self.transcriber.skip(indent_length +
-                                      len(next_string.template_replacement) +
-                                      tail_length)
+                self.transcriber.skip(len(next_string.template_replacement))
 
             # finish up by copying until the end of </plurals>
             self.transcriber.copy_until(plurals_offset +
-- 
2.43.0


From cd6624cfc582944427f6c31dc51896dfa44b7b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 70/85] fix: keep array items with attributes in the earlier
 Android handler

---
 openformats/formats/beta_android.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index e7df3a8..ae6d243 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -144,8 +144,7 @@ class BetaAndroidHandler(Handler):
             # orld</item>   <it...
             #            ^
             self.transcriber.copy_until(
-                string_array_offset + item_offset + item_tag.inner_offset +
-                len(item_tag.content)
+                string_array_offset + item_offset + len(item_tag.content)
             )
 
         # </item>  </string-array>
-- 
2.43.0


From b7eaa4fc0893f1048a6361cd104ed01fe1db4b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 71/85] fix: read plurals without items in the earlier Android
 handler

---
 openformats/formats/beta_android.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index ae6d243..b02dff0 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -168,9 +168,9 @@ class BetaAndroidHandler(Handler):
 
             rule = self.get_rule_number(item_tag.attrs['quantity'])
             strings[rule] = item_tag.inner
-        last_item_tag, last_item_offset = item_tag, item_offset
+            last_item_tag, last_item_offset = item_tag, item_offset
 
-        if strings is not None:
+        if strings:
             context = plurals_tag.attrs.get('product', "")
             string = OpenString(plurals_tag.attrs['name'], strings,
                                 pluralized=True,
-- 
2.43.0


From 45bab0af9bb55198fe757124c8e10c1a8a14a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 72/85] fix: compile plurals with comments in the earlier
 Android handler

---
 openformats/formats/beta_android.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index b02dff0..ffd2d51 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -307,7 +307,7 @@ class BetaAndroidHandler(Handler):
         except IndexError:
             next_string = None
         if (next_string is not None and
-                next_string.template_replacement == plurals_tag.inner.strip()):
+                next_string.template_replacement in plurals_tag.inner):
             # found one to replace, if the hash is on its own on a line with
             # only spaces, we have to remember it's indent
             self._stringset_index += 1
-- 
2.43.0


From 7ca1b7a32ee90ee66f3d89b307c6a3cdbb35e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 73/85] fix: keep comments inside entries in the earlier
 Android handler

---
 openformats/formats/beta_android.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openformats/formats/beta_android.py b/openformats/formats/beta_android.py
index ffd2d51..c28828a 100644
--- a/openformats/formats/beta_android.py
+++ b/openformats/formats/beta_android.py
@@ -43,8 +43,13 @@ class BetaAndroidHandler(Handler):
 
         resources_tag = DumbXml(source)
         last_comment = ""
+        end = 0
         for tag, offset in resources_tag.find(("string-array", "string",
                                                "plurals", DumbXml.COMMENT)):
+            if offset < end:
+                # A comment inside the previous tag
+                continue
+            end = offset + len(tag.content)
             if self._should_ignore(tag):
                 last_comment = ""
                 continue
-- 
2.43.0


From 14d565442dc3301b11984417a5e4cf54235db7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 74/85] fix: integer keys of nested YAML entries when compiling
 without a template

---
 openformats/formats/yaml/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/yaml/utils.py b/openformats/formats/yaml/utils.py
index 2cbf70b..d71a0bf 100644
--- a/openformats/formats/yaml/utils.py
+++ b/openformats/formats/yaml/utils.py
@@ -490,12 +490,13 @@ class YamlGenerator(object):
             is_last = i == (len(keys) - 2)
             next_key = keys[i+1]
 
-            key = self._parse_int_key(key)
             key, is_list = self._parse_list_index_key(key)
             next_key, next_is_list = self._parse_list_index_key(next_key)
 
             if is_list:
                 index = key
+            else:
+                key = self._parse_int_key(key)
 
             if not is_list:
                 if key in yaml_dict:
@@ -519,8 +520,9 @@ class YamlGenerator(object):
                     yaml_dict.add(next_key,
                                   self._get_styled_string(entry, styles[-1]))
                 else:
-                    yaml_dict[next_key] = self._get_styled_string(entry,
-                                                                  styles[-1])
+                    yaml_dict[self._parse_int_key(next_key)] = (
+                        self._get_styled_string(entry, styles[-1])
+                    )
 
     def _create_list_node(self, style):
         if style == 'block':
-- 
2.43.0


From 77030eee3692a06a4a9b1ccb36088e4889bd8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 75/85] fix: read the escaped characters of Markdown headers as
 hexadecimal

---
 openformats/formats/github_markdown_v2.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 332bee1..1dc6b33 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -237,9 +237,11 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             for match in reversed(all_matches):
                 escaped = match.group()
                 # From a string like '\u0008' get everything after `\u`
-                # and convert it to a character based on its int value
-                char = six.unichr(int(escaped[2:]))
-                if Reader.NON_PRINTABLE.match(char):
+                # and convert it to a character based on its hex int value
+                # Surrogates are not characters of their own
+                char = six.unichr(int(escaped[2:], 16))
+                if (Reader.NON_PRINTABLE.match(char) and
+                        not 0xd800 <= ord(char) <= 0xdfff):
                     string = '{before}{repl}{after}'.format(
                         before=string[:match.start()],
                         repl=char,
-- 
2.43.0


From 6a3f3dbb0dc09ea87dce9fe62991face91b21773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 76/85] fix: a comment behind a YAML text is not the one of the
 next text

---
 openformats/formats/yaml/yaml.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openformats/formats/yaml/yaml.py b/openformats/formats/yaml/yaml.py
index 59b6e78..1aeca13 100644
--- a/openformats/formats/yaml/yaml.py
+++ b/openformats/formats/yaml/yaml.py
@@ -315,11 +315,11 @@ class YamlHandler(Handler):
 
     def _find_comment(self, content, start, end):
         """ Finds comment lines that precede a part of the YAML structure """
-        lines = [
-            line.strip()
-            for line in content[start:end].split('\n')
-            if line.strip() != ""
-        ]
+        lines = content[start:end].split('\n')
+        if start > 0 and content[start - 1] != '\n':
+            # What follows the previous string on its line, maybe a comment
+            del lines[0]
+        lines = [line.strip() for line in lines if line.strip() != ""]
         lines.reverse()
 
         # remove non-comment line just before the string to be translated
-- 
2.43.0


From dcb13cc0a9afbc946085d4a0d9253e30b236e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 77/85] fix: links added to texts of a presentation without
 properties or with a link inside of it

---
 openformats/formats/pptx.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 36f5276..9523207 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -299,11 +299,17 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             cls.set_hyperlink_url(element, document_rels, url)
         else:
             rid = cls.create_hyperlink_rel(document_rels, url)
+            # A link inside of the presentation is replaced
+            cls.remove_hyperlink(element)
             hyperlink = document_rels.new_tag(
                 "a:hlinkClick",
                 **{"r:id": rid}
             )
-            element.parent.rPr.append(hyperlink)
+            properties = element.parent.rPr
+            if properties is None:
+                properties = document_rels.new_tag("a:rPr")
+                element.insert_before(properties)
+            properties.append(hyperlink)
 
     @classmethod
     def remove_hyperlink(cls, text_element):
-- 
2.43.0


From f7730ba90e591cf060f3bde53f5f1e5d23c34a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:09 +0000
Subject: [PATCH 78/85] fix: InDesign packages parsed by the same handler keep
 apart

---
 openformats/formats/indesign.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index fddf524..53aa637 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -53,6 +53,8 @@ class InDesignHandler(Handler):
             * Return the (template, stringset) tuple
         """
 
+        self.order = count()
+        self.stringset = []
         idml = UCF(io.BytesIO(content))
         ordered_stories = self._get_ordered_stories(idml)
 
-- 
2.43.0


From 68784aa499b53ee4306f2039ee7be272c722f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:14 +0000
Subject: [PATCH 79/85] fix: office packages that refer to files outside of
 them

---
 openformats/formats/docx.py                   | 10 +++++----
 .../formats/office_open_xml/package.py        | 22 +++++++++++++++++++
 openformats/formats/pptx.py                   | 11 +++++-----
 openformats/formats/xlsx_unstructured.py      | 13 ++++++-----
 4 files changed, 42 insertions(+), 14 deletions(-)
 create mode 100644 openformats/formats/office_open_xml/package.py

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 164f7b8..87bb829 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -9,6 +9,7 @@ from zipfile import ZIP_DEFLATED, ZipFile
 import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
+from openformats.formats.office_open_xml.package import get_part_path
 from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
 
 
@@ -114,14 +115,15 @@ class DocxFile(object):
             if relationship.attrs.get('Type').endswith('/officeDocument')
         )).attrs['Target']
 
-        self.__document_path = '{}/{}'.format(
+        self.__document_path = get_part_path(
             self.__tmp_folder, document_relative_path
         )
         self.__document = None
 
         document_folder, document_file = os.path.split(document_relative_path)
-        self.__document_rels_path = '{}/{}/_rels/{}.rels'.format(
-            self.__tmp_folder, document_folder, document_file
+        self.__document_rels_path = get_part_path(
+            self.__tmp_folder,
+            '{}/_rels/{}.rels'.format(document_folder, document_file)
         )
         self.__document_rels = None
 
@@ -160,7 +162,7 @@ class DocxFile(object):
 
         with ZipFile(docx_path, "w", compression=ZIP_DEFLATED) as z:
             for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+                z.write(get_part_path(self.__tmp_folder, filename), filename)
 
         with io.open(docx_path, 'rb') as f:
             result = f.read()
diff --git a/openformats/formats/office_open_xml/package.py b/openformats/formats/office_open_xml/package.py
new file mode 100644
index 0000000..229d473
--- /dev/null
+++ b/openformats/formats/office_open_xml/package.py
@@ -0,0 +1,22 @@
+import os
+
+from openformats.exceptions import ParseError
+
+
+def get_part_path(folder, name):
+    """ Find the path of a file of a package
+
+    Args:
+        folder: A string, the absolute path of the folder the package has been
+            extracted to
+        name: A string, the name of the file in the package
+
+    Returns:
+        The path of the file, always inside of the folder.
+    """
+    path = os.path.normpath('{}/{}'.format(folder, name))
+    if not path.startswith(os.path.normpath(folder) + '/'):
+        raise ParseError(
+            u"The package refers to a file outside of it: {}".format(name)
+        )
+    return path
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 9523207..6ed3c74 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -11,6 +11,7 @@ import six
 from bs4 import BeautifulSoup
 from openformats.handlers import Handler
 from openformats.exceptions import MissingParentError
+from openformats.formats.office_open_xml.package import get_part_path
 from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
 from openformats.strings import OpenString
 from collections import defaultdict
@@ -131,12 +132,12 @@ class PptxFile(object):
             self.__slides[slide_path] = {
                 'slide': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, slide_path),
+                    'path': get_part_path(self.__tmp_folder, slide_path),
                     'notes':  False
                 },
                 'rels': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, self.get_rels_path(slide_path))  # noqa
+                    'path': get_part_path(self.__tmp_folder, self.get_rels_path(slide_path))  # noqa
                 }
             }
 
@@ -144,12 +145,12 @@ class PptxFile(object):
             self.__slides[notes_path] = {
                 'slide': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, notes_path),
+                    'path': get_part_path(self.__tmp_folder, notes_path),
                     'notes':  True
                 },
                 'rels': {
                     'content': None,
-                    'path': '{}{}'.format(self.__tmp_folder, self.get_rels_path(notes_path))  # noqa
+                    'path': get_part_path(self.__tmp_folder, self.get_rels_path(notes_path))  # noqa
                 }
             }
 
@@ -204,7 +205,7 @@ class PptxFile(object):
 
         with ZipFile(pptx_path, "w", compression=ZIP_DEFLATED) as z:
             for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+                z.write(get_part_path(self.__tmp_folder, filename), filename)
 
         with io.open(pptx_path, 'rb') as f:
             result = f.read()
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index 4f0eeb1..a29f861 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -13,6 +13,7 @@ from bs4 import BeautifulSoup
 from bs4.dammit import EntitySubstitution
 from bs4.formatter import XMLFormatter
 
+from openformats.formats.office_open_xml.package import get_part_path
 from openformats.formats.office_open_xml.parser import OfficeOpenXmlHandler
 from openformats.handlers import Handler
 from openformats.strings import OpenString
@@ -88,7 +89,7 @@ class XlsxFile(object):
         workbook_path_internal = content_types_soup.find(
             attrs={'ContentType': self.WORKBOOK_CONTENT_TYPE}
         )['PartName']
-        self._workbook_path = "{}{}".format(self.__tmp_folder, workbook_path_internal)
+        self._workbook_path = get_part_path(self.__tmp_folder, workbook_path_internal)
 
         comment_paths_internal = {
             comment["PartName"]
@@ -97,7 +98,7 @@ class XlsxFile(object):
             )
         }
         self._comment_paths = {
-            "{}{}".format(self.__tmp_folder, comment_path)
+            get_part_path(self.__tmp_folder, comment_path)
             for comment_path in comment_paths_internal
         }
 
@@ -117,7 +118,7 @@ class XlsxFile(object):
         )
         self._sheets = {}
         for sheet_item in sheet_items_internal:
-            sheet_path = "{}{}".format(self.__tmp_folder, sheet_item["path"])
+            sheet_path = get_part_path(self.__tmp_folder, sheet_item["path"])
             sheet_rels_tmp_path = get_rels_path(sheet_path)
             self._sheets[sheet_item["path"]] = {
                 "path": sheet_path,
@@ -128,7 +129,9 @@ class XlsxFile(object):
         shared_strings_path_internal = content_types_soup.find(
             attrs={'ContentType': self.SHARED_STRINGS_CONTENT_TYPE}
         )["PartName"]
-        self._shared_strings_path = "{}{}".format(self.__tmp_folder, shared_strings_path_internal)
+        self._shared_strings_path = get_part_path(
+            self.__tmp_folder, shared_strings_path_internal
+        )
 
     def get_workbook_path(self):
         return self._workbook_path
@@ -191,7 +194,7 @@ class XlsxFile(object):
         output_path = self.__tmp_folder + "/out.xlsx"
         with ZipFile(output_path, "w", compression=ZIP_DEFLATED) as z:
             for filename in self.__filelist:
-                z.write(os.path.join(self.__tmp_folder, filename), filename)
+                z.write(get_part_path(self.__tmp_folder, filename), filename)
 
         with io.open(output_path, 'rb') as f:
             result = f.read()
-- 
2.43.0


From 699a841af7e26466355a565f37507ca18276af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 80/85] fix: remove the scratch folder of office packages that
 are not read or written to their end

---
 openformats/formats/docx.py              | 19 +++++++++++++++++--
 openformats/formats/pptx.py              | 19 +++++++++++++++++--
 openformats/formats/xlsx_unstructured.py | 24 ++++++++++++++++++------
 3 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/openformats/formats/docx.py b/openformats/formats/docx.py
index 87bb829..dda10af 100644
--- a/openformats/formats/docx.py
+++ b/openformats/formats/docx.py
@@ -88,7 +88,13 @@ class DocxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__extract(content)
+        except Exception:
+            self.delete()
+            raise
 
+    def __extract(self, content):
         docx_path = '{}/{}.docx'.format(self.__tmp_folder, 'in')
         with io.open(docx_path, 'wb') as f:
             f.write(content)
@@ -281,7 +287,12 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         compilation takes place.
         """
         docx = DocxFile(content)
+        try:
+            return self._parse_package(docx)
+        finally:
+            docx.delete()
 
+    def _parse_package(self, docx):
         soup = BeautifulSoup(docx.get_document(), 'xml')
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
 
@@ -298,7 +309,6 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         docx.set_document(six.text_type(soup))
 
         template = docx.compress()
-        docx.delete()
         return template, stringset
 
     def compile(self, template, stringset, **kwargs):
@@ -306,6 +316,12 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         docx = DocxFile(template)
+        try:
+            return self._compile_package(docx, stringset, **kwargs)
+        finally:
+            docx.delete()
+
+    def _compile_package(self, docx, stringset, **kwargs):
         soup = BeautifulSoup(docx.get_document(), 'xml')
         rels_soup = BeautifulSoup(docx.get_document_rels(), 'xml')
         is_rtl = kwargs.get('is_rtl', False)
@@ -323,5 +339,4 @@ class DocxHandler(Handler, OfficeOpenXmlHandler):
         docx.set_document_rels(six.text_type(rels_soup))
 
         result = docx.compress()
-        docx.delete()
         return result
diff --git a/openformats/formats/pptx.py b/openformats/formats/pptx.py
index 6ed3c74..2aae42b 100644
--- a/openformats/formats/pptx.py
+++ b/openformats/formats/pptx.py
@@ -93,7 +93,13 @@ class PptxFile(object):
             tempfile.gettempdir(), uuid.uuid4().hex
         )
         os.mkdir(self.__tmp_folder)
+        try:
+            self.__extract(content)
+        except Exception:
+            self.delete()
+            raise
 
+    def __extract(self, content):
         pptx_path = '{}/{}.pptx'.format(self.__tmp_folder, 'in')
         with io.open(pptx_path, 'wb') as f:
             f.write(content)
@@ -346,7 +352,12 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
         compilation takes place.
         """
         pptx = PptxFile(content)
+        try:
+            return self._parse_package(pptx)
+        finally:
+            pptx.delete()
 
+    def _parse_package(self, pptx):
         stringset = []
         order = itertools.count()
 
@@ -369,7 +380,6 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             pptx.set_slide(slide, six.text_type(soup))
 
         template = pptx.compress()
-        pptx.delete()
         return template, stringset
 
     def compile(self, template, stringset, **kwargs):
@@ -377,6 +387,12 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         pptx = PptxFile(template)
+        try:
+            return self._compile_package(pptx, stringset, **kwargs)
+        finally:
+            pptx.delete()
+
+    def _compile_package(self, pptx, stringset, **kwargs):
         is_rtl = kwargs.get('is_rtl', False)
         for slide in pptx.get_slides():
             soup = BeautifulSoup(pptx.get_slide(slide), 'xml')
@@ -392,7 +408,6 @@ class PptxHandler(Handler, OfficeOpenXmlHandler):
             pptx.set_slide_rels(slide, six.text_type(rels_soup))
 
         result = pptx.compress()
-        pptx.delete()
         return result
 
 class PptxHandlerV2(PptxHandler):
diff --git a/openformats/formats/xlsx_unstructured.py b/openformats/formats/xlsx_unstructured.py
index a29f861..e066425 100644
--- a/openformats/formats/xlsx_unstructured.py
+++ b/openformats/formats/xlsx_unstructured.py
@@ -54,8 +54,15 @@ class XlsxFile(object):
     def __init__(self, content):
         self.__tmp_folder = "{}/{}".format(tempfile.gettempdir(), uuid4().hex)
         os.mkdir(self.__tmp_folder)
+        try:
+            self._extract(content)
+            self._parse()
+        except Exception:
+            self.delete()
+            raise
 
-        input_path = self.__tmp_folder + "in.xlsx"
+    def _extract(self, content):
+        input_path = self.__tmp_folder + "/in.xlsx"
 
         with io.open(input_path, 'wb') as f:
             f.write(content)
@@ -67,8 +74,6 @@ class XlsxFile(object):
 
         self.__filelist = z.namelist()
 
-        self._parse()
-
     def _parse(self):
         """
         http://officeopenxml.com/SScontentOverview.php
@@ -249,7 +254,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
 
     def parse(self, content, **kwargs):
         xlsx = XlsxFile(content)
+        try:
+            return self._parse_package(xlsx)
+        finally:
+            xlsx.delete()
 
+    def _parse_package(self, xlsx):
         order = itertools.count()
 
         sheet_names = self._extract_sheet_names(xlsx)
@@ -391,8 +401,6 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             all_strings.append(open_string)
 
         template = xlsx.compress()
-
-        xlsx.delete()
         return template, all_strings
 
     @staticmethod
@@ -444,7 +452,12 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
             string.string_hash: string for string in stringset
         }
         xlsx = XlsxFile(template)
+        try:
+            return self._compile_package(xlsx, stringset, is_rtl)
+        finally:
+            xlsx.delete()
 
+    def _compile_package(self, xlsx, stringset, is_rtl):
         shared_strings_soup = BeautifulSoup(xlsx.get_shared_strings_content(), "xml")
         shared_strings = shared_strings_soup.find_all("si")
 
@@ -589,6 +602,5 @@ class XlsxUnstructuredHandler(Handler, OfficeOpenXmlHandler):
                 xlsx.set_sheet_rels_content(sheet, sheet_rels_soup)
 
         result = xlsx.compress()
-        xlsx.delete()
         return result
 
-- 
2.43.0


From 2dd6b931dddb20467f916b262d8907d9a615a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 81/85] fix: compiling a PO template leaves the template as it
 is

---
 openformats/formats/po.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openformats/formats/po.py b/openformats/formats/po.py
index 6cff787..5f63ea4 100644
--- a/openformats/formats/po.py
+++ b/openformats/formats/po.py
@@ -271,14 +271,20 @@ class PoHandler(Handler):
 
         return six.text_type("\n".join(result))
 
+    @staticmethod
+    def _load_template(template):
+        """ Get a PO file to work on, the template itself is left as it is """
+        if not isinstance(template, polib.POFile):
+            return polib.pofile(template)
+        po = copy(template)
+        po[:] = [copy(entry) for entry in template]
+        return po
+
     def compile(self, template, stringset, **kwargs):
         stringset = iter(stringset)
         next_string = next(stringset, None)
 
-        if isinstance(template, polib.POFile):
-            po = template
-        else:
-            po = polib.pofile(template)
+        po = self._load_template(template)
 
         for i, entry in enumerate(po):
             if next_string is not None:
@@ -306,10 +312,7 @@ class PoHandler(Handler):
         iterator = iter(stringset)
         next_string = next(iterator, None)
 
-        if isinstance(template, polib.POFile):
-            po = template
-        else:
-            po = polib.pofile(template)
+        po = self._load_template(template)
 
         indexes_to_remove = []
         matched_count = 0
@@ -342,10 +345,7 @@ class PoHandler(Handler):
         if not remaining:
             return template
 
-        if isinstance(template, polib.POFile):
-            po = template
-        else:
-            po = polib.pofile(template)
+        po = self._load_template(template)
 
         for os in remaining:
             entry = self._make_added_entry(os)
-- 
2.43.0


From 3f15d4b5d1b5cb12e9ee537ae3efa9e04213e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 82/85] fix: InDesign translations that look like a hash are
 kept

---
 openformats/formats/indesign.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/openformats/formats/indesign.py b/openformats/formats/indesign.py
index 53aa637..d2fad7b 100644
--- a/openformats/formats/indesign.py
+++ b/openformats/formats/indesign.py
@@ -200,7 +200,10 @@ class InDesignHandler(Handler):
         """
         transcriber = Transcriber(story_content)
         story_content = transcriber.source
-        hash_regex = re.compile(ensure_unicode(r'[a-z,0-9]{32}_tr'))
+        hash_regex = re.compile(
+            ensure_unicode(r'<Content>\s*([a-z,0-9]{32}_tr)\s*</Content>')
+        )
+        translations = {}
         found = True
         while found:
             try:
@@ -214,18 +217,19 @@ class InDesignHandler(Handler):
             except IndexError:
                 break
             else:
-                transcriber.copy_until(hash_position)
-                transcriber.add(self._escape_special_chars(
-                    current_string.string))
-                transcriber.skip(len(current_string.template_replacement))
+                translations[hash_position] = self._escape_special_chars(
+                    current_string.string
+                )
 
-        # Update the XML file to contain the template strings
+        # Update the XML file to contain the template strings, in case there
+        # are any hashes without a translation, replace them with an empty
+        # string
+        for match in hash_regex.finditer(story_content):
+            transcriber.copy_until(match.start(1))
+            transcriber.add(translations.get(match.start(1), u''))
+            transcriber.skip(len(match.group(1)))
         transcriber.copy_until(len(story_content))
-        compiled_story = transcriber.get_destination()
-        # in case there are any hashes that have not been replaced, replace
-        # them with an empty string
-        compiled_story = hash_regex.sub(u'', compiled_story)
-        return compiled_story
+        return transcriber.get_destination()
 
     def _escape_special_chars(self, string):
         string = self._escape_amps(string)
-- 
2.43.0


From 3f771457ba5655ec680d9f3daf2e5853d59f0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:04 +0000
Subject: [PATCH 83/85] fix: Markdown texts are found where they are, not in
 something before them

---
 openformats/formats/github_markdown.py    | 52 ++++++++++++++++++++---
 openformats/formats/github_markdown_v2.py | 16 +++++--
 2 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/openformats/formats/github_markdown.py b/openformats/formats/github_markdown.py
index f9981de..e420301 100644
--- a/openformats/formats/github_markdown.py
+++ b/openformats/formats/github_markdown.py
@@ -27,7 +27,7 @@ def string_handler(token, template):
     """
 
     # Drop new lines around string.
-    string, key = token
+    string, key = token[:2]
     string = string.strip('\n')
     # for code blocks we need to maintain the exact indentation as in
     # the source file both for matching the string and replacing it in the
@@ -55,7 +55,7 @@ def string_handler(token, template):
     # Drop # chars from beginning of the string
     match_header_line = re.search(ensure_unicode(r'^#+\s'), string)
     if match_header_line:
-        return string.replace(match_header_line.group(), '')
+        return string[match_header_line.end():]
 
     # Extract Text from `[Text]: link` or `"[Text]: link"` lines
     match_reference = re.search(ensure_unicode(r'^"?\[([^\[^\]]+)\]:.+"?$'), string)
@@ -77,6 +77,37 @@ def string_handler(token, template):
     return string
 
 
+def find_token(token, template, start):
+    """
+    Find the token a string comes from in the part of the template that has
+    not been processed yet. Its text may be found earlier, in something that
+    is not translated, e.g. an address or a liquid tag.
+    Parameters:
+    token: Tuple of (string, string_type), may have the line of the string as
+           its last item
+    template: the template of the resource
+    start: the position in the template to start from
+
+    returns: the start and the end of the token, both are the given position
+             if the token is not in the template as it is
+    """
+    string, key = token[:2]
+    string = string.strip('\n')
+    if key == 'block_code':
+        # It may be indented
+        return start, start
+    if len(token) > 2:
+        line = u'\n' + token[2]
+        position = template.find(line, start)
+        offset = line.rfind(string)
+    else:
+        position = template.find(string, start)
+        offset = 0
+    if position == -1:
+        return start, start
+    return position + offset, position + offset + len(string)
+
+
 class TxBlockLexer(BlockLexer):
 
     md_stringset = []
@@ -178,7 +209,7 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                                  group(0))
                     block = True
                     continue
-                yaml_strings.append((value, None))
+                yaml_strings.append((value, None, line))
         return yaml_strings
 
     def parse(self, content, **kwargs):
@@ -219,9 +250,12 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
 
         order = 0
         curr_pos = 0
-        for string in (yaml_stringset + block.md_stringset):
-            string = string_handler(string, template)
-            if string and string in template[curr_pos:]:
+        for token in (yaml_stringset + block.md_stringset):
+            string = string_handler(token, template)
+            curr_pos, token_end = find_token(token, template, curr_pos)
+            if not string:
+                curr_pos = token_end
+            elif string in template[curr_pos:]:
                 string_object = OpenString(six.text_type(order),
                                            string,
                                            order=order)
@@ -233,4 +267,10 @@ class GithubMarkdownHandler(OrderedCompilerMixin, Handler):
                 )
                 curr_pos = template.find(string_object.template_replacement)
                 curr_pos = curr_pos + len(string_object.template_replacement)
+                # ... and of what follows the string in its token
+                curr_pos = max(
+                    curr_pos,
+                    token_end - len(string) +
+                    len(string_object.template_replacement)
+                )
         return force_newline_type(template, newline_type), stringset
diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 1dc6b33..32c1c9c 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -8,7 +8,8 @@ import yaml
 from mistune import Markdown
 from yaml.reader import Reader
 
-from openformats.formats.github_markdown import TxBlockLexer, string_handler
+from openformats.formats.github_markdown import (TxBlockLexer, find_token,
+                                                 string_handler)
 from openformats.formats.yaml import YamlHandler
 from openformats.utils.compat import ensure_unicode
 
@@ -117,8 +118,11 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
         block_label_string = ("|").join(self.SUPPORTED_BLOCK_LABELS)
         block_pattern = rf'^\s*>\s{{0,4}}\[!({block_label_string})\]'
 
-        for string in block.md_stringset:
-            string = string_handler(string, md_template)
+        for token in block.md_stringset:
+            string = string_handler(token, md_template)
+            curr_pos, token_end = find_token(token, md_template, curr_pos)
+            if not string:
+                curr_pos = token_end
             # Ignore any string that does not appear in the template,
             # We do this to avoid parsing strings that are not properly
             # handled by the Markdown library, such as ```code``` blocks
@@ -157,6 +161,12 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
 
                     curr_pos = md_template.find(string_object.template_replacement)
                     curr_pos = curr_pos + len(string_object.template_replacement)
+                    # ... and of what follows the string in its token
+                    curr_pos = max(
+                        curr_pos,
+                        token_end - len(string) +
+                        len(string_object.template_replacement)
+                    )
 
         template = yaml_template + seperator + md_template
         return force_newline_type(template, newline_type), stringset
-- 
2.43.0


From ab0abbb7a8aeb731a04ba4699603a8ea26eeb599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 84/85] fix: compiling Markdown leaves the given strings as
 they are

---
 openformats/formats/github_markdown_v2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openformats/formats/github_markdown_v2.py b/openformats/formats/github_markdown_v2.py
index 32c1c9c..792dd5c 100644
--- a/openformats/formats/github_markdown_v2.py
+++ b/openformats/formats/github_markdown_v2.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import, unicode_literals
 
 import re
+from copy import copy
 
 import six
 import unicodedata
@@ -298,6 +299,9 @@ class GithubMarkdownHandlerV2(OrderedCompilerMixin, Handler):
             if quote_char == self.DOUBLE_QUOTES and not self._is_block(openstring):
                 string = self._escape_special_chars(string)
         else:
+            # The given string should stay as it is
+            openstring = copy(openstring)
+            openstring._strings = openstring._strings.copy()
             self._escape_invalid_chars(openstring)
             string = openstring.string
 
-- 
2.43.0


From 5d3dc881723b2df330bb298def9906e34669ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 85/85] fix: metadata of structured JSON that does not change
 keeps its spelling

---
 openformats/formats/json.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openformats/formats/json.py b/openformats/formats/json.py
index 55293dc..ac8f296 100644
--- a/openformats/formats/json.py
+++ b/openformats/formats/json.py
@@ -846,6 +846,15 @@ class StructuredJsonHandler(JsonHandler):
         self.transcriber.skip_until(end - 1 if is_text else end)
         self.transcriber.copy_until(end)
 
+    def _escape_metadata(self, metadata, template_value):
+        """Escape a text, in the way that the template does if it has it."""
+        if (
+            isinstance(template_value, six.text_type)
+            and json.loads(f'"{template_value}"') == metadata
+        ):
+            return template_value
+        return self.escape(metadata)
+
     def _get_value_end(self, value, value_position):
         """Find the position right after a value of the template."""
         if isinstance(value, DumbJson):
@@ -901,13 +910,15 @@ class StructuredJsonHandler(JsonHandler):
                         if key == self.CONTEXT_KEY and translation:
                             context = translation.context
                             self._compile_value(
-                                self.escape(context), value, value_position
+                                self._escape_metadata(context, value),
+                                value,
+                                value_position,
                             )
                             context_added = True
                         elif key == self.DEVELOPER_COMMENT_KEY and translation:
                             developer_comment = translation.developer_comment
                             self._compile_value(
-                                self.escape(developer_comment),
+                                self._escape_metadata(developer_comment, value),
                                 value,
                                 value_position,
                             )
-- 
2.43.0

