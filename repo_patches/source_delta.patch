From 4fd1266d41f330fa18e1075a20f642b9d7526fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 001/107] fix: an empty class in a rule matches nothing instead
 of the empty string

---
 lgr/classes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index f054701..9528089 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -24,7 +24,7 @@ def set_to_rvalue(cp_set, as_set):
 
     If `cp_set` is empty and `as_set` is False, then the rvalue is a text
     pattern to be used in regex. As the set is empty, '[]' is not a valid
-    regex, so take care of this case here.
+    regex, so take care of this case here: an empty class matches nothing.
 
     :param cp_set: Code point set.
     :param as_set: If True, rvalue is a set, unicode string otherwise.
@@ -34,9 +34,12 @@ def set_to_rvalue(cp_set, as_set):
         return cp_set
     else:
         if len(cp_set) == 0:
-            # Empty set, we have to return empty string
-            # because '[]' is an invalid REGEX
-            return ''
+            # Empty set, we have to return a pattern that never matches
+            # because '[]' is an invalid REGEX, and an empty string would
+            # match without consuming any code point.
+            # As a class, the pattern is one code point long: ICU relies
+            # on the length of the alternatives used in a look-behind
+            return '(?:.(?<!.))'
         else:
             return text_type(cp_set)
 
-- 
2.43.0


From 705cf0ef6640b15f1a1388021e7afd1833a9e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 002/107] fix: rules no longer use patterns cached before a
 tag, class or rule was edited

---
 lgr/core.py    | 16 ++++++++++++++++
 lgr/matcher.py | 10 ++++++++++
 lgr/rule.py    | 17 +++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 634826d..4cafae6 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -237,6 +237,7 @@ class LGR(object):
         """
         self.repertoire.del_tag(tag_id)
         self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)
+        self._clear_pattern_cache()
 
     def add_cp(self, cp_or_sequence,
                comment=None, ref=None,
@@ -984,6 +985,8 @@ class LGR(object):
             if not force:
                 raise exc
 
+        if rule.name in self.rules_lookup:
+            self._clear_pattern_cache()
         self.rules_lookup[rule.name] = rule
         self.rules.append(rule.name)
 
@@ -1015,6 +1018,8 @@ class LGR(object):
             logger.log(level, "Invalid rule '%s'", cls)
             if not force:
                 raise exc
+        if cls.name in self.classes_lookup:
+            self._clear_pattern_cache()
         self.classes_lookup[cls.name] = cls
         self.classes.append(cls.name)
 
@@ -2107,6 +2112,8 @@ class LGR(object):
                                            Class(name=tag,
                                                  comment="Virtual class for tag %s" % tag,
                                                  implicit=True)).add_codepoint(cp_or_sequence)
+        if tags:
+            self._clear_pattern_cache()
 
     def _del_cp_from_tag_classes(self, cp_or_sequence, tags):
         """
@@ -2122,6 +2129,15 @@ class LGR(object):
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             if tag_classname in self.classes_lookup:
                 self.classes_lookup[tag_classname].del_codepoint(cp_or_sequence)
+        if tags:
+            self._clear_pattern_cache()
+
+    def _clear_pattern_cache(self):
+        """
+        Forget the patterns cached by the rules, as they may be outdated.
+        """
+        for rule in self.rules_lookup.values():
+            rule.clear_pattern_cache()
 
     def __unicode__(self):
         return self.name
diff --git a/lgr/matcher.py b/lgr/matcher.py
index 686355e..cf19e9a 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -58,6 +58,13 @@ class Matcher(object):
         """
         return iter([])
 
+    def clear_pattern_cache(self):
+        """
+        Forget the patterns cached by the rules used in this matcher.
+        """
+        for child in self.iter_children():
+            child.clear_pattern_cache()
+
     def __repr__(self):
         return '<Matcher>'
 
@@ -426,6 +433,9 @@ class RuleMatcher(CountMatcher):
         """
         return self._rule.iter_children()
 
+    def clear_pattern_cache(self):
+        self._rule.clear_pattern_cache()
+
     def can_add_child(self):
         return self._rule.can_add_child()
 
diff --git a/lgr/rule.py b/lgr/rule.py
index 12beed3..d25afef 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -45,6 +45,13 @@ class Rule(object):
             logger.error("Cannot create a rule with both a 'name' and a 'by-ref'")
             raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
 
+    def __getstate__(self):
+        # Cached patterns are keyed by object identities, which are
+        # meaningless in a copy
+        odict = self.__dict__.copy()
+        odict['_pattern_cache'] = {}
+        return odict
+
     def iter_children(self):
         """
         Returns an iterator of any child element of this matcher, which could be none.
@@ -101,6 +108,16 @@ class Rule(object):
         self._pattern_cache[cache_key] = pattern_io.getvalue()
         return pattern_io.getvalue()
     
+    def clear_pattern_cache(self):
+        """
+        Forget the patterns of this rule and all its children.
+
+        To be called when the definition of a class or a rule changes.
+        """
+        self._pattern_cache.clear()
+        for child in self.children:
+            child.clear_pattern_cache()
+
     def precalculate_patterns(self, rules_lookup, classes_lookup, unicode_database):
         """
         Precalculate patterns for this rule and all its children.
-- 
2.43.0


From 139b13721288db52b0b99e5bca1fe7e2c8a294fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 003/107] fix: variants needing a sequence without variants to
 cover the label are generated

---
 lgr/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 4cafae6..d0410c2 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1795,6 +1795,14 @@ class LGR(object):
                 if len(cp) < len(char) and cp.is_prefix_of(label):
                     same_prefix.append(cp)
 
+        if same_prefix:
+            # A sequence without variants may be needed to reach the end of the label,
+            # as its code points are not always in the LGR on their own
+            for cp in self.repertoire.get_chars_from_prefix(label[0]):
+                if isinstance(cp, CharSequence) and cp not in same_prefix and cp.is_prefix_of(label) \
+                        and self._test_context_rules(cp, label_prefix + tuple(label), len(label_prefix)):
+                    same_prefix.append(cp)
+
         # Iterate through characters matching the start of the label
         for char in same_prefix:
             rule_logger.debug("Char %s", format_cp(char.cp))
-- 
2.43.0


From e7028bf249a6b68f4464d0b77e0176fb8d9192d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 004/107] fix: index labels evaluate variant context rules on
 the right label after a sequence

---
 lgr/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index d0410c2..1c35add 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1362,12 +1362,13 @@ class LGR(object):
         logger.debug("Computing index label for partition: %s", chars)
         index_label = []
         prefix = tuple()
-        suffix = tuple(c for cp in chars[1:] for c in cp.cp)
+        suffix = tuple(c for cp in chars for c in cp.cp)
         idx = 0
         for char in chars:
             logger.debug('Char CP: %s', format_cp(char.cp))
             # Index: smallest id of the char and its variants
             ids = [list(char.cp)]
+            suffix = suffix[len(char):]
             for var in char.get_variants():
                 var_label = prefix + var.cp + suffix
                 logger.debug('Variant: %r', var)
@@ -1381,7 +1382,6 @@ class LGR(object):
             logger.debug('List of variant ids: %s', ids)
             index_label.extend(list(min(ids)))
             prefix += char.cp
-            suffix = suffix[len(char):]
             idx += len(char)
 
         logger.debug("Index label: '%s'", index_label)
-- 
2.43.0


From 3b4902fae39f97ac756f22ea1a7655237c1026db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 005/107] fix: deleting a range or part of it keeps tag classes
 and ranges consistent

---
 lgr/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 1c35add..df098ab 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -10,7 +10,7 @@ from collections import OrderedDict
 from io import StringIO
 
 from lgr.action import Action
-from lgr.char import CharSequence, Repertoire
+from lgr.char import CharSequence, RangeChar, Repertoire
 from lgr.classes import Class, TAG_CLASSNAME_PREFIX
 from lgr.exceptions import (LGRApiInvalidParameter,
                             CharAlreadyExists,
@@ -412,6 +412,9 @@ class LGR(object):
         cp_or_sequence = self._check_convert_cp(cp_or_sequence)
 
         char = self.repertoire.get_char(cp_or_sequence)
+        if isinstance(char, RangeChar):
+            # The range no longer covers all of its code points
+            self.expand_range(char.first_cp, char.last_cp)
         self.repertoire.del_char(cp_or_sequence)
         self._del_cp_from_tag_classes(cp_or_sequence, char.tags)
 
@@ -576,7 +579,10 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        tags = self.repertoire[first_cp].tags if first_cp in self.repertoire else []
         self.repertoire.del_range(first_cp, last_cp)
+        for cp in range(first_cp, last_cp + 1):
+            self._del_cp_from_tag_classes(cp, tags)
 
     def expand_ranges(self):
         """
-- 
2.43.0


From 3e1a3f6fd021d1c88b315fba60f09080349c64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 006/107] fix: forcing a range without any code point to insert
 does not fail

---
 lgr/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index df098ab..a909cab 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -2095,6 +2095,9 @@ class LGR(object):
         """
         logger.debug('Add code points to LGR %s', self)
 
+        if not codepoints:
+            return
+
         ranges = collapse_codepoints(codepoints)
         for (first_cp, last_cp) in ranges:
             if first_cp == last_cp:
-- 
2.43.0


From 2d416c1e39e4587d6d01064bcb1098ef2408cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 007/107] fix: deleting a reference or a tag deletes its
 repetitions too

---
 lgr/char.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index ba94f83..8f7ad9e 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -820,10 +820,11 @@ class Repertoire(object):
         """
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if ref_id in char.references:
+                # An invalid document may repeat a reference
+                while ref_id in char.references:
                     char.references.remove(ref_id)
                 for variant in char.get_variants():
-                    if ref_id in variant.references:
+                    while ref_id in variant.references:
                         variant.references.remove(ref_id)
 
     def del_tag(self, tag_id):
@@ -835,7 +836,8 @@ class Repertoire(object):
         """
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if tag_id in char.tags:
+                # An invalid document may repeat a tag
+                while tag_id in char.tags:
                     char.tags.remove(tag_id)
 
     def get_chars_from_prefix(self, cp, only_variants=False):
-- 
2.43.0


From 720e918332172b50290ae1d5a513984ea369a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 008/107] fix: adding a range over code points present outside
 of the validating repertoire is not done halfway

---
 lgr/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index a909cab..d724a7b 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -505,6 +505,15 @@ class LGR(object):
                                 status.__class__.__name__, format_cp(cp))
                 raise LGRException()
 
+        # The checks above may hide that a code point is already present
+        existing = {cp for cp in codepoints if cp in self.repertoire}
+        if existing:
+            logger.error("CP '%s' are already present in repertoire",
+                         format_cp(sorted(existing)))
+            if not force:
+                raise CharAlreadyExists([min(existing)])
+            codepoints = [cp for cp in codepoints if cp not in existing]
+
         # References handling
         references = []
         for ref_id in ref if ref is not None else []:
-- 
2.43.0


From 66a7c9dcffc399dc6c37482498e2e1a279669039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 009/107] fix: sequences sharing their first code point are
 listed in ascending order

---
 lgr/char.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/char.py b/lgr/char.py
index 8f7ad9e..6d42f2b 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -427,7 +427,7 @@ class Repertoire(object):
             if last_cp is not None and last_cp < index:
                 last_cp = None
 
-            for char in sorted(char_list, key=lambda c: len(c.cp)):
+            for char in sorted(char_list, key=lambda c: c.cp):
 
                 if isinstance(char, RangeChar):
                     if last_cp is not None:
-- 
2.43.0


From e38a977661d4ca2718d8aff90cef7da7acf20d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 010/107] fix: descriptions that do not fit in a CDATA section
 are serialized

---
 lgr/parser/xml_serializer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_serializer.py b/lgr/parser/xml_serializer.py
index 70c08ae..2dbd8f8 100644
--- a/lgr/parser/xml_serializer.py
+++ b/lgr/parser/xml_serializer.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import logging
 from lxml import etree
 
+from lgr import text_type
 from lgr.char import Char, CharSequence, RangeChar
 from lgr.utils import cp_to_str
 
@@ -51,6 +52,15 @@ def serialize_lgr_xml(lgr,
     :return: XML string or bytes depending on encoding.
     """
     root = serialize_lgr(lgr)
+
+    description = root.find('meta/description')
+    if description is not None and description.text and encoding not in (text_type, 'unicode'):
+        try:
+            description.text.encode(encoding or 'ascii')
+        except UnicodeEncodeError:
+            # Character references cannot be used in a CDATA section
+            description.text = description.text
+
     return etree.tostring(root,
                           pretty_print=pretty_print,
                           encoding=encoding,
@@ -100,7 +110,8 @@ def _serialize_meta(lgr, meta):
             node.attrib['type'] = metadata.description.description_type
 
         content = metadata.description.value
-        if metadata.description.description_type not in [None, 'text/plain']:
+        if content and ']]>' not in content \
+                and metadata.description.description_type not in [None, 'text/plain']:
             # Wrap content in CDATA section
             content = etree.CDATA(content)
         node.text = content
-- 
2.43.0


From 0923304206a58cbbeb6a16462a5e3e23b4bc7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 011/107] fix: empty metadata elements are handled like other
 invalid values

---
 lgr/metadata.py          | 4 ++--
 lgr/parser/xml_parser.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2097fa2..cce36a4 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -48,7 +48,7 @@ def _validate_date(date, force):
     """
 
     # Date should be date-fullyear "-" date-month "-" date-mday
-    date_elements = date.split('-')
+    date_elements = (date or '').split('-')
     if len(date_elements) == 3:
         try:
             date_elements = [int(d) for d in date_elements]
@@ -322,7 +322,7 @@ class Metadata(object):
                                     has an invalid format.
         """
 
-        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version) is None:
+        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version or '') is None:
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid Unicode version: '%s'", unicode_version)
             self.rfc7940_checks.error('valid_unicode_version')
diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 38d9ff6..56a6203 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -201,7 +201,7 @@ class XMLParser(LGRParser):
             elif tag == DESCRIPTION_TAG:
                 # Seems to be an issue with CDATA/iterparse: https://bugs.launchpad.net/lxml/+bug/1788449
                 # For now, manually replace CRLF with LF
-                metadata.description = Description(child.text.replace('\r\n', '\n'),
+                metadata.description = Description((child.text or '').replace('\r\n', '\n'),
                                                    child.get('type', None))
             elif tag == REFERENCES_TAG:
                 for reference in child:
-- 
2.43.0


From a96f7b9bf25b7e6702e756b8d1bde2f45786641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 012/107] fix: processing instructions in a document are
 skipped

---
 lgr/parser/xml_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 56a6203..eb9d1b1 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -101,10 +101,11 @@ class XMLParser(LGRParser):
     # Keep content intact, so do not strip CDATA section
     # (used in the <meta>/<description> element).
     # Do not resolve entities.
-    # Skip comment, as we do not care.
+    # Skip comments and processing instructions, as we do not care.
     PARSER_OPTIONS = {'resolve_entities': False,
                       'strip_cdata': False,
-                      'remove_comments': True}
+                      'remove_comments': True,
+                      'remove_pis': True}
 
     def __init__(self, *args, **kwargs):
         super(XMLParser, self).__init__(*args, **kwargs)
-- 
2.43.0


From 0c266438ec63d4c5fa8264a69a5435702cb0aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 013/107] fix: documents without the optional meta element are
 parsed

---
 lgr/parser/xml_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index eb9d1b1..d0dd993 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -143,6 +143,9 @@ class XMLParser(LGRParser):
                                   tag=META_TAG,
                                   **self.PARSER_OPTIONS)
         self._fast_iter(context)
+        if self._lgr is None:
+            # No "meta" element, which is optional
+            self._process_meta({})
         unicode_version = self._lgr.metadata.unicode_version
         self._lgr = None
 
@@ -495,7 +498,7 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
-            if not metadata_added and elem == DATA_TAG:
+            if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
                 # However, we still have to call _process_meta
@@ -504,6 +507,7 @@ class XMLParser(LGRParser):
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
+                metadata_added = True
             elif elem.tag == DATA_TAG:
                 logger.debug("Got 'data' element")
                 self._process_data(elem)
-- 
2.43.0


From aa9093b4fd8394539c261f652a5cd56f8ce1cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 014/107] fix: tolerant parsing keeps rules whose patterns
 cannot be calculated

---
 lgr/parser/xml_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index d0dd993..b928987 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -345,6 +345,15 @@ class XMLParser(LGRParser):
             elif child.tag == RULE_TAG:
                 rule = self._parse_rule(child)
                 self._lgr.add_rule(rule, force=self.force)
+                if self._unicode_database:
+                    try:
+                        rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup,
+                                                   self._unicode_database)
+                    except Exception as exc:
+                        # Invalid rule, kept as is if forced
+                        logger.warning("Cannot precalculate patterns of rule '%s': %s", rule.name, exc)
+                        if not self.force:
+                            raise
                 child = drop_ns(child)
                 self._lgr.rules_xml.append(etree.tostring(child, encoding=text_type))
             elif child.tag == ACTION_TAG:
@@ -371,10 +380,6 @@ class XMLParser(LGRParser):
 
         for child in elem:
             self._parse_rule_helper(child, rule)
-        
-        if self._unicode_database:
-            rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup,
-                                    self._unicode_database)
 
         return rule
 
-- 
2.43.0


From 3f147180f094beedc792eee97da44808b2572d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 015/107] fix: unknown elements in classes and data are
 reported and skipped

---
 lgr/parser/xml_parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index b928987..96b5621 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -325,6 +325,10 @@ class XMLParser(LGRParser):
                                  exc)
                     if not self.force:
                         raise
+            else:
+                logger.warning("Unhandled '%s' element in <data> section",
+                               child.tag)
+                self.rfc7940_checks.error('parse_xml')
 
             child.clear()
 
@@ -478,6 +482,10 @@ class XMLParser(LGRParser):
                 # No child, code point(s) defined in text
                 cls.add_codepoint(cp_or_sequence_from_class(elem))
             for child in elem:
+                if child.tag not in (CHAR_TAG, RANGE_TAG, CLASS_TAG):
+                    logger.warning("Unhandled '%s' element in <class> object", child.tag)
+                    self.rfc7940_checks.error('parse_xml')
+                    continue
                 cls.add_codepoint(cp_or_sequence_from_class(child))
         elif tag in COMBINATOR_TAGS:
             MAPPING = {
@@ -490,10 +498,11 @@ class XMLParser(LGRParser):
             cls = MAPPING[tag](name=name, comment=comment)
             # TODO: ensure number of children
             for child in elem:
+                if child.tag != CLASS_TAG and child.tag not in COMBINATOR_TAGS:
+                    logger.warning("Unhandled '%s' element in <class> object", child.tag)
+                    self.rfc7940_checks.error('parse_xml')
+                    continue
                 cls.add_child(self._parse_class(child))
-        else:
-            logger.warning("Unhandled '%s' element in <class> object", tag)
-            self.rfc7940_checks.error('parse_xml')
 
         return cls
 
-- 
2.43.0


From 86c2ec9430375cf26a07e78e416a86295bdd4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 016/107] fix: lists in attributes may be separated by several
 spaces

---
 lgr/parser/xml_parser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 96b5621..08d661c 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -578,12 +578,7 @@ def string_to_list(string):
     >>> string_to_list("one two") == ["one", "two"]
     True
     """
-    # This is because(''.split('') -> [''])
-    result = []
-    if len(string) > 0:
-        result = string.split(' ')
-
-    return result
+    return string.split()
 
 
 def drop_ns(node):
-- 
2.43.0


From 8521bfa8bdf722d5d6d4036b0a2cf77bd19edf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 017/107] fix: Unicode versions are checked up to their end

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index cce36a4..2fed597 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -322,7 +322,7 @@ class Metadata(object):
                                     has an invalid format.
         """
 
-        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version or '') is None:
+        if re.match(r'[0-9]+\.[0-9]+\.[0-9]+\Z', unicode_version or '') is None:
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid Unicode version: '%s'", unicode_version)
             self.rfc7940_checks.error('valid_unicode_version')
-- 
2.43.0


From bbfd1dd03cb811e6710d485a402fb86bf4fcee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 018/107] fix: validating a document from a stream does not
 consume it

---
 lgr/parser/xml_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 08d661c..2d25a82 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -118,6 +118,9 @@ class XMLParser(LGRParser):
         # Parse the XML file
         parser = etree.XMLParser(**self.PARSER_OPTIONS)
         doc = etree.parse(self.source, parser=parser)
+        if hasattr(self.source, "seek"):
+            # Let the document be parsed afterwards
+            self.source.seek(0)
 
         logger.debug("Validating document '%s' with RNG '%s'",
                      self.source, rng_schema_path)
-- 
2.43.0


From ae8be5208b290909e3039d8b4e0f909f7453b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 019/107] fix: tag classes are listed when a class has no name

---
 lgr/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index d724a7b..7cff757 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1520,7 +1520,7 @@ class LGR(object):
         prefix_len = len(TAG_CLASSNAME_PREFIX)
         out = {}
         for clsname, clz in self.classes_lookup.items():
-            if clsname.startswith(TAG_CLASSNAME_PREFIX):
+            if clsname and clsname.startswith(TAG_CLASSNAME_PREFIX):
                 out[clsname[prefix_len:]] = clz
         return out
 
-- 
2.43.0


From 4a6b1fbc79740a4313d694e963412db27ac8bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 020/107] fix: variants of an invalid character are not given
 to the previous one

---
 lgr/parser/rfc3743_parser.py | 1 +
 lgr/parser/rfc4290_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index d295f09..df2d25c 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -100,6 +100,7 @@ class RFC3743Parser(LGRParser):
                 self._lgr.add_cp(codepoints, ref=references, force=self.force)
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char, line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index b2a1fc5..6da34db 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -61,6 +61,7 @@ class RFC4290Parser(LGRParser):
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char,
                              line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
-- 
2.43.0


From a320f3d3fd3a1083a6c0729d4b1695a73f0155b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 021/107] fix: RFC3743 code points may be followed by a space

---
 lgr/parser/rfc3743_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index df2d25c..2ee785b 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -169,7 +169,7 @@ def parse_char(char):
     """
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
-        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split(' ')]
+        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
         references = match.group('references')
 
         ref_list = []
-- 
2.43.0


From 3bae255091abe6df2748091ad81d7b860fc49d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 022/107] fix: RFC3743 references and versions may have several
 digits

---
 lgr/parser/rfc3743_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index 2ee785b..fdfa89a 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -15,13 +15,13 @@ from lgr.utils import format_cp
 
 logger = logging.getLogger(__name__)
 
-REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
-VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
+REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d+)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
+VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
 
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
 # Try to support both.
-UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?')
+UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d+(,\d+)*)\))?')
 
 
 class RFC3743Parser(LGRParser):
-- 
2.43.0


From 430fde6eb5c23abd62e4943ca0ec889ebadbc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 023/107] fix: dates of RFC3743 tables are valid LGR dates

---
 lgr/parser/rfc3743_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index fdfa89a..175be07 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -16,7 +16,7 @@ from lgr.utils import format_cp
 logger = logging.getLogger(__name__)
 
 REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d+)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
-VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
+VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<year>\d{4})(?P<month>\d{2})(?P<day>\d{2})\s*(?:#\s*(?P<comment>.*))?')
 
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
@@ -72,13 +72,14 @@ class RFC3743Parser(LGRParser):
             version = VERSION_RE.match(line)
             if version is not None:
                 version_no = version.group('version_no')
-                date = version.group('date')
+                # RFC3743 dates are in the YYYYMMDD format, LGR ones are ISO 8601
+                date = '-'.join(version.group('year', 'month', 'day'))
                 comment = version.group('comment')
 
                 try:
                     self._lgr.metadata.version = Version(version_no,
                                                          comment=comment)
-                    self._lgr.metadata.date = date
+                    self._lgr.metadata.set_date(date)
                 except LGRException:
                     logger.error("Invalid version '%s' on line %d",
                                  line, line_num)
-- 
2.43.0


From b5f8b01d9cec057069e0b4fb5bea2b1e9d025124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 024/107] fix: streams may use any line separator

---
 lgr/parser/heuristic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index d8401e9..12c144c 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -67,7 +67,7 @@ class HeuristicParser(LGRParser):
             if not is_str:
                 if hasattr(rule_file, "seek"):
                     rule_file.seek(0)
-                return io.StringIO(rule_file.read().decode('utf-8'))
+                return io.StringIO(rule_file.read().decode('utf-8'), newline=None)
             if hasattr(self.source, "seek"):
                 self.source.seek(0)
             return self.source
-- 
2.43.0


From 4e85399359f7d7db37af875ab5cb51fc57bca2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 025/107] fix: parsers use the Unicode database set before the
 parsing

---
 lgr/parser/heuristic_parser.py | 1 +
 lgr/parser/parser.py           | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index 12c144c..8377391 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -105,6 +105,7 @@ class HeuristicParser(LGRParser):
         """
         self._find_parser(rule_file)
 
+        self.lgr_parser.unicode_database = self.unicode_database
         self._lgr = self.lgr_parser.parse_document()
 
     def _is_lgr(self, first_line):
diff --git a/lgr/parser/parser.py b/lgr/parser/parser.py
index 72eb127..8ecacb2 100644
--- a/lgr/parser/parser.py
+++ b/lgr/parser/parser.py
@@ -74,7 +74,8 @@ class LGRParser(object):
 
         :return: The LGR structure.
         """
-        self._lgr = LGR(name=self.filename, allow_invalid_property=self.allow_invalid_property)
+        self._lgr = LGR(name=self.filename, unicode_database=self._unicode_database,
+                        allow_invalid_property=self.allow_invalid_property)
 
         logger.debug('Start parsing of file: %s', self.filename)
 
-- 
2.43.0


From 03a07e56a9c18e66415bc2b39ab0606eb7cd2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 026/107] fix: the Unicode version may be asked before the
 parsing to the heuristic parser

---
 lgr/parser/heuristic_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index 8377391..deb94eb 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -27,17 +27,20 @@ class HeuristicParser(LGRParser):
         self.lgr_parser = None
 
     def unicode_version(self):
+        self._open_and_find_parser()
         return self.lgr_parser.unicode_version()
 
     def validate_document(self, schema=None):
+        self._open_and_find_parser()
+        return self.lgr_parser.validate_document(schema)
+
+    def _open_and_find_parser(self):
         if hasattr(self.source, "read"):
             self._find_parser(self.source)
         else:
             with io.open(self.source, 'r', encoding='utf-8') as rule_file:
                 self._find_parser(rule_file)
 
-        return self.lgr_parser.validate_document(schema)
-
     def _find_parser(self, rule_file):
         if self.lgr_parser:
             return
-- 
2.43.0


From 6f38970e4d9315b5e8527a5b325c48741492a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 027/107] fix: variants that are part of a range are populated

---
 lgr/populate/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/populate/__init__.py b/lgr/populate/__init__.py
index 044a6d1..83cd9d5 100644
--- a/lgr/populate/__init__.py
+++ b/lgr/populate/__init__.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 
 import logging
 
+from lgr.char import RangeChar
 from lgr.exceptions import NotInLGR
 from lgr.validate.symmetry import check_symmetry
 from lgr.validate.transitivity import check_transitivity
@@ -25,7 +26,10 @@ def populate_lgr(lgr):
     for a in lgr.repertoire:
         for b in a.get_variants():
             try:
-                lgr.get_variants(b.cp)
+                char = lgr.get_char(b.cp)
+                if isinstance(char, RangeChar):
+                    # code points of a range cannot have variants
+                    lgr.expand_range(char.first_cp, char.last_cp)
             except NotInLGR:
                 logger.info("Add missing code point '{}' in LGR as it is a variant of '{}'".format(
                     format_cp(b.cp), format_cp(a.cp)))
-- 
2.43.0


From 0c718ba972b8e41cb2660d35ad054e37c9014869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 028/107] fix: RFC7940 checks are only run on the validations
 that ask for them

---
 lgr/validate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/__init__.py b/lgr/validate/__init__.py
index abdbe7f..d408306 100644
--- a/lgr/validate/__init__.py
+++ b/lgr/validate/__init__.py
@@ -50,7 +50,7 @@ def validate_lgr(lgr, options):
 
     result = []
 
-    TO_RUN = CHECKS
+    TO_RUN = list(CHECKS)
     if options.get('rfc7940'):
         TO_RUN += RFC7940_CHECKS
 
-- 
2.43.0


From 5167b270f95446e0546201714e75679a49fe90eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 029/107] fix: RFC7940 data checks are run when a disposition
 is not standard

---
 lgr/validate/miscellaneous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 6af4988..54dae36 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -115,7 +115,8 @@ def check_miscellaneous(lgr, options):
         'repertoire': []
     }
 
-    success = check_lgr_rules(lgr) and check_lgr_data(lgr)
+    success = check_lgr_rules(lgr)
+    success = check_lgr_data(lgr) and success
 
     logger.info("Miscellaneous test done")
 
-- 
2.43.0


From 0f5178189725693239e538a04bcc89a3afd01686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 030/107] fix: the check of variant types is run on LGRs
 without single code points

---
 lgr/validate/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 54dae36..f86e046 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -36,7 +36,7 @@ def check_lgr_data(lgr):
                     logging.error("Bad variant type '%s'", t)
                     success = False
                     lgr.notify_error('data_variant_type')
-        lgr.notify_tested('data_variant_type')
+    lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
     unidb_version = lgr.unicode_database.get_unicode_version()
-- 
2.43.0


From 6f6c6aabca35939eb3b196480dea929241db82d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 031/107] fix: RFC7940 checks related to Unicode are skipped
 without Unicode database

---
 lgr/validate/miscellaneous.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index f86e046..de49b44 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -39,8 +39,11 @@ def check_lgr_data(lgr):
     lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
-    unidb_version = lgr.unicode_database.get_unicode_version()
-    if unidb_version == lgr.metadata.unicode_version:
+    unidb = lgr.unicode_database
+    unidb_version = unidb.get_unicode_version() if unidb is not None else None
+    if unidb is None:
+        logger.warning("No Unicode database, skip the check of code points")
+    elif unidb_version == lgr.metadata.unicode_version:
         lgr.notify_tested('valid_unicode_version')
         # First add all code points to the set "to_check"
         to_check = set()
-- 
2.43.0


From 791712e83b92e22895fb5e1bc42d5f3347f88aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 032/107] fix: an empty version is reported by the RFC7940
 checks

---
 lgr/validate/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index acb89d2..1445be4 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -74,7 +74,7 @@ def check_metadata(lgr, options):
 
     # Version
     if lgr.metadata.version is not None:
-        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value):
+        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value or ''):
             lgr.notify_error('metadata_version_integer')
             success = False
     lgr.notify_tested('metadata_version_integer')
-- 
2.43.0


From 46ea4e0ed4c919ab9eafa6180de7ec2a3b6582ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 033/107] fix: LGRs without Unicode database can be validated

---
 lgr/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 7cff757..636632a 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -2054,7 +2054,7 @@ class LGR(object):
         Given a code point or code point sequence, return if the code point is in
         one of the LGR's scripts and the code point script.
 
-        Assume the LGR has a proper unicode_database set.
+        If the LGR has no unicode_database, the check is skipped.
 
         :param codepoints: List of code points.
         :return: (in_script, cp_script) with:
@@ -2063,6 +2063,8 @@ class LGR(object):
         """
         in_script = True
         cp_scripts = set()
+        if self.unicode_database is None:
+            return in_script, cp_scripts
         lgr_scripts = self.metadata.get_scripts()
         for cp in codepoints:
             try:
-- 
2.43.0


From 027c345de0cbe1bb611168199b4dbd4541464054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 034/107] fix: collecting the log of a label leaves no log
 handler behind

---
 lgr/core.py | 125 ++++++++++++++++++++++++++--------------------------
 1 file changed, 63 insertions(+), 62 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 636632a..8a2dcbe 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import collections
 import logging
 from collections import OrderedDict
+from contextlib import contextmanager
 from io import StringIO
 
 from lgr.action import Action
@@ -76,6 +77,27 @@ MAX_NUMBER_GENERATED_VARIANTS = 1000
 PROTOCOL_LABEL_MAX_LENGTH = 63
 
 
+@contextmanager
+def collect_rule_log(level):
+    """
+    Redirect the logs of the processing of rules to a stream.
+
+    :param level: Minimum level of the logs, None if they are not collected.
+    :return: The stream.
+    """
+    log_output = StringIO()
+    if level is None:
+        yield log_output
+        return
+    ch = logging.StreamHandler(log_output)
+    ch.setLevel(level)
+    rule_logger.addHandler(ch)
+    try:
+        yield log_output
+    finally:
+        rule_logger.removeHandler(ch)
+
+
 class LGR(object):
     """
     The main LGR object.
@@ -1068,46 +1090,34 @@ class LGR(object):
         if not label:
             raise LGRApiInvalidParameter('label')
 
-        log_output = StringIO()
-        if collect_log:
-            # Configure log system to redirect logs to local attribute
-            ch = logging.StreamHandler(log_output)
-            ch.setLevel(logging.INFO)
-            rule_logger.addHandler(ch)
-
-        # Start by testing presence of code points in LGR
-        chars = []
-        if generate_chars:
-            (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        else:
-            (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        if not valid:
-            rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
-            if collect_log:
-                rule_logger.removeHandler(ch)
+        with collect_rule_log(logging.INFO if collect_log else None) as log_output:
+            # Start by testing presence of code points in LGR
+            chars = []
             if generate_chars:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
             else:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
-
-        # Compute label disposition by analyzing reflexive mappings
-        (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
-        if disposition == INVALID_DISPOSITION:
-            rule_logger.error("Invalid disposition for reflexive mapping, "
-                              "triggered by action #%d", action_idx)
-            if collect_log:
-                rule_logger.removeHandler(ch)
+                (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
+            if not valid:
+                rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
+                if generate_chars:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                else:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
+
+            # Compute label disposition by analyzing reflexive mappings
+            (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
+            if disposition == INVALID_DISPOSITION:
+                rule_logger.error("Invalid disposition for reflexive mapping, "
+                                  "triggered by action #%d", action_idx)
+                if generate_chars:
+                    return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                else:
+                    return False, [], [], disposition, action_idx, log_output.getvalue()
+
             if generate_chars:
-                return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                return True, label, [], disposition, action_idx, log_output.getvalue(), chars
             else:
-                return False, [], [], disposition, action_idx, log_output.getvalue()
-
-        if collect_log:
-            rule_logger.removeHandler(ch)
-        if generate_chars:
-            return True, label, [], disposition, action_idx, log_output.getvalue(), chars
-        else:
-            return True, label, [], disposition, action_idx, log_output.getvalue()
+                return True, label, [], disposition, action_idx, log_output.getvalue()
 
     def compute_label_disposition(self, label, include_invalid=False,
                                   collect_log=True, hide_mixed_script_variants=False,
@@ -1174,31 +1184,25 @@ class LGR(object):
             if with_labels and variant_cp not in with_labels:
                 continue
             already_handled.add(variant_cp)
-            # Configure log system to redirect logs to local attribute
-            log_output = StringIO()
-            if collect_log:
-                ch = logging.StreamHandler(log_output)
-                ch.setLevel(logging.DEBUG)
-                rule_logger.addHandler(ch)
-
-            # 8.3.  Determining a Disposition for a Label or Variant Label
-            # Step 1
-            eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
-                                                                                     is_variant=variant_cp != label,
-                                                                                     collect_log=collect_log)
-            if not eligible:
-                variant_disp = INVALID_DISPOSITION
-            else:
+            with collect_rule_log(logging.DEBUG if collect_log else None) as log_output:
                 # 8.3.  Determining a Disposition for a Label or Variant Label
-                # Step 2 - 3
-                (variant_disp, idx) = self._apply_actions(variant_cp,
-                                                          disp_set,
-                                                          only_variants)
-
-                if variant_disp is None:
+                # Step 1
+                eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
+                                                                                         is_variant=variant_cp != label,
+                                                                                         collect_log=collect_log)
+                if not eligible:
+                    variant_disp = INVALID_DISPOSITION
+                else:
                     # 8.3.  Determining a Disposition for a Label or Variant Label
-                    # Step 4
-                    variant_disp = DEFAULT_DISPOSITION
+                    # Step 2 - 3
+                    (variant_disp, idx) = self._apply_actions(variant_cp,
+                                                              disp_set,
+                                                              only_variants)
+
+                    if variant_disp is None:
+                        # 8.3.  Determining a Disposition for a Label or Variant Label
+                        # Step 4
+                        variant_disp = DEFAULT_DISPOSITION
 
             if (variant_disp != INVALID_DISPOSITION) or include_invalid:
                 if variant_cp == label:
@@ -1213,9 +1217,6 @@ class LGR(object):
                     else:
                         yield variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue()
 
-            if collect_log:
-                rule_logger.removeHandler(ch)
-
         if not original_label:
             # TODO: already computed since label MUST be eligible
             rule_logger.debug('Add original label')
-- 
2.43.0


From 6e0c14c6fed1f742300fd5738fab69f5b897dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 035/107] fix: log message on the scripts of a variant can be
 formatted

---
 lgr/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 8a2dcbe..4c84426 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1841,7 +1841,7 @@ class LGR(object):
 
                 if hide_mixed_script_variants:
                     if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
-                        rule_logger.debug("Variant script is eligible for non mixed-scripts", format_cp(var.cp))
+                        rule_logger.debug("Variant script %s is eligible for non mixed-scripts", format_cp(var.cp))
                         script_filter = mixed_script_filter.get_filter_for_other_script(
                             self.unicode_database.get_script(var.cp[0]))
                     elif not mixed_script_filter.cp_in_base_scripts(var.cp):
-- 
2.43.0


From 3497681ade4fb9dcb1356a86f00ade67dd753482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 036/107] fix: compare Unicode versions as numbers in union,
 intersection and merge

As strings, "6.3.0" is above "11.0.0".
---
 lgr/tools/compare/intersect.py |  4 ++--
 lgr/tools/compare/union.py     |  4 ++--
 lgr/tools/compare/utils.py     | 24 ++++++++++++++++++++++++
 lgr/tools/merge_set.py         |  4 ++--
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 3bbbc69..2c03a1e 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -99,7 +99,7 @@ def intersect_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_unicode_version)
 
     return output
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 887f53b..b10d9a4 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -108,7 +108,7 @@ def union_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_unicode_version)
 
     return output
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index ded6670..509503a 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -24,6 +24,30 @@ def display_variant(variant):
         variant.comment)
 
 
+def unicode_version_key(version):
+    """
+    Key to order Unicode versions (as strings, "6.3.0" is above "11.0.0").
+
+    :param version: The Unicode version, as a string.
+    :return: The numbers of the version.
+
+    >>> max("6.3.0", "11.0.0", key=unicode_version_key) == "11.0.0"
+    True
+    """
+    return [int(part) if part.isdigit() else -1 for part in version.split('.')]
+
+
+def latest_unicode_version(first, second):
+    """
+    Select the latest of two Unicode versions.
+
+    :param first: First version.
+    :param second: Second version.
+    :return: The latest version.
+    """
+    return max(first, second, key=unicode_version_key)
+
+
 def compare_objects(first, second, cmp_fct):
     """
     Compare two objects, possibly None.
diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 5982621..9b9bfc7 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -22,7 +22,7 @@ from collections import OrderedDict
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -122,7 +122,7 @@ def merge_metadata(lgr_set):
 
         output.unicode_version = compare_objects(output.unicode_version,
                                                  metadata.unicode_version,
-                                                 max)
+                                                 latest_unicode_version)
 
     output.scopes = list(scopes.keys())
     output.languages = list(languages.keys())
-- 
2.43.0


From 90ee5dbf04e39cff97d9dc834bcd235276dae9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 037/107] fix: union keeps the variants of the code points that
 are only in the first LGR

---
 lgr/tools/compare/union.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index b10d9a4..8f8f6e2 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -332,6 +332,11 @@ def union_lgrs(lgr1, lgr2):
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
+        for v in char.get_variants():
+            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
+                            when=v.when, not_when=v.not_when,
+                            comment=v.comment)
+
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
-- 
2.43.0


From 7b2f2e1ebd64d0e34d8d3b509d04409e2456c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 038/107] fix: union and intersection use the scopes of both
 LGRs

---
 lgr/tools/compare/intersect.py | 2 +-
 lgr/tools/compare/union.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 2c03a1e..5731b84 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -85,7 +85,7 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(first.scopes))
+    output.scopes = set.intersection(set(first.scopes), set(second.scopes))
     output.languages = set.intersection(set(first.languages),
                                         set(second.languages))
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 8f8f6e2..1e85108 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -94,7 +94,7 @@ def union_metadata(first, second):
         output.description = union_description(first.description,
                                                second.description)
 
-    output.scopes = set.union(set(first.scopes), set(first.scopes))
+    output.scopes = set.union(set(first.scopes), set(second.scopes))
     output.languages = set.union(set(first.languages),
                                  set(second.languages))
 
-- 
2.43.0


From f21f05e79d3719cbbe9426ff7df8ed552dc7e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 039/107] fix: union keeps the version and description that
 only the second LGR has

---
 lgr/tools/compare/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 1e85108..8e7b489 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -88,11 +88,9 @@ def union_metadata(first, second):
 
     output = Metadata()
 
-    if first.version is not None:
-        output.version = union_version(first.version, second.version)
-    if first.description is not None:
-        output.description = union_description(first.description,
-                                               second.description)
+    output.version = union_version(first.version, second.version)
+    output.description = union_description(first.description,
+                                           second.description)
 
     output.scopes = set.union(set(first.scopes), set(second.scopes))
     output.languages = set.union(set(first.languages),
-- 
2.43.0


From f8d71872a7dae2f0a42ca7f6bd1535a4626bee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 040/107] fix: union and intersection keep the context rule of
 a code point that both LGRs have

The code points without their rule were accepted in any context.
---
 lgr/tools/compare/intersect.py | 7 ++++++-
 lgr/tools/compare/union.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 5731b84..00b5243 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -135,7 +135,12 @@ def intersect_char(lgr, first, second):
 
     tags = list(set.intersection(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Keep the context rule when both LGRs agree on it
+    when = first.when if first.when == second.when else None
+    not_when = first.not_when if first.not_when == second.not_when else None
+
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=when, not_when=not_when)
 
     variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
     variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 8e7b489..05757d4 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -142,7 +142,12 @@ def union_char(lgr, first, second):
 
     tags = list(set.union(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Keep the context rule when both LGRs agree on it
+    when = first.when if first.when == second.when else None
+    not_when = first.not_when if first.not_when == second.not_when else None
+
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=when, not_when=not_when)
 
     for v in set.union(set(first.get_variants()), set(second.get_variants())):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
-- 
2.43.0


From c4ec138781c1b81ce9a078b4685a5a958bf4357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 041/107] fix: union and intersection keep the order of rules,
 classes, actions and metadata

The order came from sets, so it changed from run to run, actions lost their
precedence and rules could come before the rules they refer to. Rules and
actions that are the same are also recognized whatever the whitespaces after
them in the document.
---
 lgr/tools/compare/intersect.py | 32 ++++++-------
 lgr/tools/compare/union.py     | 84 +++++++++++++++-------------------
 lgr/tools/compare/utils.py     | 47 ++++++++++++++++++-
 3 files changed, 99 insertions(+), 64 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 00b5243..a7c6f47 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,8 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects, latest_unicode_version
+from lgr.tools.compare.utils import (compare_objects, latest_unicode_version,
+                                     ordered_intersection, same_definition)
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -85,9 +86,8 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(second.scopes))
-    output.languages = set.intersection(set(first.languages),
-                                        set(second.languages))
+    output.scopes = ordered_intersection(first.scopes, second.scopes)
+    output.languages = ordered_intersection(first.languages, second.languages)
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
@@ -112,12 +112,12 @@ def intersect_reference_manager(first, second):
     :param second: The other object to intersect with.
     :return: A new reference manager object.
     """
-    first_ref = {r['value'] for r in first.values()}
-    second_ref = {r['value'] for r in second.values()}
+    first_ref = [r['value'] for r in first.values()]
+    second_ref = [r['value'] for r in second.values()]
 
     output = ReferenceManager()
 
-    for ref in set.intersection(first_ref, second_ref):
+    for ref in ordered_intersection(first_ref, second_ref):
         output.add_reference(ref)
 
     return output
@@ -133,7 +133,7 @@ def intersect_char(lgr, first, second):
     """
     comment = let_user_choose(first.comment, second.comment)
 
-    tags = list(set.intersection(set(first.tags), set(second.tags)))
+    tags = ordered_intersection(first.tags, second.tags)
 
     # Keep the context rule when both LGRs agree on it
     when = first.when if first.when == second.when else None
@@ -142,10 +142,10 @@ def intersect_char(lgr, first, second):
     lgr.add_cp(first.cp, comment=comment, tag=tags,
                when=when, not_when=not_when)
 
-    variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
-    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
+    variant_first = [(v.cp, v.when, v.not_when) for v in first.get_variants()]
+    variant_second = [(v.cp, v.when, v.not_when) for v in second.get_variants()]
 
-    for v in set.intersection(variant_first, variant_second):
+    for v in ordered_intersection(variant_first, variant_second):
         lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
 
 
@@ -162,7 +162,7 @@ def intersect_actions(lgr1, lgr2):
     # Intersection of actions:
     # - keep same actions.
 
-    actions = list(set.intersection(set(lgr1.actions), set(lgr2.actions)))
+    actions = ordered_intersection(lgr1.actions, lgr2.actions)
     actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
 
     return actions, actions_xml
@@ -185,11 +185,11 @@ def intersect_rules(lgr1, lgr2):
     rules = []
     rules_xml = []
 
-    for rule_name in frozenset(lgr1.rules) & frozenset(lgr2.rules):
+    for rule_name in ordered_intersection(lgr1.rules, lgr2.rules):
         rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
         rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
 
-        if rule_1 == rule_2:
+        if same_definition(rule_1, rule_2):
             rules_xml.append(rule_1)
             rules.append(rule_name)
             continue
@@ -222,11 +222,11 @@ def intersect_classes(lgr1, lgr2):
 
     classes = []
     classes_xml = []
-    for class_name in frozenset(lgr1.classes) & frozenset(lgr2.classes):
+    for class_name in ordered_intersection(lgr1.classes, lgr2.classes):
         class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
         class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
 
-        if class_1 == class_2:
+        if same_definition(class_1, class_2):
             classes_xml.append(class_1)
             classes.append(class_name)
             continue
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 05757d4..9da7874 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -7,9 +7,9 @@ from __future__ import unicode_literals
 import copy
 import logging
 from datetime import date
-from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects, latest_unicode_version
+from lgr.tools.compare.utils import (compare_objects, latest_unicode_version,
+                                     ordered_union, same_definition)
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -92,9 +92,8 @@ def union_metadata(first, second):
     output.description = union_description(first.description,
                                            second.description)
 
-    output.scopes = set.union(set(first.scopes), set(second.scopes))
-    output.languages = set.union(set(first.languages),
-                                 set(second.languages))
+    output.scopes = ordered_union(first.scopes, second.scopes)
+    output.languages = ordered_union(first.languages, second.languages)
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
@@ -119,12 +118,12 @@ def union_reference_manager(first, second):
     :param second: The other object to union.
     :return: A new reference manager object.
     """
-    first_ref = {r['value'] for r in first.values()}
-    second_ref = {r['value'] for r in second.values()}
+    first_ref = [r['value'] for r in first.values()]
+    second_ref = [r['value'] for r in second.values()]
 
     output = ReferenceManager()
 
-    for ref in set.union(first_ref, second_ref):
+    for ref in ordered_union(first_ref, second_ref):
         output.add_reference(ref)
 
     return output
@@ -140,7 +139,7 @@ def union_char(lgr, first, second):
     """
     comment = let_user_choose(first.comment, second.comment)
 
-    tags = list(set.union(set(first.tags), set(second.tags)))
+    tags = ordered_union(first.tags, second.tags)
 
     # Keep the context rule when both LGRs agree on it
     when = first.when if first.when == second.when else None
@@ -149,7 +148,7 @@ def union_char(lgr, first, second):
     lgr.add_cp(first.cp, comment=comment, tag=tags,
                when=when, not_when=not_when)
 
-    for v in set.union(set(first.get_variants()), set(second.get_variants())):
+    for v in ordered_union(first.get_variants(), second.get_variants()):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
                         when=v.when, not_when=v.not_when,
                         comment=v.comment)
@@ -166,19 +165,15 @@ def union_actions(lgr1, lgr2):
     logger.debug("Union of actions")
 
     # Union of actions:
-    # Concat both action lists
-    # Need OrderedDict instead of sets to keep order
+    # Concat both action lists, keeping their order
 
-    actions = OrderedDict()
-    actions_xml = OrderedDict()
+    all_actions = lgr1.actions + lgr2.actions
+    all_actions_xml = lgr1.actions_xml + lgr2.actions_xml
 
-    actions.update(OrderedDict.fromkeys(lgr1.actions))
-    actions.update(OrderedDict.fromkeys(lgr2.actions))
+    actions = ordered_union(lgr1.actions, lgr2.actions)
+    actions_xml = [all_actions_xml[all_actions.index(a)] for a in actions]
 
-    actions_xml.update(OrderedDict.fromkeys(lgr1.actions_xml))
-    actions_xml.update(OrderedDict.fromkeys(lgr2.actions_xml))
-
-    return list(actions.keys()), list(actions_xml.keys())
+    return actions, actions_xml
 
 
 def union_rules(lgr1, lgr2):
@@ -199,15 +194,21 @@ def union_rules(lgr1, lgr2):
     rules = []
     rules_xml = []
 
-    rules_lgr1 = frozenset(lgr1.rules)
-    rules_lgr2 = frozenset(lgr2.rules)
+    # Rules can only refer to the rules defined before them: keep the order of both LGRs.
+    for rule_name in ordered_union(lgr1.rules, lgr2.rules):
+        if rule_name not in lgr2.rules:
+            rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
+            rules.append(rule_name)
+            continue
+        if rule_name not in lgr1.rules:
+            rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
+            rules.append(rule_name)
+            continue
 
-    # Compute intersection of rules
-    for rule_name in rules_lgr1 & rules_lgr2:
         rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
         rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
 
-        if rule_1 == rule_2:
+        if same_definition(rule_1, rule_2):
             rules_xml.append(rule_1)
             rules.append(rule_name)
             continue
@@ -221,14 +222,6 @@ def union_rules(lgr1, lgr2):
         rules.append(rule_name + '_1')
         rules.append(rule_name + '_2')
 
-    for rule_name in rules_lgr1 - rules_lgr2:
-        rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
-        rules.append(rule_name)
-
-    for rule_name in rules_lgr2 - rules_lgr1:
-        rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
-        rules.append(rule_name)
-
     return rules, rules_xml
 
 
@@ -250,15 +243,21 @@ def union_classes(lgr1, lgr2):
     classes = []
     classes_xml = []
 
-    classes_lgr1 = frozenset(lgr1.classes)
-    classes_lgr2 = frozenset(lgr2.classes)
+    # Classes can only refer to the classes defined before them: keep the order of both LGRs.
+    for class_name in ordered_union(lgr1.classes, lgr2.classes):
+        if class_name not in lgr2.classes:
+            classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
+            classes.append(class_name)
+            continue
+        if class_name not in lgr1.classes:
+            classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
+            classes.append(class_name)
+            continue
 
-    # Compute intersection of classes
-    for class_name in classes_lgr1 & classes_lgr2:
         class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
         class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
 
-        if class_1 == class_2:
+        if same_definition(class_1, class_2):
             classes_xml.append(class_1)
             classes.append(class_name)
             continue
@@ -272,15 +271,6 @@ def union_classes(lgr1, lgr2):
         classes.append(class_name + '_1')
         classes.append(class_name + '_2')
 
-    # Append all other classes
-    for class_name in classes_lgr1 - classes_lgr2:
-        classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
-        classes.append(class_name)
-
-    for class_name in classes_lgr2 - classes_lgr1:
-        classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
-        classes.append(class_name)
-
     return classes, classes_xml
 
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 509503a..bce6782 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,7 +2,7 @@
 """
 utils.py - Definition of utility functions.
 """
-from collections import namedtuple
+from collections import OrderedDict, namedtuple
 
 from lgr.utils import format_cp
 
@@ -24,6 +24,51 @@ def display_variant(variant):
         variant.comment)
 
 
+def ordered_union(first, second):
+    """
+    Union of two collections, keeping the order of their items.
+
+    :param first: First collection.
+    :param second: Second collection.
+    :return: List of the items of the first collection, then of the items that are only in the second one.
+
+    >>> ordered_union([3, 1], [2, 1])
+    [3, 1, 2]
+    """
+    return list(OrderedDict.fromkeys(list(first) + list(second)))
+
+
+def ordered_intersection(first, second):
+    """
+    Intersection of two collections, keeping the order of the first one.
+
+    :param first: First collection.
+    :param second: Second collection.
+    :return: List of the items that are in both collections.
+
+    >>> ordered_intersection([3, 1, 2], [2, 3])
+    [3, 2]
+    """
+    second = set(second)
+    return [item for item in OrderedDict.fromkeys(first) if item in second]
+
+
+def same_definition(first, second):
+    """
+    Compare the XML of two rules or classes.
+
+    The XML can be followed by the whitespaces that were after the element in the document.
+
+    :param first: XML of the first element.
+    :param second: XML of the second element.
+    :return: True if this is the same definition.
+
+    >>> same_definition('<class name="c">0061</class>', '<class name="c">0061</class>  ')
+    True
+    """
+    return first.strip() == second.strip()
+
+
 def unicode_version_key(version):
     """
     Key to order Unicode versions (as strings, "6.3.0" is above "11.0.0").
-- 
2.43.0


From a8a85dae612810c54eeac3369e8c703608db6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 042/107] fix: union and intersection rename rules and classes
 properly, with what refers to them

---
 lgr/tools/compare/intersect.py |  61 ++++++-----------
 lgr/tools/compare/union.py     |  64 +++---------------
 lgr/tools/compare/utils.py     | 119 +++++++++++++++++++++++++++++++++
 3 files changed, 152 insertions(+), 92 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index a7c6f47..32c7f1e 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -9,7 +9,8 @@ import logging
 from datetime import date
 
 from lgr.tools.compare.utils import (compare_objects, latest_unicode_version,
-                                     ordered_intersection, same_definition)
+                                     ordered_intersection, ordered_union,
+                                     resolve_conflicts)
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -168,77 +169,57 @@ def intersect_actions(lgr1, lgr2):
     return actions, actions_xml
 
 
-def intersect_rules(lgr1, lgr2):
+def intersect_rules(lgr1, lgr2, renamed=()):
     """
     Intersect two rule lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
+    :param renamed: Names of the rules renamed because they have different definitions.
     :return: (list of rules, list of XML rules)
     """
     logger.debug("Intersection of rules")
 
     # Intersection of rules:
     # - keep rules with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
+    # - append both elements to final LGR (already renamed using _1 and _2).
 
     rules = []
     rules_xml = []
 
-    for rule_name in ordered_intersection(lgr1.rules, lgr2.rules):
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if same_definition(rule_1, rule_2):
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
+    for rule_name in ordered_union(lgr1.rules, lgr2.rules):
+        if rule_name not in renamed and (rule_name not in lgr1.rules or rule_name not in lgr2.rules):
             continue
-
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
-
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
-
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
+        lgr = lgr1 if rule_name in lgr1.rules else lgr2
+        rules_xml.append(lgr.rules_xml[lgr.rules.index(rule_name)])
+        rules.append(rule_name)
 
     return rules, rules_xml
 
 
-def intersect_classes(lgr1, lgr2):
+def intersect_classes(lgr1, lgr2, renamed=()):
     """
     Intersect two class lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
+    :param renamed: Names of the classes renamed because they have different definitions.
     :return: (list of classes, list of XML classes)
     """
     logger.debug("Intersection of classes")
 
     # Intersection of classes:
     # - keep classes with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
+    # - append both elements to final LGR (already renamed using _1 and _2).
 
     classes = []
     classes_xml = []
-    for class_name in ordered_intersection(lgr1.classes, lgr2.classes):
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if same_definition(class_1, class_2):
-            classes_xml.append(class_1)
-            classes.append(class_name)
+    for class_name in ordered_union(lgr1.classes, lgr2.classes):
+        if class_name not in renamed and (class_name not in lgr1.classes or class_name not in lgr2.classes):
             continue
-
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
+        lgr = lgr1 if class_name in lgr1.classes else lgr2
+        classes_xml.append(lgr.classes_xml[lgr.classes.index(class_name)])
+        classes.append(class_name)
 
     return classes, classes_xml
 
@@ -258,6 +239,8 @@ def intersect_lgrs(lgr1, lgr2):
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
+    lgr1, lgr2, renamed_rules, renamed_classes = resolve_conflicts(lgr1, lgr2)
+
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
 
@@ -283,11 +266,11 @@ def intersect_lgrs(lgr1, lgr2):
     lgr.actions = copy.deepcopy(actions)
     lgr.actions_xml = actions_xml
 
-    (rules, rules_xml) = intersect_rules(lgr1, lgr2)
+    (rules, rules_xml) = intersect_rules(lgr1, lgr2, renamed_rules)
     lgr.rules = copy.deepcopy(rules)
     lgr.rules_xml = rules_xml
 
-    (classes, classes_xml) = intersect_classes(lgr1, lgr2)
+    (classes, classes_xml) = intersect_classes(lgr1, lgr2, renamed_classes)
     lgr.classes = copy.deepcopy(classes)
     lgr.classes_xml = classes_xml
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 9da7874..e41db3c 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 
 from lgr.tools.compare.utils import (compare_objects, latest_unicode_version,
-                                     ordered_union, same_definition)
+                                     ordered_union, resolve_conflicts)
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -189,38 +189,16 @@ def union_rules(lgr1, lgr2):
     # Union of rules:
     # - Keep rules from both LGRs.
     # - If rule with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
+    #   - Append both elements to final LGR (already renamed using _1 and _2).
 
     rules = []
     rules_xml = []
 
     # Rules can only refer to the rules defined before them: keep the order of both LGRs.
     for rule_name in ordered_union(lgr1.rules, lgr2.rules):
-        if rule_name not in lgr2.rules:
-            rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
-            rules.append(rule_name)
-            continue
-        if rule_name not in lgr1.rules:
-            rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
-            rules.append(rule_name)
-            continue
-
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if same_definition(rule_1, rule_2):
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
-            continue
-
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
-
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
-
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
+        lgr = lgr1 if rule_name in lgr1.rules else lgr2
+        rules_xml.append(lgr.rules_xml[lgr.rules.index(rule_name)])
+        rules.append(rule_name)
 
     return rules, rules_xml
 
@@ -238,38 +216,16 @@ def union_classes(lgr1, lgr2):
     # Union of classes:
     # - Keep classes from both LGRs.
     # - If class with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
+    #   - Append both elements to final LGR (already renamed using _1 and _2).
 
     classes = []
     classes_xml = []
 
     # Classes can only refer to the classes defined before them: keep the order of both LGRs.
     for class_name in ordered_union(lgr1.classes, lgr2.classes):
-        if class_name not in lgr2.classes:
-            classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
-            classes.append(class_name)
-            continue
-        if class_name not in lgr1.classes:
-            classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
-            classes.append(class_name)
-            continue
-
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if same_definition(class_1, class_2):
-            classes_xml.append(class_1)
-            classes.append(class_name)
-            continue
-
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
+        lgr = lgr1 if class_name in lgr1.classes else lgr2
+        classes_xml.append(lgr.classes_xml[lgr.classes.index(class_name)])
+        classes.append(class_name)
 
     return classes, classes_xml
 
@@ -291,6 +247,8 @@ def union_lgrs(lgr1, lgr2):
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
+    lgr1, lgr2, _, _ = resolve_conflicts(lgr1, lgr2)
+
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index bce6782..54fc2d1 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,8 +2,12 @@
 """
 utils.py - Definition of utility functions.
 """
+import copy
 from collections import OrderedDict, namedtuple
 
+from lxml import etree
+
+from lgr import text_type
 from lgr.utils import format_cp
 
 
@@ -69,6 +73,121 @@ def same_definition(first, second):
     return first.strip() == second.strip()
 
 
+def _definitions(lgr):
+    """
+    List the rules and classes of an LGR.
+
+    :param lgr: The LGR.
+    :return: Dictionary of XML strings, indexed by ('rule' or 'class', name).
+    """
+    definitions = {}
+    for kind, names, xmls in (('rule', lgr.rules, lgr.rules_xml), ('class', lgr.classes, lgr.classes_xml)):
+        definitions.update({(kind, name): xml for name, xml in zip(names, xmls) if name is not None})
+    return definitions
+
+
+def _kind(elem):
+    """
+    Get the kind of object defined by an element (or an element it refers to).
+    """
+    return 'rule' if elem.tag == 'rule' else 'class'
+
+
+def conflicting_definitions(lgr1, lgr2):
+    """
+    List the rules and classes that have the same name in both LGRs, but not the same definition.
+
+    This includes the ones that use a conflicting rule or class.
+
+    :param lgr1: First LGR.
+    :param lgr2: Second LGR.
+    :return: Set of ('rule' or 'class', name).
+    """
+    first, second = _definitions(lgr1), _definitions(lgr2)
+    common = set(first) & set(second)
+    conflicts = {key for key in common if not same_definition(first[key], second[key])}
+    used = {}
+    for key in common - conflicts:
+        root = etree.fromstring(first[key])
+        used[key] = {(_kind(elem), elem.get('by-ref')) for elem in root.iter(etree.Element)}
+
+    users = conflicts
+    while users:
+        users = {key for key in common - conflicts if used[key] & conflicts}
+        conflicts = conflicts | users
+    return conflicts
+
+
+def rename_definitions(lgr, renamed):
+    """
+    Copy an LGR with new names for some of its rules and classes.
+
+    :param lgr: The LGR.
+    :param renamed: Dictionary of new names, indexed by ('rule' or 'class', name).
+    :return: The copy.
+    """
+    lgr = copy.deepcopy(lgr)
+
+    def rename_rule(name):
+        return renamed.get(('rule', name), name)
+
+    def rename_xml(xml):
+        root = etree.fromstring(xml)
+        for elem in root.iter(etree.Element):
+            if elem.tag == 'action':
+                attributes = {'match': 'rule', 'not-match': 'rule'}
+            else:
+                attributes = {'name': _kind(elem), 'by-ref': _kind(elem)}
+            for attribute, kind in attributes.items():
+                if (kind, elem.get(attribute)) in renamed:
+                    elem.set(attribute, renamed[(kind, elem.get(attribute))])
+        return etree.tostring(root, encoding=text_type)
+
+    lgr.rules = [rename_rule(name) for name in lgr.rules]
+    lgr.classes = [renamed.get(('class', name), name) for name in lgr.classes]
+    lgr.rules_xml = [rename_xml(xml) for xml in lgr.rules_xml]
+    lgr.classes_xml = [rename_xml(xml) for xml in lgr.classes_xml]
+    lgr.actions_xml = [rename_xml(xml) for xml in lgr.actions_xml]
+    for action in lgr.actions:
+        action.match = rename_rule(action.match)
+        action.not_match = rename_rule(action.not_match)
+    for char in lgr.repertoire.all_repertoire():
+        for item in [char] + list(char.get_variants()):
+            item.when = rename_rule(item.when)
+            item.not_when = rename_rule(item.not_when)
+    return lgr
+
+
+def resolve_conflicts(lgr1, lgr2):
+    """
+    Rename the rules and classes with the same name but not the same definition.
+
+    They are suffixed with _1 and _2, as well as what refers to them.
+
+    :param lgr1: First LGR.
+    :param lgr2: Second LGR.
+    :return: (first LGR, second LGR, set of the names of renamed rules, set of the names of renamed classes).
+    """
+    conflicts = conflicting_definitions(lgr1, lgr2)
+    if not conflicts:
+        return lgr1, lgr2, set(), set()
+
+    existing = set(_definitions(lgr1)) | set(_definitions(lgr2))
+    res = []
+    names = {'rule': set(), 'class': set()}
+    for lgr, suffix in ((lgr1, '_1'), (lgr2, '_2')):
+        renamed = {}
+        for kind, name in sorted(conflicts):
+            new_name = name + suffix
+            while (kind, new_name) in existing:
+                new_name += suffix
+            existing.add((kind, new_name))
+            renamed[(kind, name)] = new_name
+            names[kind].add(new_name)
+        res.append(rename_definitions(lgr, renamed))
+    return res[0], res[1], names['rule'], names['class']
+
+
 def unicode_version_key(version):
     """
     Key to order Unicode versions (as strings, "6.3.0" is above "11.0.0").
-- 
2.43.0


From 4bd0b280b710a7c2910c410335765531f2203b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 043/107] fix: the union does not share its tags with the LGRs
 it comes from

---
 lgr/tools/compare/union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index e41db3c..cb4de92 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -280,7 +280,7 @@ def union_lgrs(lgr1, lgr2):
         lgr.add_cp(char.cp,
                    comment=char.comment,
                    #ref=char.references,
-                   tag=char.tags,
+                   tag=list(char.tags),
                    when=char.when, not_when=char.not_when)
 
         for v in char.get_variants():
@@ -294,7 +294,7 @@ def union_lgrs(lgr1, lgr2):
         lgr.add_cp(char.cp,
                    comment=char.comment,
                    #ref=char.references,
-                   tag=char.tags,
+                   tag=list(char.tags),
                    when=char.when, not_when=char.not_when)
 
         for v in char.get_variants():
-- 
2.43.0


From da50b0088be6f0d14ba237091d7bcc3625a73686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 044/107] fix: intersection keeps the type of the variants that
 both LGRs have

---
 lgr/tools/compare/intersect.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 32c7f1e..e9fa5c6 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -143,11 +143,13 @@ def intersect_char(lgr, first, second):
     lgr.add_cp(first.cp, comment=comment, tag=tags,
                when=when, not_when=not_when)
 
-    variant_first = [(v.cp, v.when, v.not_when) for v in first.get_variants()]
-    variant_second = [(v.cp, v.when, v.not_when) for v in second.get_variants()]
+    variant_second = {v: v.type for v in second.get_variants()}
 
-    for v in ordered_intersection(variant_first, variant_second):
-        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
+    for v in ordered_intersection(first.get_variants(), variant_second):
+        # Keep the type when both LGRs agree on it
+        variant_type = v.type if v.type == variant_second[v] else None
+        lgr.add_variant(first.cp, v.cp, variant_type=variant_type,
+                        when=v.when, not_when=v.not_when)
 
 
 def intersect_actions(lgr1, lgr2):
-- 
2.43.0


From d0e72bd216661001f355f1e42c04cf44794d16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 045/107] fix: rules, classes and actions of unions and
 intersections do not refer to references with other ids

---
 lgr/tools/compare/intersect.py |  6 +++++-
 lgr/tools/compare/union.py     |  6 +++++-
 lgr/tools/compare/utils.py     | 21 +++++++++++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index e9fa5c6..fd46d35 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,8 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import (compare_objects, latest_unicode_version,
+from lgr.tools.compare.utils import (compare_objects, drop_references,
+                                     latest_unicode_version,
                                      ordered_intersection, ordered_union,
                                      resolve_conflicts)
 
@@ -276,4 +277,7 @@ def intersect_lgrs(lgr1, lgr2):
     lgr.classes = copy.deepcopy(classes)
     lgr.classes_xml = classes_xml
 
+    # The references of the intersection have other ids
+    drop_references(lgr)
+
     return lgr
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index cb4de92..37fa193 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -8,7 +8,8 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import (compare_objects, latest_unicode_version,
+from lgr.tools.compare.utils import (compare_objects, drop_references,
+                                     latest_unicode_version,
                                      ordered_union, resolve_conflicts)
 
 from lgr.core import LGR
@@ -314,4 +315,7 @@ def union_lgrs(lgr1, lgr2):
     lgr.classes = classes
     lgr.classes_xml = classes_xml
 
+    # The references of the union have other ids
+    drop_references(lgr)
+
     return lgr
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 54fc2d1..a2547a0 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -188,6 +188,27 @@ def resolve_conflicts(lgr1, lgr2):
     return res[0], res[1], names['rule'], names['class']
 
 
+def drop_references(lgr):
+    """
+    Drop the references of the rules, classes and actions of an LGR.
+
+    To be used when the ids of its references are not the ones they were defined with.
+
+    :param lgr: The LGR.
+    """
+    def drop(xml):
+        root = etree.fromstring(xml)
+        for elem in root.iter(etree.Element):
+            elem.attrib.pop('ref', None)
+        return etree.tostring(root, encoding=text_type)
+
+    for action in lgr.actions:
+        action.references = []
+    lgr.actions_xml = [drop(xml) for xml in lgr.actions_xml]
+    lgr.rules_xml = [drop(xml) for xml in lgr.rules_xml]
+    lgr.classes_xml = [drop(xml) for xml in lgr.classes_xml]
+
+
 def unicode_version_key(version):
     """
     Key to order Unicode versions (as strings, "6.3.0" is above "11.0.0").
-- 
2.43.0


From f6c3c1b3dbad9ee274814b4d4be3e69344b6a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 046/107] fix: intersection keeps the rules and classes used by
 the renamed ones

---
 lgr/tools/compare/intersect.py | 18 +++++++++---------
 lgr/tools/compare/utils.py     | 32 +++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index fd46d35..ea10505 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -172,13 +172,13 @@ def intersect_actions(lgr1, lgr2):
     return actions, actions_xml
 
 
-def intersect_rules(lgr1, lgr2, renamed=()):
+def intersect_rules(lgr1, lgr2, kept=()):
     """
     Intersect two rule lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
-    :param renamed: Names of the rules renamed because they have different definitions.
+    :param kept: Names of the rules to keep because of the ones that were renamed.
     :return: (list of rules, list of XML rules)
     """
     logger.debug("Intersection of rules")
@@ -191,7 +191,7 @@ def intersect_rules(lgr1, lgr2, renamed=()):
     rules_xml = []
 
     for rule_name in ordered_union(lgr1.rules, lgr2.rules):
-        if rule_name not in renamed and (rule_name not in lgr1.rules or rule_name not in lgr2.rules):
+        if rule_name not in kept and (rule_name not in lgr1.rules or rule_name not in lgr2.rules):
             continue
         lgr = lgr1 if rule_name in lgr1.rules else lgr2
         rules_xml.append(lgr.rules_xml[lgr.rules.index(rule_name)])
@@ -200,13 +200,13 @@ def intersect_rules(lgr1, lgr2, renamed=()):
     return rules, rules_xml
 
 
-def intersect_classes(lgr1, lgr2, renamed=()):
+def intersect_classes(lgr1, lgr2, kept=()):
     """
     Intersect two class lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
-    :param renamed: Names of the classes renamed because they have different definitions.
+    :param kept: Names of the classes to keep because of the ones that were renamed.
     :return: (list of classes, list of XML classes)
     """
     logger.debug("Intersection of classes")
@@ -218,7 +218,7 @@ def intersect_classes(lgr1, lgr2, renamed=()):
     classes = []
     classes_xml = []
     for class_name in ordered_union(lgr1.classes, lgr2.classes):
-        if class_name not in renamed and (class_name not in lgr1.classes or class_name not in lgr2.classes):
+        if class_name not in kept and (class_name not in lgr1.classes or class_name not in lgr2.classes):
             continue
         lgr = lgr1 if class_name in lgr1.classes else lgr2
         classes_xml.append(lgr.classes_xml[lgr.classes.index(class_name)])
@@ -242,7 +242,7 @@ def intersect_lgrs(lgr1, lgr2):
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
-    lgr1, lgr2, renamed_rules, renamed_classes = resolve_conflicts(lgr1, lgr2)
+    lgr1, lgr2, kept_rules, kept_classes = resolve_conflicts(lgr1, lgr2)
 
     # Note: We need to create a copy (copy.deepcopy) for some elements
     # otherwise they could reference the original objects.
@@ -269,11 +269,11 @@ def intersect_lgrs(lgr1, lgr2):
     lgr.actions = copy.deepcopy(actions)
     lgr.actions_xml = actions_xml
 
-    (rules, rules_xml) = intersect_rules(lgr1, lgr2, renamed_rules)
+    (rules, rules_xml) = intersect_rules(lgr1, lgr2, kept_rules)
     lgr.rules = copy.deepcopy(rules)
     lgr.rules_xml = rules_xml
 
-    (classes, classes_xml) = intersect_classes(lgr1, lgr2, renamed_classes)
+    (classes, classes_xml) = intersect_classes(lgr1, lgr2, kept_classes)
     lgr.classes = copy.deepcopy(classes)
     lgr.classes_xml = classes_xml
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index a2547a0..49a8906 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -93,6 +93,17 @@ def _kind(elem):
     return 'rule' if elem.tag == 'rule' else 'class'
 
 
+def _used_definitions(xml):
+    """
+    List the rules and classes used by a rule or class.
+
+    :param xml: XML of the rule or class.
+    :return: Set of ('rule' or 'class', name).
+    """
+    root = etree.fromstring(xml)
+    return {(_kind(elem), elem.get('by-ref')) for elem in root.iter(etree.Element)}
+
+
 def conflicting_definitions(lgr1, lgr2):
     """
     List the rules and classes that have the same name in both LGRs, but not the same definition.
@@ -106,10 +117,7 @@ def conflicting_definitions(lgr1, lgr2):
     first, second = _definitions(lgr1), _definitions(lgr2)
     common = set(first) & set(second)
     conflicts = {key for key in common if not same_definition(first[key], second[key])}
-    used = {}
-    for key in common - conflicts:
-        root = etree.fromstring(first[key])
-        used[key] = {(_kind(elem), elem.get('by-ref')) for elem in root.iter(etree.Element)}
+    used = {key: _used_definitions(first[key]) for key in common - conflicts}
 
     users = conflicts
     while users:
@@ -166,7 +174,7 @@ def resolve_conflicts(lgr1, lgr2):
 
     :param lgr1: First LGR.
     :param lgr2: Second LGR.
-    :return: (first LGR, second LGR, set of the names of renamed rules, set of the names of renamed classes).
+    :return: (first LGR, second LGR, names of the rules and names of the classes to keep because of renaming).
     """
     conflicts = conflicting_definitions(lgr1, lgr2)
     if not conflicts:
@@ -183,8 +191,18 @@ def resolve_conflicts(lgr1, lgr2):
                 new_name += suffix
             existing.add((kind, new_name))
             renamed[(kind, name)] = new_name
-            names[kind].add(new_name)
-        res.append(rename_definitions(lgr, renamed))
+        lgr = rename_definitions(lgr, renamed)
+        res.append(lgr)
+        # They still need the rules and classes that they use
+        definitions = _definitions(lgr)
+        kept = {(kind, new_name) for (kind, _), new_name in renamed.items()}
+        todo = list(kept)
+        while todo:
+            used = (_used_definitions(definitions[todo.pop()]) & set(definitions)) - kept
+            kept |= used
+            todo += used
+        for kind, name in kept:
+            names[kind].add(name)
     return res[0], res[1], names['rule'], names['class']
 
 
-- 
2.43.0


From e59ac42a7c8251c37453c1b0e7faafe0ab832bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 047/107] fix: diff reports the context rules of code points

---
 lgr/tools/compare/diff.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index f6c5e81..b8ec2f1 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -215,11 +215,16 @@ def diff_char(first, second, show_same=True):
     variant_second = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in second.get_variants()}
 
     if not show_same and \
-                    first.comment == second.comment and first.tags == second.tags and variant_first == variant_second:
+                    first.comment == second.comment and first.tags == second.tags and variant_first == variant_second \
+                    and first.when == second.when and first.not_when == second.not_when:
         return output
 
     output += compare_things(first.comment, second.comment, "comment",
                              show_same=show_same)
+    output += compare_things(first.when, second.when, "when",
+                             show_same=show_same)
+    output += compare_things(first.not_when, second.not_when, "not-when",
+                             show_same=show_same)
     output += compare_things(first.tags, second.tags, "tags",
                              show_same=show_same)
 
-- 
2.43.0


From b2121cdfe921f92d470d1b32e8d70e14280f7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 048/107] fix: the diff does not depend on the hash seed of the
 process

---
 lgr/tools/compare/diff.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index b8ec2f1..1544945 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -20,9 +20,9 @@ def compare_sets(first, second, format_fct=text_type,
     :param show_same: Show common repertoire code points.
     :return: Text comparison.
     """
-    only_first = list(first - second)
-    only_second = list(second - first)
-    common = list(first & second)
+    only_first = sorted(first - second, key=text_type)
+    only_second = sorted(second - first, key=text_type)
+    common = sorted(first & second, key=text_type)
 
     if len(common) == 0:
         common = 'None'
@@ -69,7 +69,7 @@ Second LGR: '{}'.
 
     else:
         if show_same:
-            value = list(first) if is_set else first
+            value = sorted(first, key=text_type) if is_set else first
             return """
 Same {} value for both LGR: '{}'.""".format(name, format_fct(value))
         else:
@@ -318,7 +318,7 @@ def diff_lgrs(lgr1, lgr2, show_same=True):
 """
 
     identical = 0
-    for cp in set.intersection(first_cps, second_cps):
+    for cp in sorted(set.intersection(first_cps, second_cps)):
         char1 = lgr1.get_char(cp)
         char2 = lgr2.get_char(cp)
 
@@ -382,14 +382,14 @@ def diff_lgr_sets(lgr1, lgr2, lgr_set_1, lgr_set_2, show_same=True):
     output += out
 
     common_script = set(lgr_scripts_1.keys()) & set(lgr_scripts_2.keys())
-    for script in set(lgr_scripts_1.keys()) - set(lgr_scripts_2.keys()):
+    for script in sorted(set(lgr_scripts_1.keys()) - set(lgr_scripts_2.keys())):
         output += """
 Script '{script}' is available in LGR set '{set1}' with LGR '{lgrs}' but not in LGR set '{set2}'.
 
     """.format(script=script, set1=lgr1.name, set2=lgr2.name,
                lgrs="', '".join([lgr.name for lgr in lgr_scripts_1[script]]))
 
-    for script in set(lgr_scripts_2.keys()) - set(lgr_scripts_1.keys()):
+    for script in sorted(set(lgr_scripts_2.keys()) - set(lgr_scripts_1.keys())):
         output += """
 Script '{script}' is available in LGR set '{set2}' with LGR '{lgrs}' but not in LGR set '{set1}'.
 
@@ -400,7 +400,7 @@ Script '{script}' is available in LGR set '{set2}' with LGR '{lgrs}' but not in
     output += diff_metadata(lgr1.metadata, lgr2.metadata, is_set=True)
 
     # compare LGR having the same script from each set
-    for script in common_script:
+    for script in sorted(common_script):
         for l1 in lgr_scripts_1[script]:
             for l2 in lgr_scripts_2[script]:
                 # for each script, compare LGRs
-- 
2.43.0


From 363d68042d2966281bf60ac50893014f42342632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 049/107] fix: rules and classes are the same in two LGRs
 whatever the layout of their documents

---
 lgr/tools/compare/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 49a8906..0913a5e 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -57,11 +57,17 @@ def ordered_intersection(first, second):
     return [item for item in OrderedDict.fromkeys(first) if item in second]
 
 
-def same_definition(first, second):
+def _canonical(xml):
+    """
+    Get the canonical form of the XML of a rule, class or action, whatever the layout of the document.
     """
-    Compare the XML of two rules or classes.
+    parser = etree.XMLParser(remove_blank_text=True, remove_comments=True, remove_pis=True)
+    return etree.tostring(etree.fromstring(xml.strip(), parser), method='c14n')
+
 
-    The XML can be followed by the whitespaces that were after the element in the document.
+def same_definition(first, second):
+    """
+    Compare the XML of two rules, classes or actions.
 
     :param first: XML of the first element.
     :param second: XML of the second element.
@@ -69,8 +75,12 @@ def same_definition(first, second):
 
     >>> same_definition('<class name="c">0061</class>', '<class name="c">0061</class>  ')
     True
+    >>> same_definition('<rule name="r"><start/></rule>', '<rule name="r"> <start/> <!-- start --> </rule>')
+    True
+    >>> same_definition('<rule name="r"><start/></rule>', '<rule name="r"><end/></rule>')
+    False
     """
-    return first.strip() == second.strip()
+    return first.strip() == second.strip() or _canonical(first) == _canonical(second)
 
 
 def _definitions(lgr):
-- 
2.43.0


From 576491e7c42b8c2e13e90ba3065869fc94867282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 050/107] fix: diff reports the actions, and the rules and
 classes of the same name, that differ

---
 lgr/tools/compare/diff.py | 45 +++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 1544945..b83d120 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -5,7 +5,7 @@ diff.py - Compute (textual) diff of two LGRs.
 from __future__ import unicode_literals
 
 from lgr import text_type
-from lgr.tools.compare.utils import display_variant, VariantProperties
+from lgr.tools.compare.utils import display_variant, same_definition, VariantProperties
 from lgr.utils import format_cp
 
 
@@ -235,6 +235,27 @@ def diff_char(first, second, show_same=True):
     return output
 
 
+def diff_definitions(lgr1, lgr2, kind, kinds):
+    """
+    Diff the definitions of the rules (or classes) that have the same name.
+
+    :param lgr1: First LGR.
+    :param lgr2: Second LGR.
+    :param kind: What is compared.
+    :param kinds: Name of the lists of the LGR.
+    :return: Text comparison.
+    """
+    output = ''
+    first, second = (dict(zip(getattr(lgr, kinds), getattr(lgr, kinds + '_xml'))) for lgr in (lgr1, lgr2))
+    for name in first:
+        if name in second and not same_definition(first[name], second[name]):
+            output += """
+
+    + Compare {} {}""".format(kind, name)
+            output += compare_things(first[name].strip(), second[name].strip(), "definition")
+    return output
+
+
 def diff_actions(lgr1, lgr2, show_same=False):
     """
     Diff two action lists.
@@ -246,8 +267,16 @@ def diff_actions(lgr1, lgr2, show_same=False):
     """
     actions_1 = [a.disp for a in lgr1.actions]
     actions_2 = [a.disp for a in lgr2.actions]
-    return compare_things(set(actions_1), set(actions_2), "actions", True,
-                          show_same=show_same)
+    output = compare_things(set(actions_1), set(actions_2), "actions", True,
+                            show_same=show_same)
+
+    definitions_1 = [xml.strip() for xml in lgr1.actions_xml]
+    definitions_2 = [xml.strip() for xml in lgr2.actions_xml]
+    if len(definitions_1) != len(definitions_2) or \
+            not all(map(same_definition, definitions_1, definitions_2)):
+        output += compare_things(definitions_1, definitions_2, "action list", format_fct="\n".join)
+
+    return output
 
 
 def diff_rules(lgr1, lgr2, show_same=False):
@@ -259,8 +288,9 @@ def diff_rules(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    return compare_things(set(lgr1.rules), set(lgr2.rules), "rules", True,
-                          show_same=show_same)
+    output = compare_things(set(lgr1.rules), set(lgr2.rules), "rules", True,
+                            show_same=show_same)
+    return output + diff_definitions(lgr1, lgr2, "rule", "rules")
 
 
 def diff_classes(lgr1, lgr2, show_same=False):
@@ -272,8 +302,9 @@ def diff_classes(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    return compare_things(set(lgr1.classes), set(lgr2.classes), "classes", True,
-                          show_same=show_same)
+    output = compare_things(set(lgr1.classes), set(lgr2.classes), "classes", True,
+                            show_same=show_same)
+    return output + diff_definitions(lgr1, lgr2, "class", "classes")
 
 
 def diff_lgrs(lgr1, lgr2, show_same=True):
-- 
2.43.0


From 3ecb90e5a7a6673736c6765a83a319f66c46fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 051/107] fix: the variants of merged sets are transitive, and
 merging no longer fails or adds reflexive variants to get there

---
 lgr/tools/merge_set.py | 60 +++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 9b9bfc7..482ebbc 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -19,6 +19,7 @@ from io import BytesIO
 # OrderedDict is used in replacement for set in order to get OrderedSets
 from collections import OrderedDict
 
+from lgr.char import Variant
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
@@ -324,7 +325,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
     :param ref_mapping: The reference mapping from base LGR to new LGR
     :param previous_scripts: The scripts that has already been processed
     """
-    new_variants = []
+    bridging_cps = []
     merged_chars = {char: char for char in merged_lgr.repertoire}
     for char in lgr.repertoire:
         if len(char.cp) == 1 and lgr.unicode_database is not None:
@@ -346,23 +347,15 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
             # script 2, we need to set b as c variant and conversely). We do that after processing all code points
             # as the code point for the new variant may not be in the merged LGR in the current iteration.
-            new_v1 = set.difference(set(char.get_variants()), set(existing_char.get_variants()))
-            new_v2 = set.difference(set(existing_char.get_variants()), set(char.get_variants()))
-            # remove cp itself to avoid error with reflexive variants
-            for v in new_v1:
-                if v.cp == existing_char.cp:
-                    new_v1.remove(v)
-                    break
-            for v in new_v2:
-                if v.cp == existing_char.cp:
-                    new_v2.remove(v)
-                    break
-            if new_v1 and new_v2:
-                new_variants.append((new_v1, new_v2))
+            # reflexive variants do not matter here
+            variants_cp = set(v.cp for v in char.get_variants()) - {char.cp}
+            existing_variants_cp = set(v.cp for v in existing_char.get_variants()) - {char.cp}
+            if variants_cp - existing_variants_cp and existing_variants_cp - variants_cp:
+                bridging_cps.append(char.cp)
 
             # add new variants to current code point
-            # do not keep new_v1 as reflexive variant may have been removed
-            for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
+            existing_variants = set(existing_char.get_variants())
+            for v in char.get_variants():
                 new_ref = [ref_mapping[script].get(x, x) for x in v.references]
                 new_when = None
                 new_not_when = None
@@ -370,10 +363,12 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                     new_when = script + '-' + v.when
                 if v.not_when:
                     new_not_when = script + '-' + v.not_when
+                if Variant(v.cp, when=new_when, not_when=new_not_when) in existing_variants:
+                    # existing variants comment or references are not updated as it is not really important
+                    continue
                 merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked',
                                        when=new_when, not_when=new_not_when,
                                        comment=v.comment, ref=new_ref)
-                # existing variants comment or references are not updated as it is not really important
 
             # if when or not-when:
             #  - if existing cp has no concurrent rule or conversely, keep the rule as is (i.e. if existing cp has
@@ -440,13 +435,30 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                                    when=when, not_when=not_when)
 
     # handle transitivity for variants that differ between scripts
-    for var1_list, var2_list in new_variants:
-        for v1 in var1_list:
-            for v2 in var2_list:
-                merged_lgr.add_variant(v1.cp, v2.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
-                merged_lgr.add_variant(v2.cp, v1.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
+    for cp in bridging_cps:
+        variants_cps = get_linked_cps(merged_lgr, cp)
+        for first_cp in variants_cps:
+            existing_variants_cps = set(v.cp for v in merged_lgr.get_variants(first_cp))
+            for second_cp in variants_cps:
+                if second_cp != first_cp and second_cp not in existing_variants_cps:
+                    merged_lgr.add_variant(first_cp, second_cp, variant_type='blocked',
+                                           comment='New variant for merge to keep transitivity')
+
+
+def get_linked_cps(lgr, cp):
+    """
+    Get the code points or sequences linked by variants, whatever the number of steps.
+
+    :param lgr: The LGR
+    :param cp: The code point or sequence to start from
+    :return: List of code points or sequences of the LGR, with the given one
+    """
+    linked_cps = [cp]
+    for linked_cp in linked_cps:
+        for variant in lgr.get_variants(linked_cp):
+            if variant.cp not in linked_cps and variant.cp in lgr.repertoire:
+                linked_cps.append(variant.cp)
+    return linked_cps
 
 
 def merge_lgr_set(lgr_set, name):
-- 
2.43.0


From 7cc1e4e35a61b6d804950fa9faf72cbbffafa59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 052/107] fix: the elements of merged sets refer to the
 references they had in their LGR

---
 lgr/tools/merge_set.py | 51 +++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 482ebbc..60fea0b 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -158,6 +158,32 @@ def merge_references(lgr, script, merged_lgr, ref_mapping):
                     ref_mapping[script][ref_id] = inserted_references[ref]
 
 
+def map_references(references, script, ref_mapping):
+    """
+    Get the references of an element in the merged LGR.
+
+    :param references: The reference ids in the LGR
+    :param script:  The LGR script
+    :param ref_mapping: The reference id mapping from base LGR to LGR set
+    :return: The list of reference ids in the merged LGR
+    """
+    return list(OrderedDict.fromkeys(ref_mapping.get(script, {}).get(x, x) for x in references))
+
+
+def map_references_xml(xml, script, ref_mapping):
+    """
+    Replace the references in the XML of an action, rule or class, and of its children.
+
+    :param xml: The XML
+    :param script:  The LGR script
+    :param ref_mapping: The reference id mapping from base LGR to LGR set
+    :return: The updated XML
+    """
+    return re.sub(r'(?<![\w-])ref="([^"]+)"',
+                  lambda m: 'ref="{}"'.format(' '.join(map_references(m.group(1).split(), script, ref_mapping))),
+                  xml)
+
+
 def rename_action(action, action_xml, script):
     """
     Prefix action matches with script
@@ -205,9 +231,8 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         merged_action, merged_action_xml = rename_action(action, action_xml, script)
 
         # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
-        merged_action.references = new_ref
-        merged_action_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_action_xml)
+        merged_action.references = map_references(action.references, script, ref_mapping)
+        merged_action_xml = map_references_xml(merged_action_xml, script, ref_mapping)
 
         merged_lgr.actions.append(merged_action)
         merged_lgr.actions_xml.append(merged_action_xml)
@@ -262,9 +287,8 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
             # MSR-2
             continue
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
-        merged_rule_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_rule_xml)
+        # Replace references in XML
+        merged_rule_xml = map_references_xml(merged_rule_xml, script, ref_mapping)
 
         merged_lgr.rules.append(merged_rule_name)
         merged_lgr.rules_xml.append(merged_rule_xml)
@@ -307,9 +331,8 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         class_xml = lgr.classes_xml[lgr.classes.index(classe.name)]
         merged_class_name, merged_class_xml = rename_class(classe, class_xml, script)
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in classe.references]
-        merged_class_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_class_xml)
+        # Replace references in XML
+        merged_class_xml = map_references_xml(merged_class_xml, script, ref_mapping)
 
         merged_lgr.classes.append(merged_class_name)
         merged_lgr.classes_xml.append(merged_class_xml)
@@ -341,7 +364,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            existing_char.references = set.union(set(existing_char.references), set(char.references))
+            for ref_id in map_references(char.references, script, ref_mapping):
+                if ref_id not in existing_char.references:
+                    existing_char.references.append(ref_id)
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
@@ -356,7 +381,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # add new variants to current code point
             existing_variants = set(existing_char.get_variants())
             for v in char.get_variants():
-                new_ref = [ref_mapping[script].get(x, x) for x in v.references]
+                new_ref = map_references(v.references, script, ref_mapping)
                 new_when = None
                 new_not_when = None
                 if v.when:
@@ -417,7 +442,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         if char.not_when:
             not_when = script + '-' + char.not_when
 
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
+        new_ref = map_references(char.references, script, ref_mapping)
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
                           tag=list(new_tags),
                           when=when, not_when=not_when)
@@ -429,7 +454,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             if v.not_when:
                 not_when = script + '-' + v.not_when
 
-            new_ref = [ref_mapping[script].get(r, r) for r in v.references]
+            new_ref = map_references(v.references, script, ref_mapping)
             merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
                                    comment=v.comment, ref=new_ref,
                                    when=when, not_when=not_when)
-- 
2.43.0


From 561589c48972383b23c583666c4d487ec1e99f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 053/107] fix: merging sets prefixes the names of rules and
 nothing else in rules and actions

---
 lgr/tools/merge_set.py | 58 +++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 60fea0b..332bede 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -31,7 +31,7 @@ from lgr.utils import let_user_choose
 logger = logging.getLogger(__name__)
 
 MSR_2_RULES = ['leading-combining-mark']
-MSR_NEGATIVE_LOOK_AHEAD = r'(?!' + '|'.join(MSR_2_RULES) + r')'
+MSR_NEGATIVE_LOOK_AHEAD = r'(?!(?:' + '|'.join(MSR_2_RULES) + r')")'
 
 
 def get_script(lgr):
@@ -184,6 +184,37 @@ def map_references_xml(xml, script, ref_mapping):
                   xml)
 
 
+def prefix_rule_name(rule_name, script):
+    """
+    Get the name of a rule in the merged LGR
+
+    :param rule_name: The name of the rule in the LGR
+    :param script: The LGR script
+    :return: The name with the script as prefix, or 'Common-' for MSR rules
+    """
+    return ('Common' if rule_name in MSR_2_RULES else script) + '-' + rule_name
+
+
+def replace_attribute(xml, attribute, value, new_value):
+    """
+    Replace the value of an attribute
+
+    :param xml: The XML
+    :param attribute: The name of the attribute
+    :param value: The value to be replaced
+    :param new_value: The new value
+    :return: Updated XML
+
+    >>> replace_attribute('<action disp="valid" match="a"/>', 'match', 'a', 'fr-a')
+    '<action disp="valid" match="fr-a"/>'
+    >>> replace_attribute('<action disp="valid" not-match="a"/>', 'match', 'a', 'fr-a')
+    '<action disp="valid" not-match="a"/>'
+    """
+    return re.sub(r'(?<![\w-]){}="{}"'.format(attribute, re.escape(value)),
+                  lambda m: '{}="{}"'.format(attribute, new_value),
+                  xml)
+
+
 def rename_action(action, action_xml, script):
     """
     Prefix action matches with script
@@ -195,19 +226,11 @@ def rename_action(action, action_xml, script):
     """
     new_action = copy.deepcopy(action)
     if action.match:
-        if action.match not in MSR_2_RULES:
-            new_action.match = script + '-' + action.match
-        else:
-            # Prefix MSR action with 'Common-'
-            new_action.match = 'Common-' + action.match
-        action_xml = action_xml.replace(action.match, new_action.match)
+        new_action.match = prefix_rule_name(action.match, script)
+        action_xml = replace_attribute(action_xml, 'match', action.match, new_action.match)
     if action.not_match:
-        if action.not_match not in MSR_2_RULES:
-            new_action.not_match = script + '-' + action.not_match
-        else:
-            # Prefix MSR action with 'Common-'
-            new_action.not_match = 'Common-' + action.not_match
-        action_xml = action_xml.replace(action.not_match, new_action.not_match)
+        new_action.not_match = prefix_rule_name(action.not_match, script)
+        action_xml = replace_attribute(action_xml, 'not-match', action.not_match, new_action.not_match)
 
     return new_action, action_xml
 
@@ -247,13 +270,8 @@ def rename_rule(rule, rule_xml, script):
     :param script:  The LGR script
     :return: Updated rule name, updated rule XML
     """
-    if rule.name not in MSR_2_RULES:
-        new_rule_name = script + '-' + rule.name
-        rule_xml = re.sub(r'name="' + rule.name + '"', r'name="{}-{}"'.format(script, rule.name), rule_xml)
-    else:
-        # Prefix MSR rule with 'Common-'
-        new_rule_name = 'Common-' + rule.name
-    rule_xml = re.sub(r'name="' + rule.name + '"', r'name="' + new_rule_name + '"', rule_xml)
+    new_rule_name = prefix_rule_name(rule.name, script)
+    rule_xml = replace_attribute(rule_xml, 'name', rule.name, new_rule_name)
 
     # do not replace references in MSR Rules that keep unchanged
     # the following sub should replace all references in rules content, ignore tags with ':'
-- 
2.43.0


From 322d706a6e7a13d859fe21e7d1223699101a912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 054/107] fix: the context rules of merged sets are those of
 their LGRs, under their new names

---
 lgr/tools/merge_set.py | 88 ++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 332bede..3f73664 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -284,7 +284,7 @@ def rename_rule(rule, rule_xml, script):
     return new_rule_name, rule_xml
 
 
-def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
+def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None, specific_name=None):
     """
     Merge rules from LGR set.
 
@@ -293,6 +293,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
     :param merged_lgr: The merged LGR
     :param ref_mapping: The reference mapping from base LGR to new LGR
     :param specific: Merge only a specific rule
+    :param specific_name: Name of the specific rule in the merged LGR
     """
     logger.debug("Merge rules")
 
@@ -301,6 +302,9 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
             continue
         rule_xml = lgr.rules_xml[lgr.rules.index(rule.name)]
         merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, script)
+        if specific_name:
+            merged_rule_xml = replace_attribute(merged_rule_xml, 'name', merged_rule_name, specific_name)
+            merged_rule_name = specific_name
         if merged_rule_name in merged_lgr.rules:
             # MSR-2
             continue
@@ -356,6 +360,39 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         merged_lgr.classes_xml.append(merged_class_xml)
 
 
+def merge_context_rule(char, rule_name, existing_name, lgr, script, merged_lgr, ref_mapping, previous_scripts):
+    """
+    Merge the when or not-when rule of a char that is already in the merged LGR.
+
+    :param char: The char
+    :param rule_name: The rule of the char in the LGR, if any
+    :param existing_name: The rule of the char in the merged LGR, if any
+    :param lgr: The LGR from the set
+    :param script: The LGR script
+    :param merged_lgr: The merged LGR
+    :param ref_mapping: The reference mapping from base LGR to new LGR
+    :param previous_scripts: The scripts that has already been processed
+    :return: The rule of the char in the merged LGR
+    """
+    if not rule_name:
+        return existing_name
+    if not existing_name or existing_name == prefix_rule_name(rule_name, script):
+        return prefix_rule_name(rule_name, script)
+
+    # retrieve WLE name
+    base_name = existing_name
+    for other_script in reversed(previous_scripts):
+        if base_name.startswith(other_script + '-'):
+            base_name = base_name[len(other_script) + 1:]
+    if base_name != rule_name:
+        raise CharInvalidContextRule(char.cp, rule_name)
+
+    # add a merged rule
+    merged_name = script + '-' + existing_name
+    merge_rules(lgr, script, merged_lgr, ref_mapping, specific=rule_name, specific_name=merged_name)
+    return merged_name
+
+
 def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
     """
     Merge chars from LGR set.
@@ -403,9 +440,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                 new_when = None
                 new_not_when = None
                 if v.when:
-                    new_when = script + '-' + v.when
+                    new_when = prefix_rule_name(v.when, script)
                 if v.not_when:
-                    new_not_when = script + '-' + v.not_when
+                    new_not_when = prefix_rule_name(v.not_when, script)
                 if Variant(v.cp, when=new_when, not_when=new_not_when) in existing_variants:
                     # existing variants comment or references are not updated as it is not really important
                     continue
@@ -419,36 +456,10 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             #  - if existing cp has the same when/not-when rules (same name, content is not checked), update cp WLE with
             #    the prefix from this script
             #  - if existing cp has a different rule (not the same name), raise an exception
-            existing_when = existing_char.when
-            existing_not_when = existing_char.not_when
-            # retrieve WLE names
-            for other_script in reversed(previous_scripts):
-                if existing_char.when:
-                    existing_when = re.sub(r'^{}-'.format(other_script), '', existing_when)
-                if existing_char.not_when:
-                    existing_not_when = re.sub(r'^{}-'.format(other_script), '', existing_not_when)
-
-            if char.when:
-                if not existing_when:
-                    existing_char.when = script + '-' + char.when
-                elif existing_when == char.when:
-                    existing_char.when = script + '-' + existing_char.when
-                    # add a merged rule
-                    matching_script = re.sub(r'-{}$'.format(existing_when), '', existing_char.when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_when)
-                else:
-                    raise CharInvalidContextRule(char.cp, char.when)
-
-            if char.not_when:
-                if not existing_not_when:
-                    existing_char.not_when = script + '-' + char.not_when
-                elif existing_not_when == char.not_when:
-                    existing_char.not_when = script + '-' + existing_char.not_when
-                    # add a merged rule
-                    matching_script = re.sub(r'-{}$'.format(existing_not_when), '', existing_char.not_when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_not_when)
-                else:
-                    raise CharInvalidContextRule(char.cp, char.not_when)
+            existing_char.when = merge_context_rule(char, char.when, existing_char.when,
+                                                    lgr, script, merged_lgr, ref_mapping, previous_scripts)
+            existing_char.not_when = merge_context_rule(char, char.not_when, existing_char.not_when,
+                                                        lgr, script, merged_lgr, ref_mapping, previous_scripts)
 
             continue
 
@@ -456,9 +467,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         when = None
         not_when = None
         if char.when:
-            when = script + '-' + char.when
+            when = prefix_rule_name(char.when, script)
         if char.not_when:
-            not_when = script + '-' + char.not_when
+            not_when = prefix_rule_name(char.not_when, script)
 
         new_ref = map_references(char.references, script, ref_mapping)
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
@@ -468,9 +479,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             when = None
             not_when = None
             if v.when:
-                when = script + '-' + v.when
+                when = prefix_rule_name(v.when, script)
             if v.not_when:
-                not_when = script + '-' + v.not_when
+                not_when = prefix_rule_name(v.not_when, script)
 
             new_ref = map_references(v.references, script, ref_mapping)
             merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
@@ -531,9 +542,10 @@ def merge_lgr_set(lgr_set, name):
         lgr.expand_ranges()
 
         merge_references(lgr, script, merged_lgr, ref_mapping)
+        # rules merged for the code points of several LGRs come after the rules that they may use
+        merge_rules(lgr, script, merged_lgr, ref_mapping)
         merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
         merge_actions(lgr, script, merged_lgr, ref_mapping)
-        merge_rules(lgr, script, merged_lgr, ref_mapping)
         merge_classes(lgr, script, merged_lgr, ref_mapping)
         previous_scripts.append(script)
 
-- 
2.43.0


From dd5dbc878b0b9d2befad056a666b146c7fb2d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 055/107] fix: the order of the tags of merged sets does not
 depend on the hash seed of the process

---
 lgr/tools/merge_set.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 3f73664..dc7bc92 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -23,7 +23,7 @@ from lgr.char import Variant
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects, latest_unicode_version
+from lgr.tools.compare.utils import compare_objects, latest_unicode_version, ordered_union
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -410,7 +410,9 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             script_extensions = lgr.unicode_database.get_script_extensions(char.cp[0])
         else:
             script_extensions = []
-        new_tags = set(script + '-' + x if ':' not in x else x for x in char.tags) | set(script_extensions)
+        # keep an order that does not depend on the process
+        new_tags = list(OrderedDict.fromkeys([script + '-' + x if ':' not in x else x for x in char.tags]
+                                             + sorted(script_extensions)))
         existing_char = None
         if char in merged_chars:
             existing_char = merged_chars[char]
@@ -418,7 +420,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         if existing_char:
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
-            existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
+            existing_char.tags = ordered_union(existing_char.tags, new_tags)
             for ref_id in map_references(char.references, script, ref_mapping):
                 if ref_id not in existing_char.references:
                     existing_char.references.append(ref_id)
@@ -473,7 +475,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
 
         new_ref = map_references(char.references, script, ref_mapping)
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
-                          tag=list(new_tags),
+                          tag=new_tags,
                           when=when, not_when=not_when)
         for v in char.get_variants():
             when = None
-- 
2.43.0


From 144d21efb8e31c792386444fc8153ef96f43e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 056/107] fix: merging a code point with a when rule in an LGR
 and a not-when rule in another one is an error, as documented

---
 lgr/tools/merge_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index dc7bc92..c7ee2a7 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -462,6 +462,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                                                     lgr, script, merged_lgr, ref_mapping, previous_scripts)
             existing_char.not_when = merge_context_rule(char, char.not_when, existing_char.not_when,
                                                         lgr, script, merged_lgr, ref_mapping, previous_scripts)
+            if existing_char.when and existing_char.not_when:
+                raise CharInvalidContextRule(char.cp)
 
             continue
 
-- 
2.43.0


From 324e9390a08579352a2f668aa4ad0a486137a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 057/107] fix: the Unicode version of a merged set is the
 latest one of its LGRs

---
 lgr/tools/merge_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index c7ee2a7..d7af5ab 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -106,6 +106,8 @@ def merge_metadata(lgr_set):
 
     output = Metadata()
 
+    # the version of the set is not the default one of a new LGR
+    output.unicode_version = None
     output.version = merge_version(lgr_set)
     output.description = merge_description(lgr_set)
 
-- 
2.43.0


From 9867317c4df429bf383d809c16453a800d7b3506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 058/107] fix: harmonized LGRs that have a version comment are
 marked as harmonized in it

---
 lgr/tools/harmonize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/harmonize.py b/lgr/tools/harmonize.py
index f7ca2ff..192c8d1 100644
--- a/lgr/tools/harmonize.py
+++ b/lgr/tools/harmonize.py
@@ -37,7 +37,10 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
 
     for lgr in (h_lgr_1, h_lgr_2):
         if lgr.metadata.version is not None:
-            lgr.metadata.version.comment = lgr.metadata.version.comment or '' + ' - Harmonized'
+            comment = lgr.metadata.version.comment or ''
+            # LGRs are also harmonized with the Rootzone LGR: only mark them once
+            if not comment.endswith(' - Harmonized'):
+                lgr.metadata.version.comment = comment + ' - Harmonized'
 
     # New variants from RZ-LGR - harmonize each of the LGR with the RZ-LGR for the given script
     if rz_lgr is not None:
-- 
2.43.0


From 07f014b4be731fc47e6f73275754c7673b0113e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 059/107] fix: collisions of three labels or more are not
 displayed permuted again

---
 lgr/tools/diff_collisions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8785e83..b06c72c 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -266,12 +266,10 @@ def _get_new_variants(new_labels, old_labels):
 
 def dump_collisions(colliding1, cb, colliding2=None, **kwargs):
     idx = 0
-    list2 = colliding2
     for l1 in colliding1:
         idx += 1
-        if list2 is None:
-            # do not display the same collision permuted
-            list2 = colliding1[idx:]
+        # do not display the same collision permuted
+        list2 = colliding1[idx:] if colliding2 is None else colliding2
         for l2 in list2:
             if l1 != l2:
                 yield cb(l1, l2, **kwargs)
-- 
2.43.0


From 6912e1607e3d7cf098301a11322fe21f4189ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 060/107] fix: collisions with a label that is also a TLD are
 told as collisions with an existing TLD

---
 lgr/tools/diff_collisions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index b06c72c..0d752bc 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -287,8 +287,8 @@ def _write_complete_output(labels, label_indexes, tlds=None):
                      "Category:    \t{label_cat:{len}} | {variant_cat}" +
                      MD)
 
-    def print_collision(label, variant):
-        return output_labels.format(col='existing TLDs' if TLD in [label['cat'], variant['cat']] else 'input file',
+    def print_collision(label, variant, col='input file'):
+        return output_labels.format(col=col,
                                     label="%s" % label['bidi'],
                                     variant="%s" % variant['bidi'],
                                     label_cp="[%s]" % label['cp_out'],
@@ -313,7 +313,8 @@ def _write_complete_output(labels, label_indexes, tlds=None):
                 yield col
 
         if colliding_tlds:
-            for col in dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds):
+            for col in dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds,
+                                       col='existing TLDs'):
                 yield col
 
     if not collided:
-- 
2.43.0


From 729b5e0b37b397731fe5f5740f0e91ab67f00486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 061/107] fix: simple collisions can be computed without TLDs

---
 lgr/tools/diff_collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 0d752bc..7ca5019 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -544,7 +544,7 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
         else:
             label_errors.append("{}: {}".format(label, error))
 
-    tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
+    tlds, errors = _read_tlds(tlds_input or [], lgr.unicode_database)
     for err in errors:
         yield err
 
-- 
2.43.0


From b0ab7018c8181ca4e4de7e9b9f7d8291f8661ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 062/107] fix: labels of a file can be annotated in simple
 collisions

---
 lgr/tools/diff_collisions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 7ca5019..00c911a 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -531,8 +531,10 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
     from lgr.tools.annotate import annotate
 
     if with_annotations:
+        # labels are read twice
+        labels_input = list(labels_input)
         yield "# Validity #\n\n"
-        for res in annotate(lgr, deepcopy(labels_input)):
+        for res in annotate(lgr, labels_input):
             yield res
         yield "\n"
 
-- 
2.43.0


From 74c32fbf63fcd8b57d85903e9710c9d4dc75e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 063/107] fix: annotation tells the first action when it makes
 a label invalid

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 6247d92..b4982e9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -13,7 +13,7 @@ logger = logging.getLogger(__name__)
 
 def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
     yield "%s: %s\n" % (label, disp)
-    if not eligible and action_idx > 0:
+    if not eligible and action_idx >= 0:
         yield " Rule %s: %s\n" % (action_idx, lgr.effective_actions[action_idx])
     for cp_not_in_lgr, rules in label_invalid_parts:
         yield " Code point {cp} {reason}\n".format(
-- 
2.43.0


From 3b6d84f64152e27ad421b2b6b0f5b31696bf4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 064/107] fix: labels are not annotated with the collisions of
 the set labels among themselves

---
 lgr/tools/annotate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index b4982e9..94f5b10 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -81,8 +81,9 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 # with any existing delegated labels (and any of their variants, whether blocked or allocatable).
                 if label in filtered_set:
                     collision = 'Label is in the LGR set labels'
-                indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
-                if len(indexes) > 0:
+                # set labels may collide among themselves: only consider the collisions of the label
+                indexes = get_collisions(lgr, filtered_set + [label], quiet=True)
+                if any(l['label'] == label for labels in indexes.values() for l in labels):
                     collision = 'Label collides with the LGR set labels'
 
             out = disp
-- 
2.43.0


From 94bc1e7efd4222b7db72c097bf9fc90752e3d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 065/107] fix: annotation against a set tells the action of the
 LGR of the script that made the label invalid

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 94f5b10..837446c 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -91,5 +91,5 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 # TODO do we need to change disp to invalid???
                 out = '{} - {}'.format(disp, collision)
 
-            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, out, action_idx):
+            for l in _out_valid_label(script_lgr, label, eligible, label_invalid_parts, out, action_idx):
                 yield l
-- 
2.43.0


From ebb6c5aa9f9660a7e4818057db212b0d7162844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 066/107] fix: references given as integers are stored as
 strings, as their ids are, and removed

---
 lgr/core.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 4c84426..c6e7367 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -245,7 +245,7 @@ class LGR(object):
         :param ref_id:
         :raises ReferenceNotDefined: if the ref_id is not defined.
         """
-        self.repertoire.del_reference(ref_id)
+        self.repertoire.del_reference(str(ref_id))
         self.reference_manager.del_reference(ref_id)
 
     def del_tag(self, tag_id):
@@ -339,7 +339,8 @@ class LGR(object):
         references = []
         for ref_id in ref if ref is not None else []:
             if ref_id in self.reference_manager:
-                references.append(ref_id)
+                # Reference ids are stored as strings
+                references.append(str(ref_id))
             else:
                 logger.warning("Reference id '%s' for code point '%s' "
                                "is not defined",
@@ -540,7 +541,8 @@ class LGR(object):
         references = []
         for ref_id in ref if ref is not None else []:
             if ref_id in self.reference_manager:
-                references.append(ref_id)
+                # Reference ids are stored as strings
+                references.append(str(ref_id))
             else:
                 logger.warning("Reference id '%s' for range '%s-%s' "
                                "is not defined",
@@ -743,7 +745,8 @@ class LGR(object):
         references = []
         for ref_id in ref if ref is not None else []:
             if ref_id in self.reference_manager:
-                references.append(ref_id)
+                # Reference ids are stored as strings
+                references.append(str(ref_id))
             else:
                 logger.warning("Reference id '%s' for "
                                "variant '%s' of code point '%s' "
-- 
2.43.0


From 39a3feec7bd2ee04aff927ab4514a79420a694f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 067/107] fix: reference ids cannot end with a new line

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2fed597..198892d 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -348,7 +348,7 @@ class ReferenceManager(OrderedDict):
     so if no ref_id is given, generate one int-based id, converted to string.
     """
 
-    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]*$'
+    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]*\Z'
 
     def __init__(self, *args, **kwargs):
         super(ReferenceManager, self).__init__(*args, **kwargs)
-- 
2.43.0


From dc47d2488fffe35ea9d36e43df6d3203ec3b8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 068/107] fix: generated reference ids are not negative

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 198892d..7b0b050 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -451,7 +451,7 @@ class ReferenceManager(OrderedDict):
         # Update next id if needed - only for int-based ids
         try:
             ref_id = int(ref_id)
-            if ref_id < self.next_id:
+            if 0 <= ref_id < self.next_id:
                 self.next_id = ref_id
         except ValueError:
             pass
-- 
2.43.0


From 093f227a8f4942ee0cdeadfb482dd5c32e4bbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 069/107] fix: labels with kana after a Common and a Han
 character are in the Jpan script

---
 lgr/tools/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 2473c9a..e0f8338 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -288,19 +288,12 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
         return None
 
     script = unidb.get_script(label[0], alpha4=True)
+    other_characters = iter(label[1:])
 
-    if script == 'Hani':
-        script = 'Hani'
-        # We keep looking on the other characters to determine if the script can be Jpan.
-        for character in label[1:]:
-            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
-                script = 'Jpan'
-                break
-
-    elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
+    if script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
         # Since the first character is from the Common or Inherited
         # scripts, we keep looking to see if the rest match another one.
-        for character in label[1:]:
+        for character in other_characters:
             script = unidb.get_script(character, alpha4=True)
             if script not in [COMMON_SCRIPT, INHERITED_SCRIPT]:
                 break
@@ -311,6 +304,13 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
             # of Jpan.
             script = 'Jpan'
 
+    if script == 'Hani':
+        # We keep looking on the other characters to determine if the script can be Jpan.
+        for character in other_characters:
+            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
+                script = 'Jpan'
+                break
+
     if script in ['Hira', 'Kana']:
         script = 'Jpan'
     elif script == 'Hang':
-- 
2.43.0


From 0e7782f5bfa783fca1079dc61debe5eb99b4e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 070/107] fix: signs, underscores and non-ASCII digits are not
 hexadecimal code points

---
 lgr/tools/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index e0f8338..50e47fa 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -119,11 +119,12 @@ def parse_single_cp_input(s):
         # unicode char
         return ord(s)
     else:
-        if s[:2].upper() == 'U+':
-            # U+XXXX
-            v = int(s[2:], 16)
-        else:
-            v = int(s, 16)
+        # U+XXXX or XXXX
+        digits = s[2:] if s[:2].upper() == 'U+' else s
+        if re.match(r'(0[xX])?[0-9A-Fa-f]+\Z', digits) is None:
+            # int() also accepts signs, underscores and non-ASCII digits
+            raise ValueError("invalid literal for int() with base 16: '{}'".format(digits))
+        v = int(digits, 16)
 
         # check bounds
         if v < 0 or v > 0x10FFFF:
-- 
2.43.0


From b8745fef72fc3b5126eb6158fb1546a7408ac0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 071/107] fix: Common and Inherited code points do not make a
 variant mixed-scripts

---
 lgr/mixed_scripts_variant_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index c6a2ed2..49ab01d 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -28,6 +28,9 @@ def get_permitted_scripts(base_scripts: Set[str]):
 
 
 class BaseMixedScriptsVariantFilter:
+    # Code points of these scripts are used with any script, they don't make a label mixed-scripts
+    IGNORED_SCRIPTS = {'Common', 'Inherited'}
+
     def __init__(self, unidb: UnicodeDatabase) -> None:
         super().__init__()
         self.unidb = unidb
@@ -36,7 +39,7 @@ class BaseMixedScriptsVariantFilter:
     def cp_in_scripts(self, cp: Tuple[ord], scripts) -> bool:
         for char in cp:
             script = self.unidb.get_script(char)
-            if script not in scripts:
+            if script not in scripts and script not in self.IGNORED_SCRIPTS:
                 return False
         return True
 
@@ -48,7 +51,6 @@ class BaseMixedScriptsVariantFilter:
 
 
 class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
-    IGNORED_SCRIPTS = {'Common', 'Inherited'}
 
     def __init__(self, label: Tuple[int], repertoire: Repertoire, unidb: UnicodeDatabase) -> None:
         super().__init__(unidb)
-- 
2.43.0


From b4db8a7f00c1aad549f6ffec2ab3f60b040bc58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 072/107] fix: keep the variants of a label that are in a
 single other script

---
 lgr/core.py                         | 39 ++++++++++----------
 lgr/mixed_scripts_variant_filter.py | 56 +++++++++++++++--------------
 2 files changed, 51 insertions(+), 44 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index c6e7367..103a2b2 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1774,9 +1774,7 @@ class LGR(object):
 
         # current `label` will be consumed by recursion,
         # so need to save the original.
-        first_call = False
         if orig_label is None:
-            first_call = True
             orig_label = label
         if label_prefix is None:
             label_prefix = tuple()
@@ -1786,7 +1784,18 @@ class LGR(object):
             return
 
         if hide_mixed_script_variants and not mixed_script_filter:
-            mixed_script_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
+            # A variant is kept if it can be used with the scripts of the label or with one of the other scripts
+            label_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
+            handled_filters = []
+            for script_filter in [label_filter] + [label_filter.get_filter_for_other_script(script)
+                                                   for script in sorted(label_filter.other_scripts)]:
+                for variant in self._generate_label_variants(label,
+                                                             mixed_script_filter=script_filter,
+                                                             hide_mixed_script_variants=True):
+                    if not any(f.cp_in_base_scripts(variant[0]) for f in handled_filters):
+                        yield variant
+                handled_filters.append(script_filter)
+            return
 
         try:
             same_prefix = self._get_prefix_list(label, label_prefix)
@@ -1833,7 +1842,6 @@ class LGR(object):
             char_perms = []
 
             for var in char.get_variants():
-                script_filter: BaseMixedScriptsVariantFilter = mixed_script_filter
                 rule_logger.debug("Variant %s", format_cp(var.cp))
 
                 # Generate variant label:
@@ -1842,14 +1850,9 @@ class LGR(object):
                 # the variant code point from the label.
                 variant_label = label_prefix + var.cp + tuple(label[len(char):])
 
-                if hide_mixed_script_variants:
-                    if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
-                        rule_logger.debug("Variant script %s is eligible for non mixed-scripts", format_cp(var.cp))
-                        script_filter = mixed_script_filter.get_filter_for_other_script(
-                            self.unicode_database.get_script(var.cp[0]))
-                    elif not mixed_script_filter.cp_in_base_scripts(var.cp):
-                        rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
-                        continue
+                if hide_mixed_script_variants and not mixed_script_filter.cp_in_base_scripts(var.cp):
+                    rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
+                    continue
                 # Test when/not-when rules - Use variant label
                 if not self._test_context_rules(var,
                                                 variant_label,
@@ -1865,7 +1868,7 @@ class LGR(object):
 
                 if var.cp == char.cp:
                     has_reflexive_mapping = True
-                char_perms.append((var, var_disp, True, script_filter))
+                char_perms.append((var, var_disp, True))
 
             # Add original code point in permutation list
             # ONLY if the character has no defined reflexive mapping.
@@ -1877,12 +1880,12 @@ class LGR(object):
             # is applied to any of the permuted labels containing
             # the original code point.
             # Also ignore char that are not part of the label in the current script if required
-            if not has_reflexive_mapping and (not hide_mixed_script_variants or first_call or
+            if not has_reflexive_mapping and (not hide_mixed_script_variants or
                                               mixed_script_filter.cp_in_base_scripts(char.cp)):
-                char_perms.insert(0, (char, frozenset(), False, mixed_script_filter))
+                char_perms.insert(0, (char, frozenset(), False))
 
             if len(label) > len(char):
-                for (char_perm, disp, is_variant, script_filter) in char_perms:
+                for (char_perm, disp, is_variant) in char_perms:
                     # Generate variants for reminder of label
                     for (perm_cps, perm_disp, perm_only_variants, perm_chars) in \
                             self._generate_label_variants(label[len(char):],
@@ -1890,7 +1893,7 @@ class LGR(object):
                                                           label_prefix + char_perm.cp,
                                                           # Mark if prefix is part of a variant
                                                           is_variant | has_variant,
-                                                          mixed_script_filter=script_filter,
+                                                          mixed_script_filter=mixed_script_filter,
                                                           hide_mixed_script_variants=hide_mixed_script_variants):
                         yield (char_perm.cp + perm_cps,
                                # Construct new set of types
@@ -1903,7 +1906,7 @@ class LGR(object):
                 #          or orig_label != label_prefix + char.cp
                 #      in order to include the original label in output in case the last char has no variants which
                 #      won't be the case without this condition
-                for (char_perm, disp, is_variant, chars) in char_perms:
+                for (char_perm, disp, is_variant) in char_perms:
                     yield char_perm.cp, disp, is_variant, [char_perm]
 
     def _apply_actions(self, label, disp_set, only_variants):
diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index 49ab01d..1cda1e4 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -1,9 +1,9 @@
-from typing import Set, Tuple
+from typing import List, Set, Tuple
 
 from lgr.exceptions import NotInLGR
 from munidata.database import UnicodeDatabase
 
-from lgr.char import Repertoire
+from lgr.char import CharBase, Repertoire
 
 
 def get_permitted_scripts(base_scripts: Set[str]):
@@ -81,32 +81,36 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         :param repertoire: The LGR repertoire
         :return: A set of scripts to keep for computation when filtering cross-script variants.
         """
-        scripts = None
-        current_label = label
-
-        for c in label:
-            scripts_for_char = set()
+        # The chars of the repertoire that may start at each position of the label
+        # (none for a code point that is only found in a sequence)
+        chars_by_position = []
+        for idx, c in enumerate(label):
             try:
-                chars_from_prefix = repertoire.get_chars_from_prefix(c, only_variants=True)
+                chars_from_prefix = repertoire.get_chars_from_prefix(c)
             except NotInLGR:
-                # may be a code point from a sequence
-                continue
-            for char in chars_from_prefix:
-                # Ensure prefix is valid for label
-                if not char.is_prefix_of(current_label):
-                    continue
+                chars_from_prefix = []
+            chars_by_position.append([char for char in chars_from_prefix if char.is_prefix_of(label[idx:])])
 
-                for v in char.get_variants():
-                    for cp in v.cp:
-                        scripts_for_char.add(self.unidb.get_script(cp))
+        scripts_by_char = {char.cp: self._get_scripts_for_char(char) for chars in chars_by_position for char in chars}
+        all_scripts = {script for scripts in scripts_by_char.values() for s in scripts for script in s}
 
-            scripts_for_char -= self.IGNORED_SCRIPTS
-            if scripts is None:
-                scripts = set(scripts_for_char)
-            else:
-                scripts.intersection_update(scripts_for_char)
-            current_label = current_label[1:]
+        # The scripts in which the label can be written from each position to its end
+        remaining_scripts = {len(label): all_scripts}
+        for idx in reversed(range(len(label))):
+            for char in chars_by_position[idx]:
+                if idx + len(char) not in remaining_scripts:
+                    continue
+                scripts = set()
+                for s in scripts_by_char[char.cp]:
+                    # Code points with ignored scripts only can be used with any script
+                    scripts |= s or all_scripts
+                remaining_scripts.setdefault(idx, set()).update(scripts & remaining_scripts[idx + len(char)])
 
-        if scripts is None:
-            return set()
-        return scripts - self.base_scripts
+        return remaining_scripts.get(0, set()) - self.base_scripts
+
+    def _get_scripts_for_char(self, char: CharBase) -> List[Set[str]]:
+        """
+        Get the scripts used by a char and by each of its variants, except the ignored ones.
+        """
+        return [{self.unidb.get_script(c) for c in cp} - self.IGNORED_SCRIPTS
+                for cp in [char.cp] + [v.cp for v in char.get_variants()]]
-- 
2.43.0


From b1ed40f3a1beea8908db1ea408a533b380082c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 073/107] fix: count the code points of any script in the
 estimation of single script variants

---
 lgr/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 103a2b2..92ca993 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1297,7 +1297,8 @@ class LGR(object):
                 other_script_number = 1
                 for char in chars:
                     other_script_number *= len(
-                        [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_scripts(v.cp, {script})]
+                        [cp for cp in [v.cp for v in vars_excl_reflexive(char)] + [char.cp]
+                         if mixed_script_filter.cp_in_scripts(cp, {script})]
                     )
                 variant_number += other_script_number
         else:
-- 
2.43.0


From 77d16ec3ace361717c20fd6026f9f5c7c44bb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 074/107] fix: code point ranges of an empty list or of one
 with duplicates

---
 lgr/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/utils.py b/lgr/utils.py
index 4893154..fc26eef 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -125,7 +125,9 @@ def collapse_codepoints(codepoints):
     """
     result = []
     # Sort list
-    codepoints = sorted(codepoints)
+    codepoints = sorted(set(codepoints))
+    if not codepoints:
+        return result
     first_cp = codepoints[0]
     last_cp = codepoints[0]
     for cp in codepoints[1:]:
-- 
2.43.0


From 977bdaea36bc69d1f3e86540befeff5ac7a61267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 075/107] fix: the code points of a sequence in the text of a
 rule keep their order

---
 lgr/matcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/matcher.py b/lgr/matcher.py
index cf19e9a..d5b91d7 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -7,7 +7,7 @@ from __future__ import unicode_literals
 import logging
 
 from lgr.exceptions import LGRFormatException
-from lgr.utils import format_cp_collapsed
+from lgr.utils import format_cp
 from lgr.core import PROTOCOL_LABEL_MAX_LENGTH
 
 logger = logging.getLogger(__name__)
@@ -377,9 +377,9 @@ class CharMatcher(CountMatcher):
     def __str__(self):
         count = CountMatcher.get_pattern(self)
         if len(count) > 1:
-            return '({}){}'.format(format_cp_collapsed(self.cp_or_sequence), count)
+            return '({}){}'.format(format_cp(self.cp_or_sequence), count)
 
-        return format_cp_collapsed(self.cp_or_sequence)
+        return format_cp(self.cp_or_sequence)
 
     def __repr__(self):
         count = super(CharMatcher, self).get_pattern()
-- 
2.43.0


From b199b4e210b7223d37db5e15cc2c885e593be063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 076/107] fix: comparison of versions, scopes and descriptions
 with something else

---
 lgr/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 7b0b050..678b0bb 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -92,6 +92,8 @@ class Version(object):
     __str__ = __unicode__
 
     def __eq__(self, other):
+        if not isinstance(other, Version):
+            return NotImplemented
         return (self.value == other.value) \
                and (self.comment == other.comment)
 
@@ -113,6 +115,8 @@ class Scope(object):
     __str__ = __unicode__
 
     def __eq__(self, other):
+        if not isinstance(other, Scope):
+            return NotImplemented
         return (self.value == other.value) \
                and (self.scope_type == other.scope_type)
 
@@ -141,6 +145,8 @@ class Description(object):
         self.description_type = description_type
 
     def __eq__(self, other):
+        if not isinstance(other, Description):
+            return NotImplemented
         return (self.value == other.value) \
                and (self.description_type == other.description_type)
 
-- 
2.43.0


From a1dfbb3974e484abe394cf4938cd18516170f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 077/107] fix: tools without the libs option can parse a LGR

---
 lgr/tools/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 50e47fa..77a0ae8 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -424,7 +424,8 @@ class LgrToolArgParser(argparse.ArgumentParser):
     def get_unidb(self):
         if not self.args:
             self.parse_args()
-        if self.args.libs and not self.unidb:
+        # not all tools have the libs option
+        if getattr(self.args, 'libs', None) and not self.unidb:
             libpath, i18n_libpath, libver = self.args.libs.split('#')
             manager = UnicodeDataVersionManager()
             self.unidb = manager.register(None, libpath, i18n_libpath, libver)
-- 
2.43.0


From 31a55bb32f7b858f5c2dbc0e7aced97a10e509f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 078/107] fix: lgr_merge_set prints XML

---
 tools/lgr_merge_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_merge_set.py b/tools/lgr_merge_set.py
index c403dd9..baf02b0 100755
--- a/tools/lgr_merge_set.py
+++ b/tools/lgr_merge_set.py
@@ -35,7 +35,7 @@ def main():
     merged_lgr, _ = merge_lgrs(args.lgr_set, name=args.name, rng=args.rng, unidb=parser.get_unidb())
     if not merged_lgr:
         return
-    print(serialize_lgr_xml(merged_lgr, pretty_print=True))
+    print(serialize_lgr_xml(merged_lgr, pretty_print=True, encoding='unicode', xml_declaration=False))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 5c7d6ae6d9126a759f4e35decef55bb7ccee7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 079/107] fix: lgr_cli shows the first default action as a
 default action

---
 tools/lgr_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_cli.py b/tools/lgr_cli.py
index c09c2fb..90e54be 100755
--- a/tools/lgr_cli.py
+++ b/tools/lgr_cli.py
@@ -26,7 +26,7 @@ def check_label(lgr, label, invalid, test):
     (eligible, label_parts, label_invalid_parts, disp, action_idx, logs) = lgr.test_label_eligible(label_cp)
     logger.info("- Eligible: %s", eligible)
     logger.info("- Disposition: %s", disp)
-    is_default_action = action_idx > len(lgr.actions)
+    is_default_action = action_idx >= len(lgr.actions)
     actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
     action_name = "DefaultAction" if is_default_action else "Action"
     logger.info("- Action triggered: %s[%d]", action_name, actual_index)
@@ -54,7 +54,7 @@ def check_label(lgr, label, invalid, test):
                                                            "not in repertoire" if rules is None else ','.join(rules))
                                       for cp, rules in variant_invalid_parts)))
 
-            is_default_action = action_idx > len(lgr.actions)
+            is_default_action = action_idx >= len(lgr.actions)
             actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
             action_name = "DefaultAction" if is_default_action else "Action"
             logger.info("\t- Action triggered: %s[%d]", action_name, actual_index)
-- 
2.43.0


From a5004389249df21c7c590f23361074d23c853e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 080/107] fix: lgr_idn_table_review skips the LGRs that it
 cannot parse

---
 tools/lgr_idn_table_review.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/lgr_idn_table_review.py b/tools/lgr_idn_table_review.py
index ed8f2b0..c5eb159 100755
--- a/tools/lgr_idn_table_review.py
+++ b/tools/lgr_idn_table_review.py
@@ -44,6 +44,7 @@ def main():
         ref_lgr = parse_lgr(reference_lgr_file, args.rng, unidb)
         if not ref_lgr:
             logger.error("Cannot parse LGR file %s, skip it", reference_lgr_file)
+            continue
         reference_lgrs.append(ref_lgr)
 
     idn_tables = []
@@ -52,6 +53,7 @@ def main():
         lgr = parse_lgr(idn_table, args.rng, unidb)
         if not lgr:
             logger.error("Cannot parse LGR file %s, skip it", idn_table)
+            continue
         idn_tables.append(lgr)
 
     os.makedirs(args.output, exist_ok=True)
-- 
2.43.0


From 816ed5f378f73705b4c513055607fe799056dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 081/107] fix: lgr_collision declares its libs option once

---
 tools/lgr_collision.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/lgr_collision.py b/tools/lgr_collision.py
index cbc9e16..a04ea72 100755
--- a/tools/lgr_collision.py
+++ b/tools/lgr_collision.py
@@ -35,8 +35,6 @@ def main():
     parser.add_common_args()
     parser.add_argument('-g', '--generate', action='store_true',
                         help='Generate variants')
-    parser.add_argument('-l', '--libs', metavar='LIBS',
-                        help='ICU libraries', required=True)
     parser.add_argument('-s', '--set', metavar='SET FILE',
                         help='Filepath to the set of reference labels',
                         required=True)
-- 
2.43.0


From f2f006027ca522d66f500986dd3a024c9d51fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 082/107] fix: lgr_collision goes on after a label that is not
 in the LGR

---
 tools/lgr_collision.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/lgr_collision.py b/tools/lgr_collision.py
index a04ea72..7da0873 100755
--- a/tools/lgr_collision.py
+++ b/tools/lgr_collision.py
@@ -67,7 +67,11 @@ def main():
         write_output("Check label '%s'" % label)
         label_cp = tuple([ord(c) for c in label])
         label_disp = format_cp(label_cp)
-        label_index = compute_label_index(lgr, label_cp)
+        try:
+            label_index = compute_label_index(lgr, label_cp)
+        except NotInLGR:
+            write_output("Label %s [%s] is not in LGR" % (label, label_disp))
+            continue
 
         if label_index in ref_label_indexes:
             ref_label_cp = ref_label_indexes[label_index]
-- 
2.43.0


From 7833b0b3bbb27edc553e44eae3a7e3674cfd9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 083/107] fix: lgr_validate generates variants

---
 tools/lgr_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 44b99d1..1ba4187 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -84,7 +84,7 @@ def check_label(lgr, label, generate_variants=False, merged_lgr=None, set_labels
         if generate_variants:
             write_output("Variants:")
             summary, labels = lgr.compute_label_disposition_summary(label_cp)
-            for (variant_cp, var_disp, _, _, _) in labels:
+            for (variant_cp, var_disp, _, _, _, _) in labels:
                 variant_u = cp_to_ulabel(variant_cp)
                 write_output("\tVariant %s [%s]" % (variant_u, format_cp(variant_cp)))
                 write_output("\t- Disposition: '%s'" % var_disp)
-- 
2.43.0


From 33a7ee69a735d7662ff9c0d543d68bd87f607d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 084/107] fix: lgr_validate checks the set labels with the
 merged LGR

---
 tools/lgr_validate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 1ba4187..99f6a4d 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -112,13 +112,14 @@ def main():
     filtered_set_labels = []
     if len(args.lgr_xml) > 1:
         write_output("# The following labels from the set labels are invalid\n")
-        for __, label, valid, error in read_labels(parser.set_labels, parser.script_lgr.unicode_database):
+        for __, label, valid, error in read_labels(parser.set_labels, parser.merged_lgr.unicode_database):
             if not valid:
                 write_output("{}: {}\n".format(label, error))
             else:
                 label_cp = tuple([ord(c) for c in label])
-                if not parser.script_lgr._test_preliminary_eligibility(label_cp)[0]:
-                    write_output("%s: Not in LGR %s\n" % label, parser.script_lgr)
+                # the set labels may be in any script of the set
+                if not parser.merged_lgr._test_preliminary_eligibility(label_cp)[0]:
+                    write_output("%s: Not in LGR %s\n" % (label, parser.merged_lgr))
                 else:
                     filtered_set_labels.append(label)
         write_output("# End of filtered set labels\n\n")
-- 
2.43.0


From aafdd121b24e583485ab5b00e3bc11ef4b385d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 085/107] fix: lgr_validate reports the collisions of a label
 when set labels collide

---
 tools/lgr_validate.py | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 99f6a4d..b76ec7f 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -52,33 +52,13 @@ def check_label(lgr, label, generate_variants=False, merged_lgr=None, set_labels
                 write_output("Labels is in the LGR set labels")
             else:
                 indexes = get_collisions(merged_lgr, set_labels + [label], quiet=True)
-                if len(indexes) > 1:
-                    # there should be one collision except if set labels are not checked
-                    logger.error('More than one collision, please check your LGR set labels')
-                    return
-                elif len(indexes) > 0:
-                    collisions = indexes[list(indexes.keys())[0]]
-                    collision = None
-                    collide_with = []
-                    # retrieve label in collision list
-                    for col in collisions:
-                        if col['label'] == label:
-                            collision = col
-                        if col['label'] in set_labels:
-                            collide_with.append(col)
-
-                    if not collision:
-                        # this should not happen except if set labels are not checked
-                        logger.error('Cannot retrieve label in collisions, please check your LGR set labels')
-                        return
-
-                    if len(collide_with) != 1:
-                        logger.error('Collision with more than one label in the LGR set labels,'
-                                     'please check your LGR set labels')
-                        return
-
-                    write_output("Label collides with LGR set label '%s'" % collide_with[0]['label'])
-                else:
+                # set labels may collide among themselves: only consider the collisions of the label
+                collide_with = sorted(col['label'] for collisions in indexes.values()
+                                      if any(c['label'] == label for c in collisions)
+                                      for col in collisions if col['label'] != label)
+                for set_label in collide_with:
+                    write_output("Label collides with LGR set label '%s'" % set_label)
+                if not collide_with:
                     write_output('\tNone')
 
         if generate_variants:
-- 
2.43.0


From eba2a7105aeba1a4edfa5bccb0c246962a2aad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 086/107] fix: review: a variant with another condition does
 not miss the rule

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 42a9c05..395a57a 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -203,7 +203,7 @@ class VariantComparison:
             return self.IdnRuleCheck.DIFFERENT
         if (idn_wle['when'] or idn_wle['not-when']) and not ref_wle['when'] and not ref_wle['not-when']:
             return self.IdnRuleCheck.LESS_CONSERVATIVE
-        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when']) or ref_wle['not-when']:
+        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when'] or ref_wle['not-when']):
             return self.IdnRuleCheck.MISSING
         return self.IdnRuleCheck.DIFFERENT
 
-- 
2.43.0


From b21ab1b2d213351a882cd979730d97159f96edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 087/107] fix: review: code points of variant sets are not
 additional

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 395a57a..9851a46 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -472,7 +472,7 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
     Get code points from IDN table not in reference LGR that are not handled in the report (i.e. not in a variant set)
     """
     unidb = idn_table.unicode_database
-    variants_flat = set(zip(*[v for v in idn_table_variant_sets.values()]))
+    variants_flat = set(cp for v in idn_table_variant_sets.values() for cp in v)
     return cp_report(unidb, [char for char in idn_table.repertoire if
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
-- 
2.43.0


From 797a45cb357211a1ce76c907ff2269a35065002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 088/107] fix: review: all the code points of ranges count

---
 lgr/tools/idn_review/variant_sets.py                 | 2 +-
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 9851a46..2d81d44 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -473,7 +473,7 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
     """
     unidb = idn_table.unicode_database
     variants_flat = set(cp for v in idn_table_variant_sets.values() for cp in v)
-    return cp_report(unidb, [char for char in idn_table.repertoire if
+    return cp_report(unidb, [char for char in sorted(idn_table.repertoire.all_repertoire(), key=lambda c: c.cp) if
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
 
diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 455f5a7..1b25daf 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -275,7 +275,7 @@ class WholeLabelEvaluationRuleReport:
         self.reference_lgr_rule = reference_lgr_rule
         self.idn_table_context = idn_table_context
         self.reference_lgr_context = reference_lgr_context
-        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire)
+        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire.all_repertoire())
 
     def compare_wle(self) -> Tuple[IdnReviewResult, str]:
         # compare rule regex for rule equality
@@ -366,7 +366,7 @@ class WholeLabelEvaluationRulesCheck:
         self.has_multiple_digits_sets = nbr_digits > 10
 
         if self.reference_lgr:
-            for char in self.reference_lgr.repertoire:
+            for char in self.reference_lgr.repertoire.all_repertoire():
                 if char.when:
                     self.reference_lgr_context_rules.setdefault(char.when, set()).add(char.cp)
                 if char.not_when:
-- 
2.43.0


From 9b01cccc0cc219e3766cf10e94dd9d86e4276263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 089/107] fix: review: labels that end with a sequence are in
 the repertoire

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 1b25daf..1e86cde 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -400,6 +400,10 @@ class WholeLabelEvaluationRulesCheck:
 
     # TODO move method in core.py
     def check_label_cp_in_repertoire(self, label):
+        if not label:
+            # the end of the label was reached with a sequence
+            return True
+
         result = False
         cp = label[0]
 
-- 
2.43.0


From 692e3f793af7ef07e9a52c1c45ae3a52037fbb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 090/107] fix: review: a variant set may match several
 reference sets

---
 lgr/tools/idn_review/variant_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 2d81d44..aabf7b4 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -495,7 +495,8 @@ def generate_variant_sets_report(idn_table: LGR, reference_lgr: LGR) -> Dict:
                 new_set_id = min(idn_set_id, ref_set_id)
                 new_set_ids.add(new_set_id)
                 if new_set_id not in idn_table_variant_sets:
-                    idn_table_variant_sets[new_set_id] = idn_table_variant_sets.pop(idn_set_id)
+                    # the set may already have been moved when it matches several reference sets
+                    idn_table_variant_sets[new_set_id] = idn_table_variant_sets.pop(idn_set_id, idn_cps)
                 if new_set_id not in reference_lgr_variant_sets:
                     reference_lgr_variant_sets[new_set_id] = reference_lgr_variant_sets[ref_set_id]
                     updated_ref_sets.update([ref_set_id])
-- 
2.43.0


From 056b7917c3646fc5c077dd756000b9cd96a61acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 091/107] fix: review: a missing sequence may be out of the
 reference repertoire

---
 lgr/tools/idn_review/variant_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index aabf7b4..aa974b5 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -380,7 +380,8 @@ class VariantSetsReport:
                             idn_cp = (c,)
                             if idn_cp in self.idn_repertoire:
                                 relevant_repertoire.add(idn_cp)
-                        missing_sequence = self.reference_lgr_repertoire.get_char(cp)
+                        # the sequence may be out of the reference repertoire
+                        missing_sequence = ''.join(chr(c) for c in cp)
                         break
 
         for cp in sorted(set(self.idn_table_variant_set) | set(self.reference_lgr_variant_set)):
-- 
2.43.0


From 022658f7e00a8d96a32fe15bef09975273d7f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 092/107] fix: errors in the list of TLDs end with a new line

---
 lgr/tools/diff_collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 00c911a..9f398e0 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -465,7 +465,7 @@ def _read_tlds(tlds_input, unidb):
         if valid:
             tlds.add(label)
         else:
-            errors.append("TLD {}: {}\n (WARNING: this should not append, your TLD file may be corrupted)".format(
+            errors.append("TLD {}: {}\n (WARNING: this should not append, your TLD file may be corrupted)\n".format(
                 label, error))
     return tlds, errors
 
-- 
2.43.0


From 371fd824caea9d8c1653a9411549ac97620a9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:57 +0000
Subject: [PATCH 093/107] fix: collision reports list labels in the order of
 the input

---
 lgr/tools/diff_collisions.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 9f398e0..d61a85b 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -94,7 +94,8 @@ def _generate_indexes(lgr, labels: List, tlds=None, keep=False, quiet=False, cac
         _get_indexes(cached_indexes, is_cache=True)
     if tlds:
         # remove labels from tlds as we do not want duplicated in label_indexes lists
-        _get_indexes(tlds - set(labels), is_tld=True)
+        known_labels = set(labels)
+        _get_indexes([tld for tld in tlds if tld not in known_labels], is_tld=True)
 
     for (label_index, primaries) in deepcopy(label_indexes).items():
         # only get variants for collided labels (if not keep)
@@ -334,8 +335,8 @@ def _write_simple_output(labels, tlds, label_indexes):
         return f'{l1}: collides with {label_type} {l2}\n'
 
     for collisions in label_indexes.values():
-        colliding_labels = list(labels.intersection(set([l['label'] for l in collisions])))
-        colliding_tlds = list(tlds.intersection(set([l['label'] for l in collisions])))
+        colliding_labels = [l['label'] for l in collisions if l['label'] in labels]
+        colliding_tlds = [l['label'] for l in collisions if l['label'] in tlds]
         if len(colliding_labels) > 1:
             for col in dump_collisions(colliding_labels, print_collision, label_type="label"):
                 yield col
@@ -394,10 +395,10 @@ def diff(lgr_1, lgr_2, labels_input, show_collision=True,
     :param quiet: Do not print rules
     """
     from lgr.tools.utils import read_labels
-    labels = set()
+    labels = dict()  # use dict to keep order
     for __, label, valid, error in read_labels(labels_input, lgr_1.unicode_database):
         if valid:
-            labels.add(label)
+            labels[label] = None
         else:
             yield "Label {}: {}\n".format(label, error)
 
@@ -459,11 +460,11 @@ def diff(lgr_1, lgr_2, labels_input, show_collision=True,
 def _read_tlds(tlds_input, unidb):
     from lgr.tools.utils import read_labels
 
-    tlds = set()
+    tlds = dict()  # use dict to keep order
     errors = []
     for __, label, valid, error in read_labels(tlds_input, unidb):
         if valid:
-            tlds.add(label)
+            tlds[label] = None
         else:
             errors.append("TLD {}: {}\n (WARNING: this should not append, your TLD file may be corrupted)\n".format(
                 label, error))
@@ -494,7 +495,7 @@ def collision(lgr, labels_input, tlds_input, show_dump=False, quiet=True):
         for err in errors:
             yield err
 
-        in_tld = labels.keys() & tlds
+        in_tld = labels.keys() & tlds.keys()
         if in_tld:
             yield "\n# Labels that are TLDs #\n\n"
             for label in sorted(in_tld):
@@ -539,10 +540,10 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
         yield "\n"
 
     label_errors = []
-    labels = set()
+    labels = dict()  # use dict to keep order
     for __, label, valid, error in read_labels(labels_input, lgr.unicode_database):
         if valid:
-            labels.add(label)
+            labels[label] = None
         else:
             label_errors.append("{}: {}".format(label, error))
 
@@ -553,7 +554,7 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
     yield "# Collisions #\n\n"
     has_one = False
     if tlds_input:
-        in_tld = labels & tlds
+        in_tld = labels.keys() & tlds.keys()
         for label in sorted(in_tld):
             has_one = True
             yield "{}: is a TLD\n".format(label)
@@ -594,9 +595,9 @@ def get_collisions(lgr, labels_input, quiet=True, cached_indexes=None):
     :return: The indexes for collisions
     """
     from lgr.tools.utils import read_labels
-    labels = set()
+    labels = dict()  # use dict to keep order
     for __, label, valid, error in read_labels(labels_input, lgr.unicode_database):
         if valid:
-            labels.add(label)
+            labels[label] = None
     label_indexes, _ = _generate_indexes(lgr, labels, keep=False, quiet=quiet, cached_indexes=cached_indexes)
     return label_indexes
-- 
2.43.0


From bd8ea4451bf3dc85e1ecec4708d1a793684642dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 094/107] fix: review: variants with several contexts are
 compared in a fixed order

---
 lgr/tools/idn_review/variant_sets.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index aa974b5..985e6d9 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -27,10 +27,15 @@ class VariantData:
     def add_variant(self, fwd: Variant, rev: List[Variant]):
         fwd_set = set(self._fwd)
         fwd_set.add(fwd)
-        self._fwd = list(fwd_set)
+        self._fwd = self._sort(fwd_set)
         rev_set = set(self._rev)
         rev_set.update(rev)
-        self._rev = list(rev_set)
+        self._rev = self._sort(rev_set)
+
+    @staticmethod
+    def _sort(variants: Set[Variant]) -> List[Variant]:
+        # the order of a set changes from one process to another
+        return sorted(variants, key=lambda v: (v.when or '', v.not_when or '', v.type or '', v.cp))
 
     def has_variant(self) -> bool:
         return len(self._fwd) > 0
@@ -44,11 +49,11 @@ class VariantData:
     def get_rev_var(self) -> Variant:
         return self._rev[0] if self.has_reverse() else None
 
-    def get_vars(self) -> Set[Variant]:
-        return set(self._fwd)
+    def get_vars(self) -> List[Variant]:
+        return self._fwd
 
-    def get_rev_vars(self) -> Set[Variant]:
-        return set(self._rev)
+    def get_rev_vars(self) -> List[Variant]:
+        return self._rev
 
     def get_cp(self) -> tuple:
         return self._fwd[0].cp if self.has_variant() else ()
-- 
2.43.0


From 76f13c25a5b9c2a7f1a012d3078d0325f1dce4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:21 +0000
Subject: [PATCH 095/107] fix: entity references in a document are ignored
 instead of failing

---
 lgr/parser/xml_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 2d25a82..97b1571 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -521,6 +521,11 @@ class XMLParser(LGRParser):
                 # However, we still have to call _process_meta
                 self._process_meta({})
                 metadata_added = True
+            if elem.tag in (META_TAG, DATA_TAG, RULES_TAG) and next(elem.iter(etree.Entity), None) is not None:
+                # Entities are not resolved
+                logger.warning("Entity references are ignored in '%s' element", elem.tag)
+                self.rfc7940_checks.error('parse_xml')
+                etree.strip_elements(elem, etree.Entity, with_tail=False)
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
-- 
2.43.0


From c782562b716322f92b19072b25ea9a2699c3a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 096/107] fix: rules that use an entity in an attribute do not
 refer to the freed document

---
 lgr/parser/xml_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 97b1571..9302251 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -601,6 +601,9 @@ def drop_ns(node):
     # First step: remove default namespace from node and its children
     for elem in node.iter():
         elem.tag = elem.tag.replace("{{{}}}".format(LGR_NS), "")
+        for name, value in elem.attrib.items():
+            # The value may refer to an entity of the document, which the new node would keep once it is freed
+            elem.set(name, value)
 
     # Create new node with same sanitized tag and attributes
     new_node = etree.Element(node.tag, node.attrib)
-- 
2.43.0


From 161a52929b23e333a151665cc705a6706999e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:26 +0000
Subject: [PATCH 097/107] fix: a complement class without child can be logged

---
 lgr/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 9528089..f90cf2c 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -291,7 +291,7 @@ class ComplementClass(CombinatorClass):
         logger.debug('%s is valid', self)
 
     def __str__(self):
-        return '^{{{}}}'.format(self._children[0])
+        return '^{{{}}}'.format(self._children[0] if self._children else '')
 
     def __repr__(self):
         return '<ComplementClass %s: %s>' % (self.name, self._children)
-- 
2.43.0


From 0ff9324afc94f9c8ec9a7ad5bd98726ac7fdcfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:16 +0000
Subject: [PATCH 098/107] fix: a class with a malformed property can be logged

---
 lgr/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index f90cf2c..c63015b 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -214,7 +214,7 @@ class Class(object):
             return '[:class tag={}:]'.format(self.from_tag)
 
         if self.unicode_property is not None:
-            name, value = self.unicode_property.split(':')
+            name, _, value = self.unicode_property.partition(':')
             return '[:class property:{}={}:]'.format(name, value)
 
         return format_cp_collapsed(self.codepoints)
-- 
2.43.0


From aed0b9a0325a61f89568413295439c92148021cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:53 +0000
Subject: [PATCH 099/107] fix: an undefined rule in a context or an action is a
 RuleError

---
 lgr/action.py | 21 ++++++++++++++++++---
 lgr/core.py   | 21 ++++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/lgr/action.py b/lgr/action.py
index 63caf1a..3dbc8c8 100644
--- a/lgr/action.py
+++ b/lgr/action.py
@@ -5,7 +5,7 @@ action.py - Definition of action structures.
 import logging
 
 from lgr.utils import format_cp
-from lgr.exceptions import LGRFormatException
+from lgr.exceptions import LGRFormatException, RuleError
 
 logger = logging.getLogger(__name__)
 rule_logger = logging.getLogger('lgr-rule-logger')
@@ -80,7 +80,7 @@ class Action(object):
         # First bullet
         rule_matched = True
         if self.match is not None:
-            rule = rules_lookup[self.match]
+            rule = self._get_rule(self.match, rules_lookup)
             rule_matched = rule.matches(label,
                                         rules_lookup, classes_lookup,
                                         unicode_database)
@@ -88,7 +88,7 @@ class Action(object):
                              self, rule_matched)
         # Second bullet
         elif self.not_match is not None:
-            rule = rules_lookup[self.not_match]
+            rule = self._get_rule(self.not_match, rules_lookup)
             rule_matched = not rule.matches(label,
                                             rules_lookup, classes_lookup,
                                             unicode_database)
@@ -137,6 +137,21 @@ class Action(object):
         rule_logger.info('Action %s not triggered', self)
         return None
 
+    def _get_rule(self, name, rules_lookup):
+        """
+        Get a rule of the action.
+
+        :param name: The name of the rule.
+        :param rules_lookup: Dictionary of defined rules in the LGR.
+        :return: The rule.
+        :raises RuleError: If the rule is not defined.
+        """
+        try:
+            return rules_lookup[name]
+        except KeyError:
+            rule_logger.error("Action %s: rule '%s' is not defined", self, name)
+            raise RuleError(name, 'Undefined rule in action')
+
     def __repr__(self):
         return '<Action: {}>'.format(self.comment or 'anon')
 
diff --git a/lgr/core.py b/lgr/core.py
index 92ca993..4c8786a 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -26,7 +26,8 @@ from lgr.exceptions import (LGRApiInvalidParameter,
                             DuplicateReference,
                             LGRFormatException,
                             LGRApiException,
-                            LGRException)
+                            LGRException,
+                            RuleError)
 from lgr.metadata import Metadata, ReferenceManager
 from lgr.mixed_scripts_variant_filter import BaseMixedScriptsVariantFilter, MixedScriptsVariantFilter
 from lgr.populate import populate_lgr
@@ -1961,7 +1962,7 @@ class LGR(object):
         not_when = char.not_when
 
         if when is not None:
-            rule = self.rules_lookup[when]
+            rule = self._get_context_rule(when)
             if not rule.matches(orig_label,
                                 self.rules_lookup,
                                 self.classes_lookup,
@@ -1972,7 +1973,7 @@ class LGR(object):
                                  when, format_cp(char.cp))
                 return False
         elif not_when is not None:
-            rule = self.rules_lookup[not_when]
+            rule = self._get_context_rule(not_when)
             if rule.matches(orig_label,
                             self.rules_lookup,
                             self.classes_lookup,
@@ -1985,6 +1986,20 @@ class LGR(object):
 
         return True
 
+    def _get_context_rule(self, name):
+        """
+        Get a rule used as a context rule.
+
+        :param name: The name of the rule.
+        :return: The rule.
+        :raises RuleError: If the rule is not defined.
+        """
+        try:
+            return self.rules_lookup[name]
+        except KeyError:
+            rule_logger.error("Context rule '%s' is not defined", name)
+            raise RuleError(name, 'Undefined context rule')
+
     def _check_convert_cp(self, cp_or_sequence, assert_in_script=False):
         """
         Check validity of code point input.
-- 
2.43.0


From 5f4c47555552d4417ce2a93fa52461b43f28f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:13 +0000
Subject: [PATCH 100/107] fix: a class with a malformed property or missing
 operands is a RuleError

---
 lgr/classes.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index c63015b..6589233 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -164,7 +164,11 @@ class Class(object):
                                                                    is_look_behind,
                                                                    as_set)
         elif self.unicode_property is not None:
-            (name, value) = self.unicode_property.split(':')
+            try:
+                (name, value) = self.unicode_property.split(':')
+            except ValueError:
+                logger.error("Invalid property '%s'", self.unicode_property)
+                raise RuleError(self, "%s has an invalid property" % self)
             cp_set = unicode_database.get_set(pattern='\p{%s=%s}' % (name, value))
         else:
             cp_set = unicode_database.get_set(self.codepoints)
@@ -242,6 +246,11 @@ class CombinatorClass(Class):
 
         self._children.append(cls)
 
+    def _check_children(self, number):
+        if len(self._children) != number:
+            logger.error("Combinator class %s does not have %d element(s)", self, number)
+            raise RuleError(self, "%s does not have %d element(s)" % (self, number))
+
     def validate(self, parents, rules_lookup, classes_lookup):
         super(CombinatorClass, self).validate(parents,
                                               rules_lookup, classes_lookup)
@@ -271,7 +280,7 @@ class ComplementClass(CombinatorClass):
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False, as_set=False):
-        # TODO: test existence of child
+        self._check_children(1)
         child = self._children[0]
         cp_set = unicode_database.get_set(child.get_pattern(rules_lookup,
                                                             classes_lookup,
@@ -343,7 +352,7 @@ class IntersectionClass(CombinatorClass):
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False, as_set=False):
-
+        self._check_children(2)
         set_1 = self._children[0].get_pattern(rules_lookup, classes_lookup,
                                               unicode_database,
                                               is_look_behind, as_set=True)
@@ -382,6 +391,7 @@ class DifferenceClass(CombinatorClass):
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False, as_set=False):
+        self._check_children(2)
         set_1 = self._children[0].get_pattern(rules_lookup, classes_lookup,
                                               unicode_database,
                                               is_look_behind, as_set=True)
@@ -420,7 +430,7 @@ class SymmetricDifferenceClass(CombinatorClass):
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False, as_set=False):
-
+        self._check_children(2)
         set_1 = self._children[0].get_pattern(rules_lookup, classes_lookup,
                                               unicode_database,
                                               is_look_behind, as_set=True)
-- 
2.43.0


From 606fb4701742e819949eec6a4d5cd54c1f26260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 101/107] fix: code points outside of Unicode are refused

---
 lgr/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 4c8786a..0d92afe 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -77,6 +77,9 @@ MAX_NUMBER_GENERATED_VARIANTS = 1000
 # From RFC1035, 2.3.4 Size limits
 PROTOCOL_LABEL_MAX_LENGTH = 63
 
+# Last Unicode code point
+MAX_CODE_POINT = 0x10FFFF
+
 
 @contextmanager
 def collect_rule_log(level):
@@ -490,6 +493,10 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        if first_cp < 0 or last_cp > MAX_CODE_POINT:
+            logger.error("Range '%s-%s' is not a range of Unicode code points", first_cp, last_cp)
+            raise LGRApiInvalidParameter('last_cp')
+
         if (not force) and (when is not None) and (not_when is not None):
             logger.error("Cannot add range '%s-%s' with both 'when' "
                          "and 'not-when' attributes",
@@ -2059,6 +2066,10 @@ class LGR(object):
                              cp_or_sequence)
                 raise LGRApiInvalidParameter('cp_or_sequence')
 
+        if not all(0 <= cp <= MAX_CODE_POINT for cp in cp_or_sequence):
+            logger.error("Code point '%s' is not a Unicode code point", cp_or_sequence)
+            raise LGRApiInvalidParameter('cp_or_sequence')
+
         if self.unicode_database is not None:
             _, invalid_cps = is_idna_valid_cp_or_sequence(cp_or_sequence, self.unicode_database, check_all=True)
             for cp in invalid_cps.keys():
-- 
2.43.0


From 519e4bc19288794d744156d202b9ec5044d1f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 102/107] fix: a malformed count is an invalid pattern, and can
 be shown

---
 lgr/matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/matcher.py b/lgr/matcher.py
index d5b91d7..48b19b3 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -259,7 +259,7 @@ class CountMatcher(Matcher):
             return ''
 
         if ':' in self.count:
-            min, max = self.count.split(':')
+            min, _, max = self.count.partition(':')
             return '{%s,%s}' % (min, max)
         elif self.count.endswith('+'):
             if is_look_behind:
-- 
2.43.0


From 4f885401e17da17f8c3247a57145e420709d0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 103/107] fix: an action without disposition can be validated

---
 lgr/validate/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index de49b44..934a66a 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -99,7 +99,7 @@ def check_lgr_rules(lgr):
         if not disp in STANDARD_DISPOSITIONS:
             lgr.notify_error('standard_dispositions')
             success = False
-            logging.error("Action element has non-standard disposition " + disp)
+            logging.error("Action element has non-standard disposition %s", disp)
     lgr.notify_tested('standard_dispositions')
     return success
 
-- 
2.43.0


From 564d9f35a1f30cbfb05c3f0c8bbd6d5c6f7af065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 104/107] fix: an empty language element is an empty language

---
 lgr/parser/xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 9302251..9acb78f 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -201,7 +201,7 @@ class XMLParser(LGRParser):
                 metadata.version = Version(child.text,
                                            child.get('comment', None))
             elif tag == LANGUAGE_TAG:
-                metadata.add_language(child.text, force=self.force)
+                metadata.add_language(child.text or '', force=self.force)
             elif tag == SCOPE_TAG:
                 metadata.scopes.append(
                     Scope(child.text, child.get('type', None)))
-- 
2.43.0


From 0cefaf7d6daaa098691a3fbf104f0a1cf1b835ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 105/107] fix: a class with a percent sign can be used in a
 context rule

---
 lgr/rule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/rule.py b/lgr/rule.py
index d25afef..76ab0df 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -181,9 +181,9 @@ class Rule(object):
                 anchor = None
             else:
                 # Format anchor - Can be a sequence.
-                # Use old-style formatting, see note in matcher.AnchorMatcher
-                pattern = pattern % {'anchor': ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
-                                                           anchor))}
+                # Do not format the pattern, '%' may be used in a class
+                pattern = pattern.replace('%(anchor)s',
+                                          ''.join(map(lambda c: '\\x{{{:X}}}'.format(c), anchor)))
         rule_logger.debug("Pattern for rule %s: '%s'", self, pattern)
         try:
             regex = unicode_database.compile_regex(pattern)
-- 
2.43.0


From a2853c1e8d8bc625b2c0469e4a15726ea16b488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:46 +0000
Subject: [PATCH 106/107] fix: a rule or class that references itself is a
 RuleError

---
 lgr/classes.py | 13 ++++++++-----
 lgr/rule.py    | 11 +++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 6589233..9ef9a32 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -146,11 +146,14 @@ class Class(object):
                 raise RuleError(self,
                                 "%s cannot reference "
                                 "inexisting class '%s'" % (self, self.by_ref))
-            cp_set = classes_lookup[self.by_ref].get_pattern(rules_lookup,
-                                                             classes_lookup,
-                                                             unicode_database,
-                                                             is_look_behind,
-                                                             as_set)
+            try:
+                cp_set = classes_lookup[self.by_ref].get_pattern(rules_lookup,
+                                                                 classes_lookup,
+                                                                 unicode_database,
+                                                                 is_look_behind,
+                                                                 as_set)
+            except RecursionError:
+                raise RuleError(self, "%s references itself" % self)
         elif self.from_tag is not None:
             tag_classname = TAG_CLASSNAME_PREFIX + self.from_tag
             if tag_classname not in classes_lookup:
diff --git a/lgr/rule.py b/lgr/rule.py
index 76ab0df..2b98df7 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -93,10 +93,13 @@ class Rule(object):
                                 "%s cannot reference inexisting"
                                 " rule '%s'" % (self, self.by_ref))
 
-            return rules_lookup[self.by_ref].get_pattern(rules_lookup,
-                                                         classes_lookup,
-                                                         unicode_database,
-                                                         is_look_behind)
+            try:
+                return rules_lookup[self.by_ref].get_pattern(rules_lookup,
+                                                             classes_lookup,
+                                                             unicode_database,
+                                                             is_look_behind)
+            except RecursionError:
+                raise RuleError(self, "%s references itself" % self)
 
         pattern_io = io.StringIO()
         for m in self.children:
-- 
2.43.0


From d31947ba02a666e03ab1a137f376df6c47479b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:26 +0000
Subject: [PATCH 107/107] fix: a class with an unknown property is a RuleError

---
 lgr/classes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 9ef9a32..f12dd66 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -6,6 +6,8 @@ from __future__ import unicode_literals
 
 import logging
 
+from picu.exceptions import PICUException
+
 from lgr import text_type
 from lgr.exceptions import (LGRFormatException, RuleError)
 from lgr.utils import format_cp_collapsed
@@ -169,10 +171,10 @@ class Class(object):
         elif self.unicode_property is not None:
             try:
                 (name, value) = self.unicode_property.split(':')
-            except ValueError:
-                logger.error("Invalid property '%s'", self.unicode_property)
-                raise RuleError(self, "%s has an invalid property" % self)
-            cp_set = unicode_database.get_set(pattern='\p{%s=%s}' % (name, value))
+                cp_set = unicode_database.get_set(pattern='\p{%s=%s}' % (name, value))
+            except (ValueError, PICUException) as exc:
+                logger.error("Invalid property '%s': %s", self.unicode_property, exc)
+                raise RuleError(self, "%s has an invalid property: %s" % (self, exc))
         else:
             cp_set = unicode_database.get_set(self.codepoints)
 
-- 
2.43.0

