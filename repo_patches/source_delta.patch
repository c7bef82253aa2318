From e035181edc3c2e3a17188449e70c34dd2bd0900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 001/104] fix: Integer types keep the facets given by the user

The bounds and the pattern of the type overwrote every facet passed to the
constructor, e.g. Int(maxInclusive=10) accepted 11.
---
 soapfish/xsd.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..b91f72b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -443,8 +443,17 @@ class Integer(Decimal):
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
         facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        overrides = {}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
+            overrides.update(c.overrides)
+        # A facet given by the user may narrow down the one of the type but must never be dropped:
+        for k, v in overrides.items():
+            if facets[k] is None or k == 'fractionDigits':
+                facets[k] = v
+            elif k == 'minInclusive':
+                facets[k] = max(facets[k], v)
+            elif k == 'maxInclusive':
+                facets[k] = min(facets[k], v)
         super().__init__(**facets)
 
     def accept(self, value):
-- 
2.43.0


From 74014550038d854a25e953828c4320de93b6a4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 002/104] fix: keep decimal.Decimal values as they are in
 Decimal fields

Converting them to text made every comparison with a bound fail with a
TypeError and never matched an enumeration of numbers.
---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index b91f72b..cf51ed1 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -397,9 +397,7 @@ class Decimal(SimpleType):
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, decimal.Decimal):
-            value = str(value)
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
             value = float(value)
@@ -410,6 +408,8 @@ class Decimal(SimpleType):
         return value
 
     def xmlvalue(self, value):
+        if isinstance(value, decimal.Decimal):
+            return format(value, 'f')  # never use an exponent
         return str(value)
 
     def pythonvalue(self, xmlvalue):
-- 
2.43.0


From cde45cbf4373918d5078b29b831ea73311dc4c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 003/104] fix: the sign of a number is not a digit for
 totalDigits

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index cf51ed1..a8fc641 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -386,7 +386,7 @@ class Decimal(SimpleType):
 
         if self.totalDigits is not None:
             strvalue = str(value)
-            length = len(strvalue)
+            length = len(strvalue.lstrip('-'))
             if '.' in strvalue:
                 length -= 1
             if length > self.totalDigits:
-- 
2.43.0


From 1ff1051675ba65e56694d45cf714bbe69d641aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 004/104] fix: patterns must match the whole value

Appending '$' to a pattern with alternatives only anchored the last one, and
'$' accepts a trailing line feed.
---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a8fc641..5531c42 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -152,8 +152,7 @@ class String(SimpleType):
         value = self._clean_whitespace(value)
 
         if self.pattern:
-            pattern = self.pattern + '$'
-            if re.match(pattern, value) is None:
+            if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
         if self.enumeration:
@@ -380,8 +379,7 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            pattern = self.pattern + '$'
-            if re.match(pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, str(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-- 
2.43.0


From 09d2ee1d435f9dfea9a6b92ca4e8bc348cf29717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 005/104] fix: enforce length facets with the value zero

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5531c42..96580c5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -159,15 +159,15 @@ class String(SimpleType):
             if not (value in self.enumeration):
                 raise ValueError(f"Value '{value}' not in list {self.enumeration}.")
 
-        if self.length:
+        if self.length is not None:
             if len(value) != self.length:
                 raise ValueError(f"Value '{value}' length {self.length} expected.")
 
-        if self.minLength:
+        if self.minLength is not None:
             if len(value) < self.minLength:
                 raise ValueError(f"Value '{value}' minLength {self.minLength} expected.")
 
-        if self.maxLength:
+        if self.maxLength is not None:
             if len(value) > self.maxLength:
                 raise ValueError(f"Value '{value}' maxLength {self.maxLength} expected.")
 
-- 
2.43.0


From edd92b8dc5d2d07c6125884e8566a7d3bd94b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 006/104] fix: whiteSpace facet follows XSD

collapse strips both ends, and only tabs, line feeds, carriage returns and
spaces are white space.
---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 96580c5..103ae8a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -185,10 +185,10 @@ class String(SimpleType):
             pass
         elif self.whiteSpace == 'replace':
             # replace line feeds, tabs, spaces, and carriage returns with whitespaces
-            value = re.sub(r'[\t\r\n\s]', ' ', value)
+            value = re.sub(r'[\t\r\n ]', ' ', value)
         elif self.whiteSpace == 'collapse':
             # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value)
+            value = re.sub(r'[\t\r\n ]+', ' ', value).strip(' ')
 
         return value
 
-- 
2.43.0


From a03a34c3e6bc71d5a0e4fc4d97aa7e86523f7feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 007/104] fix: Boolean stores truth values only

1 and 0 were accepted as they are and could not be rendered afterwards.
---
 soapfish/xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 103ae8a..978202b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -195,8 +195,10 @@ class String(SimpleType):
 
 class Boolean(SimpleType):
     def accept(self, value):
-        if value in [True, False, None]:
-            return value
+        if value is None:
+            return None
+        elif value in [True, False]:
+            return bool(value)
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
-- 
2.43.0


From 4a20beae09bac9725d7c9006b77b94f79f7ff892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 008/104] fix: Boolean parses all lexical forms of xsd:boolean

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 978202b..f301fed 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -213,9 +213,9 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        if value in ('false', '0'):
             return False
-        elif value == 'true':
+        elif value in ('true', '1'):
             return True
         elif value == 'nil' or value is None:
             return None
-- 
2.43.0


From 413a45be38553e317f271217183969c0ae75a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 009/104] fix: NaN is not within any bounds

---
 soapfish/xsd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f301fed..e580bb7 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -371,13 +371,13 @@ class Decimal(SimpleType):
                 if len(fr) != self.fractionDigits:
                     raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
 
-        if self.maxExclusive is not None and value >= self.maxExclusive:
+        if self.maxExclusive is not None and not value < self.maxExclusive:
             raise ValueError(f'Value {value} greater or equal to maxExclusive {self.maxExclusive}')
-        if self.maxInclusive is not None and value > self.maxInclusive:
+        if self.maxInclusive is not None and not value <= self.maxInclusive:
             raise ValueError(f'Value {value} greater than maxInclusive {self.maxInclusive}')
-        if self.minExclusive is not None and value <= self.minExclusive:
+        if self.minExclusive is not None and not value > self.minExclusive:
             raise ValueError(f'Value {value} smaller or equal to minExclusive {self.minExclusive}')
-        if self.minInclusive is not None and value < self.minInclusive:
+        if self.minInclusive is not None and not value >= self.minInclusive:
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-- 
2.43.0


From dfbcf7dfb229d2aa46d5155e9b389476962260b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 010/104] fix: render years before 1000 with four digits

strftime('%Y') does not pad with zeros on Linux.
---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e580bb7..5e4fe9a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -247,7 +247,7 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        timestring_without_tz = f'{value.year:04d}-{value.month:02d}-{value.day:02d}'
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
@@ -296,7 +296,7 @@ class DateTime(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
+        timestring_without_tz = f"{value.year:04d}{value.strftime('-%m-%dT%H:%M:%S')}"
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
-- 
2.43.0


From 0f365bece994ed97efbd8efb83afdbedaf2b0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 011/104] fix: Date refuses text it cannot represent

A leading '-' was dropped silently, a trailing line feed and offsets with more
than 59 minutes were accepted, and offsets without minutes failed with a
TypeError.
---
 soapfish/xsd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5e4fe9a..783d916 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -230,9 +230,8 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        ^(\-)?
         (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
-        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
+        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-5][0-9])?))?''', re.VERBOSE)
 
     def accept(self, value):
         if value is None:
@@ -259,7 +258,7 @@ class Date(SimpleType):
         if not isinstance(value, str):
             raise ValueError(f'Expected a string, not {value!r}')
 
-        match = self.YEAR_MONTH_DAY_REGEX.match(value)
+        match = self.YEAR_MONTH_DAY_REGEX.fullmatch(value)
         if match is None:
             raise ValueError(f'Unable to parse date string {value!r}')
         year = int(match.group('year'))
@@ -277,7 +276,7 @@ class Date(SimpleType):
 
         sign = 1 if match.group('tz_sign') == '+' else -1
         hours = int(match.group('tz_hour'))
-        minutes = int(match.group('tz_minute'))
+        minutes = int(match.group('tz_minute') or 0)
         return timezone(sign * timedelta(hours=hours, minutes=minutes), name='UTC' + offset)
 
 
-- 
2.43.0


From 9946a8cae4a073c1abc8e59ede1d07ecd7047a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 012/104] fix: parse attributes under the name they are
 rendered with

Attribute(tagname=...) was written under the tag name but read under the name
of the Python field, so it was lost.
---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 783d916..247b5b0 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -693,7 +693,7 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
         if xmlvalue is None:
             xmlvalue = self.default
         value = self._type.pythonvalue(xmlvalue)
-- 
2.43.0


From 0fe402ce71038f654abbe5d25c3aaa2776597658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 013/104] fix: do not parse the default of an attribute as XML
 text

It is a Python value: the default False of a Boolean was refused as text.
---
 soapfish/xsd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 247b5b0..d6e2a94 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -694,9 +694,7 @@ class Attribute(Element):
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
         xmlvalue = xmlelement.get(self.tagname or field_name)
-        if xmlvalue is None:
-            xmlvalue = self.default
-        value = self._type.pythonvalue(xmlvalue)
+        value = self.default if xmlvalue is None else self._type.pythonvalue(xmlvalue)
         setattr(instance, field_name, value)
 
 
-- 
2.43.0


From aeca95c4ed67be4b883baee2e1bf21e699f8ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 014/104] fix: recognise xsi:nil='1' and ignore xsi:nil='false'

---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d6e2a94..e85338e 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -541,6 +541,10 @@ def import_type(type_name):
     return getattr(module, name)
 
 
+def is_nil(xmlelement):
+    return xmlelement.get(f'{{{ns.xsi}}}nil') in ('true', '1')
+
+
 class Element:
     """
     Basic building block, represents an XML element that can appear 0 or 1 times that should be rendered as subelement.
@@ -628,7 +632,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -823,7 +827,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From 986ecccbca2b30b74c5460f64e82ff31ab9e64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 015/104] fix: ignore processing instructions when parsing

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e85338e..8637ab8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -956,8 +956,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
-            return False
+        if not isinstance(xmlelement.tag, str):
+            return False  # comment, processing instruction or entity
         ns, tag = gettagns(xmlelement.tag)
         return tag == field._name or tag == field.tagname
 
-- 
2.43.0


From eb859675d9945e7b3593f41dfb545a86c03a5fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 016/104] fix: match elements by the name they are rendered
 with only

An element named like the Python name of a field with another tag name was
parsed into both fields.
---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8637ab8..a884e29 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -959,7 +959,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # comment, processing instruction or entity
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From 1992fe5e67cb7728cb2f1b3f356180e6ba00bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 017/104] fix: parse the children of an element with a choice
 type

Only an element that was itself one of the alternatives was recognised, the
content of a rendered choice was lost.
---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a884e29..9608f29 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -972,7 +972,9 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         for attribute in instance._meta.attributes:
             attribute.parse(instance, attribute._name, xmlelement)
 
-        is_choice = (instance._meta.cls.INDICATOR == Choice)
+        # The selected element of a choice may be passed without the element that contains it:
+        is_choice = (instance._meta.cls.INDICATOR == Choice) \
+            and any(cls._is_matching_element(field, xmlelement) for field in instance._meta.fields)
         for field in instance._meta.fields:
             if is_choice:
                 if not cls._is_matching_element(field, xmlelement):
-- 
2.43.0


From 0c90eaa34e53372ed53bab478aef203138191c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 018/104] fix: do not share the lists of a group between
 instances

---
 soapfish/xsd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9608f29..2c849f1 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,7 +27,6 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
-import copy
 import decimal
 import enum
 import functools
@@ -730,7 +729,7 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        return type(self._type)()  # never share lists or nested groups between instances
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-- 
2.43.0


From a4100d19ac5d972d33e5951d2ec746ed6bbcd26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 019/104] fix: rendering a reference without value raises the
 intended error

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2c849f1..5365fa1 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -733,7 +733,7 @@ class Ref(Element):
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-            if self._required:
+            if self._minOccurs:
                 raise ValueError('Value None is not acceptable for required field.')
             else:
                 return
-- 
2.43.0


From 748625acd8dc9ff133f8fd2cb3c5777230408211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 020/104] fix: Document.parsexml returns a document instead of
 changing its class

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5365fa1..07c607c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1065,7 +1065,9 @@ class Document(ComplexType):
     def parsexml(cls, xml):
         field = cls._meta.fields[0]  # The only field.
         xmlelement = etree.fromstring(xml)
-        field.parse(cls, field._name, xmlelement)
+        instance = cls()
+        field.parse(instance, field._name, xmlelement)
+        return instance
 
 
 class List(SimpleType):
-- 
2.43.0


From b4dfdd818f25081a1fd50f37cf9780614bac3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 021/104] fix: enforce maxOccurs=0 when rendering a list

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 07c607c..0e7ed1b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -806,7 +806,7 @@ class ListElement(Element):
         items = value  # The value must be list of items.
         if self._minOccurs and len(items) < self._minOccurs:
             raise ValueError('For %s minOccurs=%d but list length %d.' % (field_name, self._minOccurs, len(items)))
-        if self._maxOccurs and len(items) > self._maxOccurs:
+        if self._maxOccurs is not None and len(items) > self._maxOccurs:
             raise ValueError('For %s maxOccurs=%d but list length %d.' % (field_name, self._maxOccurs, len(items)))
 
         if self.namespace is not None:
-- 
2.43.0


From 4dda661114b4b0942b9868e6ecc7d3cb62c2e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 022/104] fix: SOAPResponse keeps the HTTP status code it is
 given

---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From a321bd860a35181d6430a94d8354756ed1da20cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 023/104] fix: call the xsd-response hook for XSD requests

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..dfd019f 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -230,7 +230,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From 0a17ef4a3ae1d5257f8274187ea208eaf24dd430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 024/104] fix: refuse hook names with trailing characters

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index dfd019f..77d4a8e 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -32,7 +32,7 @@ class SOAPDispatcher:
             hooks = {}
         else:
             for hook in hooks:
-                if not re.match(r'(soap|wsdl|xsd)-(request|response)', hook):
+                if not re.fullmatch(r'(soap|wsdl|xsd)-(request|response)', hook):
                     raise KeyError(f'Invalid dispatcher hook name: {hook}')
         self.hooks = hooks
 
-- 
2.43.0


From e36696e148476fe5548f54bc91ef8315f51f4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 025/104] fix: error responses have a content of bytes as
 required by WSGI

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 77d4a8e..fdc606d 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -174,7 +174,7 @@ class SOAPDispatcher:
         elif request_method == 'POST':
             return self.handle_soap_request(request)
         else:
-            return SOAPResponse('bad request', http_status_code=400, http_content='bad_request',
+            return SOAPResponse('bad request', http_status_code=400, http_content=b'bad_request',
                                 http_headers={'Content-Type': 'text/plain'})
 
     def handle_soap_request(self, request):
@@ -225,7 +225,7 @@ class SOAPDispatcher:
         try:
             xsd = self.xsds[qs['xsd'][0] or 'xsd']
         except KeyError:
-            response = SOAPResponse('not found', http_status_code=404, http_content='not_found',
+            response = SOAPResponse('not found', http_status_code=404, http_content=b'not_found',
                                     http_headers={'Content-Type': 'text/plain'})
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
-- 
2.43.0


From aa8012ab7501ac1f8a730ed4830506b84a77c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 026/104] fix: find the SOAPAction header in a WSGI environment

---
 soapfish/soap11.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..ce324b3 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -12,6 +12,8 @@ NAME = 'soap11'
 def determine_soap_action(request):
     if request.environ.get('SOAPACTION'):
         return request.environ.get('SOAPACTION').replace('"', '')
+    elif request.environ.get('HTTP_SOAPACTION'):
+        return request.environ.get('HTTP_SOAPACTION').replace('"', '')
     elif request.environ.get('ACTION'):
         return request.environ.get('ACTION').replace('"', '')
     else:
-- 
2.43.0


From 7846bc176b363fb08cdd4111d4e7b75cd184409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 027/104] fix: requests with an empty body get a fault,
 comments in the body are skipped

---
 soapfish/soap11.py        | 5 +++--
 soapfish/soap_dispatch.py | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index ce324b3..5ebc363 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -59,10 +59,11 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        return ContentType.parse_xmlelement(self.content())
 
     def content(self):
-        return self._xmlelement[0]
+        # skip comments and processing instructions
+        return next((child for child in self._xmlelement if isinstance(child.tag, str)), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index fdc606d..c9e21b2 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -73,6 +73,8 @@ class SOAPDispatcher:
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
         if envelope.Body is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
+        if envelope.Body.content() is None:
+            raise SOAPError(SOAP.Code.CLIENT, 'Empty SOAP body')
         return envelope
 
     def _find_handler_for_request(self, request, body):
-- 
2.43.0


From 725549c3f49d41339049437544dc9640cbd2713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 028/104] fix: values that cannot be parsed are faults of the
 client

They were raised as ValueError out of the dispatcher: nil for an element that is
not nillable, dates Python cannot represent, invalid header parts that are not
validated strictly.
---
 soapfish/soap_dispatch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index c9e21b2..9984d0b 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -63,7 +63,7 @@ class SOAPDispatcher:
         try:
             # note : no validation is performed
             envelope = SOAP.Envelope.parsexml(xml)
-        except etree.XMLSyntaxError as e:
+        except (etree.XMLSyntaxError, ValueError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
         # Actually this is more a stopgap measure than a real fix. The real
         # fix is to change SOAP.Envelope/ComplexType so it raises some kind of
@@ -162,8 +162,11 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except (ValueError, OverflowError) as e:
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
-- 
2.43.0


From bd45d5b1911cbe5125895680231c0889d890fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 029/104] fix: treat a nil SOAP header like a missing one

---
 soapfish/soap_dispatch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9984d0b..9cc2059 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -6,7 +6,7 @@ from urllib.parse import parse_qs
 
 from lxml import etree
 
-from . import py2wsdl, py2xsd, wsa
+from . import py2wsdl, py2xsd, wsa, xsd
 from .core import SOAPError, SOAPRequest, SOAPResponse
 from .utils import uncapitalize, walk_schema_tree
 
@@ -71,6 +71,8 @@ class SOAPDispatcher:
         # specs (according to my interpretation):
         # SOAP 1.1: http://schemas.xmlsoap.org/soap/envelope/
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
+        if envelope.Header is xsd.NIL:
+            envelope.Header = None
         if envelope.Body is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
         if envelope.Body.content() is None:
-- 
2.43.0


From 1b6220b0dd69006bb48dc59f69b15003da69c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 030/104] fix: ignore comments in the SOAP header

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9cc2059..69fce82 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -133,7 +133,7 @@ class SOAPDispatcher:
     def _validate_header(self, soap_header):
         if soap_header is None:
             return
-        for children in soap_header._xmlelement.getchildren():
+        for children in soap_header._xmlelement.iterchildren('*'):
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
-- 
2.43.0


From 73de380d29a4752c821a76a6db1ccc6a9585f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 031/104] fix: a root element without substitution group is an
 invalid root tag

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 69fce82..f721def 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -102,7 +102,7 @@ class SOAPDispatcher:
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
                 e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
+                return next(m for m in self.service.methods if m.input == (e.substitutionGroup or '').split(':')[-1])
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
-- 
2.43.0


From a5bba06b8b00bb2fc5f596c088e50b068b27e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 032/104] fix: responses without an output element name

response.content does not exist, and there is no method if a middleware
answers the request itself.
---
 soapfish/soap_dispatch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index f721def..9dd8e40 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -207,10 +207,8 @@ class SOAPDispatcher:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
+            if request.method is not None and isinstance(request.method.output, str):
                 tagname = request.method.output
-            else:
-                tagname = uncapitalize(response.content.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From 2743b64ee9ea91f3601a08cf6534599f2adaface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 033/104] fix: serve schemas with an import without location

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9dd8e40..5bb5ecb 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -239,7 +239,8 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From f62fdac5f80798caa78a86390f1a98834fb644a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 034/104] fix: quote schema locations in URLs

A location with '&', '+', '#' or '%' could not be retrieved.
---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 5bb5ecb..0aa39b1 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -2,7 +2,7 @@ import functools
 import logging
 import re
 import string
-from urllib.parse import parse_qs
+from urllib.parse import parse_qs, quote
 
 from lxml import etree
 
@@ -240,7 +240,7 @@ class SOAPDispatcher:
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
             if 'schemaLocation' in e.attrib:
-                e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+                e.attrib['schemaLocation'] = '?xsd=%s' % quote(e.attrib['schemaLocation'])
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From a6a37db8402efcc686a4522b4e50e74baf00e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 035/104] fix: order chains of schema imports

The loop gave up after looking at each schema once, and imports of schemas
outside of the list kept schemas from being ordered.
---
 soapfish/wsdl2py.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..0ab6ac9 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -18,16 +18,16 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
-    schemas, targets, counter, x = [], set(), len(schemas), collections.deque(schemas)
-    while x and counter > 0:
-        counter -= 1
+    schemas, counter, x = [], 0, collections.deque(schemas)
+    while counter < len(x):
         schema = x.popleft()
         ns = {i.namespace for i in schema.imports}
-        if x and ns and ns - targets:
+        if ns & {s.targetNamespace for s in x}:
             x.append(schema)
+            counter += 1
         else:
             schemas.append(schema)
-            targets.add(schema.targetNamespace)
+            counter = 0
     schemas.extend(x)  # always add remaining unorderable schemas...
     return schemas
 
-- 
2.43.0


From c1effc83837847eee8eaefc7dc7f379922a84cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 036/104] fix: all built-in types are in the XSD namespace

---
 soapfish/py2xsd.py | 5 +++--
 soapfish/utils.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..0635017 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -13,10 +13,11 @@ from .utils import uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN, xsd.NMTOKENS]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..47e9477 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -42,7 +42,7 @@ def remove_namespace(qname):
 
 
 def uncapitalize(value):
-    return value if value == 'QName' else value[0].lower() + value[1:]
+    return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
 
 def schema_name(obj, location=None):
-- 
2.43.0


From 1d36d054942af6c66fce11a46fd2152307ed6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 037/104] fix: describe attributes under the name they are
 rendered with

---
 soapfish/py2xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 0635017..98c8d36 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -37,7 +37,7 @@ def get_xsd_type(_type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
-- 
2.43.0


From c7ccde7420c6d88df8b682cb562274290831b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 038/104] fix: describe facets with the value zero in XSD

---
 soapfish/py2xsd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 98c8d36..0f49554 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -65,25 +65,25 @@ def create_xsd_element(element):
                 enum = xsdspec.Enumeration.create(value)
                 xsd_element.simpleType.restriction.enumerations.append(enum)
 
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
+        if getattr(_type, 'fractionDigits', None) is not None:
             xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
 
         if hasattr(_type, 'pattern') and _type.pattern:
             xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
 
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
+        if getattr(_type, 'minInclusive', None) is not None:
             xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
 
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
+        if getattr(_type, 'minExclusive', None) is not None:
             xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
 
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
+        if getattr(_type, 'maxExclusive', None) is not None:
             xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
 
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
+        if getattr(_type, 'maxInclusive', None) is not None:
             xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
 
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
+        if getattr(_type, 'totalDigits', None) is not None:
             xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
     else:
         xsd_element.type = get_xsd_type(element._type)
-- 
2.43.0


From babbc308de6cb2454e3f8759820090672d4b1af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 039/104] fix: describe enumerations of all types in XSD

Enumerations of numbers could not be rendered, those of derived types like Int
were left out.
---
 soapfish/py2xsd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 0f49554..32d83d1 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -52,7 +52,6 @@ def create_xsd_element(element):
         xsd_element.maxOccurs = element._maxOccurs
 
     # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
     _type = element._type
 
     if not inspect.isclass(element._passed_type):
@@ -60,9 +59,9 @@ def create_xsd_element(element):
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
 
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
+        if hasattr(element._type, 'enumeration') and element._type.enumeration:
             for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
+                enum = xsdspec.Enumeration.create(_type.xmlvalue(value))
                 xsd_element.simpleType.restriction.enumerations.append(enum)
 
         if getattr(_type, 'fractionDigits', None) is not None:
-- 
2.43.0


From bf490f44e4f0b90e6a5cd51689c3c1059545a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 040/104] fix: describe length and whiteSpace facets in XSD

---
 soapfish/py2xsd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 32d83d1..b3805fa 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -43,6 +43,13 @@ def xsd_attribute(attribute):
     return xsdattr
 
 
+def set_string_facets(restriction, _type):
+    for facet in ('length', 'minLength', 'maxLength', 'whiteSpace'):
+        value = getattr(_type, facet, None)
+        if value is not None:
+            setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
+
+
 def create_xsd_element(element):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
@@ -84,6 +91,8 @@ def create_xsd_element(element):
 
         if getattr(_type, 'totalDigits', None) is not None:
             xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+
+        set_string_facets(xsd_element.simpleType.restriction, _type)
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
@@ -133,6 +142,7 @@ def xsd_simpleType(st):
         xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
     elif hasattr(st, 'pattern') and st.pattern:
         xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
+    set_string_facets(xsd_restriction, st)
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
-- 
2.43.0


From 65701adabef578bd47c1447536b97e3ad898bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 041/104] fix: Count the digits of a number, not the characters
 of its exponent form

---
 soapfish/xsd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0e7ed1b..1515cf4 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -358,7 +358,7 @@ class Decimal(SimpleType):
             raise ValueError(f'{value} not in enumeration {self.enumeration}')
 
         if self.fractionDigits is not None:
-            strvalue = str(value)
+            strvalue = self._plain_text(value)
             if self.fractionDigits == 0:
                 if '.' in strvalue:
                     raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
@@ -383,7 +383,7 @@ class Decimal(SimpleType):
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-            strvalue = str(value)
+            strvalue = self._plain_text(value)
             length = len(strvalue.lstrip('-'))
             if '.' in strvalue:
                 length -= 1
@@ -405,6 +405,11 @@ class Decimal(SimpleType):
         self._check_restrictions(value)
         return value
 
+    @staticmethod
+    def _plain_text(value):
+        # Never use an exponent, str() does so for very large and very small numbers:
+        return format(decimal.Decimal(str(value)), 'f')
+
     def xmlvalue(self, value):
         if isinstance(value, decimal.Decimal):
             return format(value, 'f')  # never use an exponent
-- 
2.43.0


From 11dd34e13da0239b29bdfb201242db3031d2397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 042/104] fix: Render floats in the lexical form of XSD

---
 soapfish/xsd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 1515cf4..c6f430b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -33,6 +33,7 @@ import functools
 import importlib
 import itertools
 import logging
+import math
 import re
 from datetime import datetime, time, timedelta, timezone
 
@@ -411,8 +412,10 @@ class Decimal(SimpleType):
         return format(decimal.Decimal(str(value)), 'f')
 
     def xmlvalue(self, value):
-        if isinstance(value, decimal.Decimal):
-            return format(value, 'f')  # never use an exponent
+        if isinstance(value, float) and not math.isfinite(value):
+            return 'NaN' if math.isnan(value) else 'INF' if value > 0 else '-INF'
+        if isinstance(value, (decimal.Decimal, float)):
+            return self._plain_text(value)
         return str(value)
 
     def pythonvalue(self, xmlvalue):
-- 
2.43.0


From 39aba28a6851479453228f0d11ffad4db53bea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 043/104] fix: Validate the items of lists assigned to repeated
 fields

---
 soapfish/xsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index c6f430b..9b02ca0 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -804,7 +804,14 @@ class ListElement(Element):
         self._minOccurs = minOccurs
 
     def accept(self, value):
-        return value
+        if value is None:
+            return None
+        if value is NIL or isinstance(value, str):
+            raise ValueError('A list of items is expected.')
+        accepted = TypedList(self)
+        for item in value:
+            accepted.append(item)
+        return accepted
 
     def empty_value(self):
         return TypedList(self)
-- 
2.43.0


From 1fcad1927b59fc29bb70b170cda947783fd7bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 044/104] fix: times without an offset come back without one

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9b02ca0..ca1dba5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -333,7 +333,7 @@ class Time(SimpleType):
     def _parse(value):
         # Horrible hacky approach to implement this quickly:
         try:
-            dt = iso8601.parse_date('1900-01-01T' + value)
+            dt = iso8601.parse_date('1900-01-01T' + value, default_timezone=None)
         except Exception as e:
             raise ValueError(str(e)) from e
         else:
-- 
2.43.0


From 75a1395712328b4fa04082924f62495cbed13db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 045/104] fix: schemas with attributes can be generated

---
 soapfish/xsdspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From fcd334da1cca9800c32a41c11f815c58da795ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 046/104] fix: Django environ wrapper finds variables by their
 exact name (wsgi.url_scheme)

---
 soapfish/django_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 3b413cc..b70e09c 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -9,8 +9,8 @@ class DjangoEnvironWrapper:
         self.environ = environ
 
     def get(self, name, default=None):
-        name = name.replace('-', '_').upper()
-        for key in (name, 'HTTP_' + name):
+        header = name.replace('-', '_').upper()
+        for key in (name, header, 'HTTP_' + header):
             if key in self.environ:
                 return self.environ[key]
         return default
-- 
2.43.0


From e610d00bb8944f8298a93b6f0d57b63872f46c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 047/104] fix: Flask front end passes on the posted bytes
 whatever their content type

---
 soapfish/flask_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/flask_.py b/soapfish/flask_.py
index 3c6894f..9480883 100644
--- a/soapfish/flask_.py
+++ b/soapfish/flask_.py
@@ -8,7 +8,7 @@ def flask_dispatcher(service, **dispatcher_kwargs):
     from flask import request, Response
 
     def flask_dispatch():
-        soap_request = SOAPRequest(request.environ, request.data)
+        soap_request = SOAPRequest(request.environ, request.get_data())
         soap_request._original_request = request
         soap_dispatcher = SOAPDispatcher(service, **dispatcher_kwargs)
         soap_response = soap_dispatcher.dispatch(soap_request)
-- 
2.43.0


From f39f24ba4ba0457b5b9fd67374419c310a209a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 048/104] fix: looking up an element terminates when schemas
 import each other

---
 soapfish/xsd.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ca1dba5..4340c47 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1178,13 +1178,16 @@ class Schema:
             t._force_elements_type_evalution()
 
     def get_element_by_name(self, name):
-        if name in self.elements:
-            return self.elements[name]
-
-        for i in itertools.chain(self.imports, self.includes):
-            element = i.get_element_by_name(name)
-            if element is not None:
-                return element
+        # depth first, each schema once: schemas may import each other
+        seen, stack = set(), [self]
+        while stack:
+            schema = stack.pop()
+            if schema in seen:
+                continue
+            seen.add(schema)
+            if name in schema.elements:
+                return schema.elements[name]
+            stack.extend(reversed([*schema.imports, *schema.includes]))
 
         return None
 
-- 
2.43.0


From 5dd6c840daea3ccde7459a61c35bd5a92e00101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:44 +0000
Subject: [PATCH 049/104] fix: services can be declared with WS-Addressing
 headers

---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From 6542c1da1e6775a699afd5fb1fd9dbbbb57e2bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 050/104] fix: services can have several schemas

schema_validator joined the generated documents of all schemas, which is not
well-formed XML as soon as there is more than one.
---
 soapfish/py2xsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index b3805fa..d5d8108 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -232,6 +232,7 @@ def schema_validator(schemas):
         def __init__(self, schemas, *args, **kwargs):
             super().__init__(*args, **kwargs)
             self.lookup = walk_schema_tree(schemas, lambda x: x)
+            self.lookup.update((f'soapfish:{i}', schema) for i, schema in enumerate(schemas))
 
         def resolve(self, url, id_, context):
             if url in self.lookup:
@@ -257,7 +258,13 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
+    if len(schemas) == 1:
+        schema_xml = etree.tostring(generate_xsd(schemas[0]))
+    else:
+        root = etree.Element('{%s}schema' % ns.xsd)
+        for i, schema in enumerate(schemas):
+            etree.SubElement(root, '{%s}import' % ns.xsd, namespace=schema.targetNamespace, schemaLocation=f'soapfish:{i}')
+        schema_xml = etree.tostring(root)
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
-- 
2.43.0


From b37651faf928a4d0bca68efa21e9fb13ae977529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 051/104] fix: client reads answers whose output element has a
 simple type

---
 soapfish/soap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index e8ca771..cab3c8b 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -115,7 +115,7 @@ class Stub:
             raise error
 
         if isinstance(method.output, str):
-            _type = self.service.find_element_by_name(method.output)._type.__class__
+            _type = self.service.find_element_by_name(method.output)._type
         else:
             _type = method.output
 
-- 
2.43.0


From d140f5275962f2cc67be4714d066a535b0bf3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 052/104] fix: client takes answers with a nil header

---
 soapfish/soap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index cab3c8b..c862e76 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -5,7 +5,7 @@ import string
 
 import requests
 
-from . import core, namespaces as ns, soap11, soap12, wsa
+from . import core, namespaces as ns, soap11, soap12, wsa, xsd
 from .utils import uncapitalize
 
 SOAP_HTTP_Transport = ns.wsdl_soap_http
@@ -104,6 +104,9 @@ class Stub:
         soap = self.service.version
         envelope = soap.Envelope.parsexml(content)
 
+        if envelope.Header is xsd.NIL:
+            envelope.Header = None
+
         if envelope.Header and method and method.output_header:
             response_header = envelope.Header.parse_as(method.output_header)
         else:
-- 
2.43.0


From 9b6770e8a286b0882f6029c45bd8420ad21b702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 053/104] fix: client takes only the envelope's own Fault
 element for a fault

---
 soapfish/soap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index c862e76..f753bf8 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -112,7 +112,7 @@ class Stub:
         else:
             response_header = None
 
-        if envelope.Body.Fault:
+        if envelope.Body.Fault and envelope.Body.content().tag == f'{{{soap.ENVELOPE_NAMESPACE}}}Fault':
             code, message, actor = soap.parse_fault_message(envelope.Body.Fault)
             error = core.SOAPError(code=code, message=message, actor=actor)
             raise error
-- 
2.43.0


From edadaaa8889cefb51bc2f8476604eeea8391210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 054/104] fix: limits of lists in generated XSD are those of
 the model

---
 soapfish/py2xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index d5d8108..0cdfded 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -55,8 +55,10 @@ def create_xsd_element(element):
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
     xsd_element.minOccurs = element._minOccurs
-    if hasattr(element, '_maxOccurs'):
-        xsd_element.maxOccurs = element._maxOccurs
+    if isinstance(element, xsd.ListElement):
+        # No limit is not the same as no attribute, the attributes default to 1:
+        xsd_element.minOccurs = element._minOccurs or 0
+        xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
     # SimpleType defined in place.
     _type = element._type
-- 
2.43.0


From 688c4d26307a92093de6e639712db539d97a782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 055/104] fix: bounds in generated XSD are written in XSD's
 lexical form

---
 soapfish/py2xsd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 0cdfded..1e8ec4b 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -80,16 +80,16 @@ def create_xsd_element(element):
             xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
 
         if getattr(_type, 'minInclusive', None) is not None:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
+            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.minInclusive))
 
         if getattr(_type, 'minExclusive', None) is not None:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
+            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.minExclusive))
 
         if getattr(_type, 'maxExclusive', None) is not None:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
+            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.maxExclusive))
 
         if getattr(_type, 'maxInclusive', None) is not None:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
+            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.maxInclusive))
 
         if getattr(_type, 'totalDigits', None) is not None:
             xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
-- 
2.43.0


From 0d31ed434ac2b87d0a6fb93c5414ed7749d30ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 056/104] fix: named simple types keep all their facets in
 generated XSD

---
 soapfish/py2xsd.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 1e8ec4b..e7c9be6 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -133,18 +133,31 @@ def xsd_complexType(complexType, named=True):
 
 
 def xsd_simpleType(st):
+    _type = st()
+
+    def facet_value(name):
+        # Declared in the class body, else by what its instances check (e.g. numbers):
+        value = getattr(st, name, None)
+        return getattr(_type, name, None) if value is None else value
+
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
     xsd_restriction = xsdspec.Restriction()
     xsd_restriction.base = get_xsd_type(st.__bases__[0]())
-    if hasattr(st, 'enumeration') and st.enumeration:
-        for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
-    if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
-    elif hasattr(st, 'pattern') and st.pattern:
-        xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
-    set_string_facets(xsd_restriction, st)
+    for enum in facet_value('enumeration') or ():
+        xsd_restriction.enumerations.append(xsdspec.Enumeration.create(_type.xmlvalue(enum)))
+    for facet in ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive'):
+        value = facet_value(facet)
+        if value is not None:
+            setattr(xsd_restriction, facet, xsdspec.RestrictionValue(value=_type.xmlvalue(value)))
+    for facet in ('fractionDigits', 'totalDigits'):
+        value = facet_value(facet)
+        if value is not None:
+            setattr(xsd_restriction, facet, xsdspec.RestrictionValue(value=str(value)))
+    pattern = facet_value('pattern')
+    if pattern:
+        xsd_restriction.pattern = xsdspec.Pattern(value=pattern)
+    set_string_facets(xsd_restriction, _type)
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
-- 
2.43.0


From ad97c8ae0f1901556e730598daa09dc6560cc266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 057/104] fix: generated XSD declares the members of groups a
 type refers to

---
 soapfish/py2xsd.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index e7c9be6..fc992a9 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -100,12 +100,25 @@ def create_xsd_element(element):
     return xsd_element
 
 
+def with_groups(complexType, kind):
+    """List the elements ('fields') or 'attributes' of a complex type, those of the groups it refers to in their place."""
+    members = []
+    for member in sorted(getattr(complexType._meta, kind) + complexType._meta.groups, key=lambda m: m._creation_number):
+        if not isinstance(member, xsd.Ref):
+            members.append(member)
+            continue
+        member._evaluate_type()
+        if isinstance(member._type, xsd.Group):
+            members.extend(with_groups(type(member._type), kind))
+    return members
+
+
 def xsd_complexType(complexType, named=True):
     xsd_ct = xsdspec.XSDComplexType()
     if named:
         xsd_ct.name = uncapitalize(complexType.__name__)
 
-    for attribute in complexType._meta.attributes:
+    for attribute in with_groups(complexType, 'attributes'):
         xsd_attr = xsd_attribute(attribute)
         xsd_ct.attributes.append(xsd_attr)
 
@@ -119,7 +132,7 @@ def xsd_complexType(complexType, named=True):
     else:
         container = xsd_ct
 
-    for element in complexType._meta.fields:
+    for element in with_groups(complexType, 'fields'):
         for element_ in element.xsd_elements():
             if element_._type is None:
                 # The type must be known in order to generate a valid schema. The
-- 
2.43.0


From 70400c3cb8df8651805f0845f9f9f3e80c541383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 058/104] fix: generated XSD for simple typed and nillable
 global elements

---
 soapfish/py2xsd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index fc992a9..fe1e3ec 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -217,6 +217,8 @@ def generate_elements(xsd_schema, schema):
     for name, element in schema.elements.items():
         xsd_element = xsdspec.Element()
         xsd_element.name = name
+        if element.nillable:
+            xsd_element.nillable = True
 
         # TODO: Support non-string values for substitutionGroup:
         if element.substitutionGroup is not None:
@@ -225,6 +227,10 @@ def generate_elements(xsd_schema, schema):
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
             xsd_element.type = get_xsd_type(element._type)
+        elif isinstance(element._type, xsd.SimpleType):
+            local = xsd.Element(element._type, tagname=name)
+            local._evaluate_type()
+            xsd_element.simpleType = create_xsd_element(local).simpleType
         else:
             xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
 
-- 
2.43.0


From 917c2a8a1a53650e1c708f8b71e05db83db8a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 059/104] fix: generated XSD for elements declared with an
 instance of a complex type

---
 soapfish/py2xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index fe1e3ec..be37add 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -63,7 +63,9 @@ def create_xsd_element(element):
     # SimpleType defined in place.
     _type = element._type
 
-    if not inspect.isclass(element._passed_type):
+    if isinstance(element._passed_type, xsd.ComplexType):
+        xsd_element.complexType = xsd_complexType(type(_type), named=False)
+    elif not inspect.isclass(element._passed_type):
         xsd_element.simpleType = xsdspec.SimpleType()
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-- 
2.43.0


From 36f2996fee9a377ac2c662d715146dcbdbd62705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 060/104] fix: generated WSDL of services with several schemas
 refers to the right namespaces

---
 soapfish/py2wsdl.py | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..7963b81 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -65,23 +65,47 @@ def build_portTypes(wsdl, definitions, service):
     definitions.portTypes.append(portType)
 
 
+def content_namespace(service, content):
+    """Return the namespace of the element or type that is the input or output of a method."""
+    if isinstance(content, str):
+        element = service.find_element_by_name(content)
+        namespace = None if element is None else element.namespace
+    elif content.__module__ == xsd.__name__:
+        namespace = ns.xsd
+    else:
+        namespace = None if content.SCHEMA is None else content.SCHEMA.targetNamespace
+    return service.schemas[0].targetNamespace if namespace is None else namespace
+
+
+def schema_prefixes(service):
+    """Return the prefix of every namespace the messages refer to."""
+    prefixes = {service.schemas[0].targetNamespace: 'sns', ns.xsd: 'xsd'}
+    for method in service.methods:
+        for content in (method.input, method.output):
+            prefixes.setdefault(content_namespace(service, content), f'sns{len(prefixes)}')
+    return prefixes
+
+
 def build_messages(wsdl, definitions, service):
+    prefixes = schema_prefixes(service)
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
         part = wsdl.Part(name='body')
+        prefix = prefixes[content_namespace(service, method.input)]
         if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
+            part.element = prefix + ':' + method.input
         else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
+            part.type = prefix + ':' + uncapitalize(method.input.__name__)
         inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
         part = wsdl.Part(name='body')
+        prefix = prefixes[content_namespace(service, method.output)]
         if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
+            part.element = prefix + ':' + method.output
         else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
+            part.type = prefix + ':' + uncapitalize(method.output.__name__)
         outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
@@ -103,12 +127,10 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{prefix: namespace for namespace, prefix in schema_prefixes(service).items()},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
-            'xsd': ns.xsd,
         },
     )
 
@@ -117,6 +139,13 @@ def generate_wsdl(service):
                        namespace=ns.wsdl,
                        elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
 
+    # The prefix 'sns' stands for the namespace of the schema it is used in:
+    for schema, xsdelement in zip(service.schemas, xmlelement.findall(f'{{{ns.wsdl}}}types/{{{ns.xsd}}}schema')):
+        if schema.targetNamespace != service.schemas[0].targetNamespace:
+            replacement = etree.Element(xsdelement.tag, xsdelement.attrib, nsmap={'sns': schema.targetNamespace})
+            replacement.extend(xsdelement)
+            xsdelement.getparent().replace(xsdelement, replacement)
+
     return xmlelement
 
 
-- 
2.43.0


From 070b80bcfbc2413238598e08eb19efe594d1e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 061/104] fix: generated XSD knows the types of attributes of
 local complex types

---
 soapfish/py2xsd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index be37add..c34e9fa 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -36,6 +36,7 @@ def get_xsd_type(_type):
 
 
 def xsd_attribute(attribute):
+    attribute._evaluate_type()
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-- 
2.43.0


From 5cbf14f24ddca3c7e6fcc2ef85ccb5cbc8893853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 062/104] fix: 'sns' is the schema's own namespace in each
 schema of generated WSDL

---
 soapfish/py2wsdl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 7963b81..76f3fa8 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -140,11 +140,11 @@ def generate_wsdl(service):
                        elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
 
     # The prefix 'sns' stands for the namespace of the schema it is used in:
-    for schema, xsdelement in zip(service.schemas, xmlelement.findall(f'{{{ns.wsdl}}}types/{{{ns.xsd}}}schema')):
-        if schema.targetNamespace != service.schemas[0].targetNamespace:
-            replacement = etree.Element(xsdelement.tag, xsdelement.attrib, nsmap={'sns': schema.targetNamespace})
+    for types in xmlelement.findall(f'{{{ns.wsdl}}}types'):
+        for schema, xsdelement in zip(service.schemas, list(types)):
+            replacement = etree.SubElement(types, xsdelement.tag, xsdelement.attrib, nsmap={'sns': schema.targetNamespace})
             replacement.extend(xsdelement)
-            xsdelement.getparent().replace(xsdelement, replacement)
+            types.remove(xsdelement)
 
     return xmlelement
 
-- 
2.43.0


From 7e1b7e8e028edd30ce7c4331fada94f991e4cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 063/104] fix: generated XSD refers to types of imported
 schemas in their namespace

---
 soapfish/py2wsdl.py |  6 ++++--
 soapfish/py2xsd.py  | 43 ++++++++++++++++++++++++++-----------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 76f3fa8..9408487 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -8,7 +8,7 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd
-from .py2xsd import generate_xsdspec
+from .py2xsd import generate_xsdspec, import_prefixes
 from .soap import SOAP_HTTP_Transport
 from .utils import uncapitalize
 from .wsdl import get_wsdl_classes
@@ -142,7 +142,9 @@ def generate_wsdl(service):
     # The prefix 'sns' stands for the namespace of the schema it is used in:
     for types in xmlelement.findall(f'{{{ns.wsdl}}}types'):
         for schema, xsdelement in zip(service.schemas, list(types)):
-            replacement = etree.SubElement(types, xsdelement.tag, xsdelement.attrib, nsmap={'sns': schema.targetNamespace})
+            nsmap = {prefix: namespace for namespace, prefix in import_prefixes(schema).items()}
+            nsmap['sns'] = schema.targetNamespace
+            replacement = etree.SubElement(types, xsdelement.tag, xsdelement.attrib, nsmap=nsmap)
             replacement.extend(xsdelement)
             types.remove(xsdelement)
 
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c34e9fa..b0df1c6 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -26,21 +26,29 @@ logger = logging.getLogger('soapfish')
 
 
 # --- Helpers -----------------------------------------------------------------
-def get_xsd_type(_type):
+def import_prefixes(schema):
+    """Return the prefixes of the namespaces a schema imports."""
+    return {imported.targetNamespace: f'sns{i}' for i, imported in enumerate(schema.imports, 1)}
+
+
+def get_xsd_type(_type, schema=None):
     """Check if type_ is a basic type in the XSD scope otherwise it must be user defined type."""
     base_class = _type.__class__.__bases__[0]
     if base_class == xsd.SimpleType or _type.__class__ in ALL_TYPES:
         return 'xsd:' + uncapitalize(_type.__class__.__name__)
+    own = getattr(_type, 'SCHEMA', None)
+    if schema is not None and own is not None and own.targetNamespace != schema.targetNamespace:
+        return import_prefixes(schema).get(own.targetNamespace, 'sns') + ':' + uncapitalize(_type.__class__.__name__)
     else:
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
 
-def xsd_attribute(attribute):
+def xsd_attribute(attribute, schema=None):
     attribute._evaluate_type()
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-    xsdattr.type = get_xsd_type(attribute._type)
+    xsdattr.type = get_xsd_type(attribute._type, schema)
     return xsdattr
 
 
@@ -51,7 +59,7 @@ def set_string_facets(restriction, _type):
             setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
 
 
-def create_xsd_element(element):
+def create_xsd_element(element, schema=None):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
@@ -65,11 +73,11 @@ def create_xsd_element(element):
     _type = element._type
 
     if isinstance(element._passed_type, xsd.ComplexType):
-        xsd_element.complexType = xsd_complexType(type(_type), named=False)
+        xsd_element.complexType = xsd_complexType(type(_type), named=False, schema=schema)
     elif not inspect.isclass(element._passed_type):
         xsd_element.simpleType = xsdspec.SimpleType()
         xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
+        xsd_element.simpleType.restriction.base = get_xsd_type(element._type, schema)
 
         if hasattr(element._type, 'enumeration') and element._type.enumeration:
             for value in element._type.enumeration:
@@ -99,7 +107,7 @@ def create_xsd_element(element):
 
         set_string_facets(xsd_element.simpleType.restriction, _type)
     else:
-        xsd_element.type = get_xsd_type(element._type)
+        xsd_element.type = get_xsd_type(element._type, schema)
     return xsd_element
 
 
@@ -116,13 +124,13 @@ def with_groups(complexType, kind):
     return members
 
 
-def xsd_complexType(complexType, named=True):
+def xsd_complexType(complexType, named=True, schema=None):
     xsd_ct = xsdspec.XSDComplexType()
     if named:
         xsd_ct.name = uncapitalize(complexType.__name__)
 
     for attribute in with_groups(complexType, 'attributes'):
-        xsd_attr = xsd_attribute(attribute)
+        xsd_attr = xsd_attribute(attribute, schema)
         xsd_ct.attributes.append(xsd_attr)
 
     # Elements can be wrapped with few type of containers:
@@ -143,12 +151,12 @@ def xsd_complexType(complexType, named=True):
                 # unable to reproduce the error condition in a test case.
                 # Forcing type evaluation fixed the problem though.
                 element_._evaluate_type()
-            xsd_element = create_xsd_element(element_)
+            xsd_element = create_xsd_element(element_, schema)
             container.elements.append(xsd_element)
     return xsd_ct
 
 
-def xsd_simpleType(st):
+def xsd_simpleType(st, schema=None):
     _type = st()
 
     def facet_value(name):
@@ -159,7 +167,7 @@ def xsd_simpleType(st):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
     xsd_restriction = xsdspec.Restriction()
-    xsd_restriction.base = get_xsd_type(st.__bases__[0]())
+    xsd_restriction.base = get_xsd_type(st.__bases__[0](), schema)
     for enum in facet_value('enumeration') or ():
         xsd_restriction.enumerations.append(xsdspec.Enumeration.create(_type.xmlvalue(enum)))
     for facet in ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive'):
@@ -205,11 +213,11 @@ def generate_xsdspec(schema):
     build_imports(xsd_schema, schema.imports)
     build_includes(xsd_schema, schema.includes)
     for st in schema.simpleTypes:
-        xsd_st = xsd_simpleType(st)
+        xsd_st = xsd_simpleType(st, schema)
         xsd_schema.simpleTypes.append(xsd_st)
 
     for ct in schema.complexTypes:
-        xsd_ct = xsd_complexType(ct)
+        xsd_ct = xsd_complexType(ct, schema=schema)
         xsd_schema.complexTypes.append(xsd_ct)
 
     generate_elements(xsd_schema, schema)
@@ -229,13 +237,13 @@ def generate_elements(xsd_schema, schema):
             xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
-            xsd_element.type = get_xsd_type(element._type)
+            xsd_element.type = get_xsd_type(element._type, schema)
         elif isinstance(element._type, xsd.SimpleType):
             local = xsd.Element(element._type, tagname=name)
             local._evaluate_type()
-            xsd_element.simpleType = create_xsd_element(local).simpleType
+            xsd_element.simpleType = create_xsd_element(local, schema).simpleType
         else:
-            xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+            xsd_element.complexType = xsd_complexType(element._type.__class__, named=False, schema=schema)
 
         xsd_schema.elements.append(xsd_element)
 
@@ -248,6 +256,7 @@ def generate_xsd(schema):
         nsmap={
             'sns': schema.targetNamespace,
             'xsd': xsdspec.XSD_NAMESPACE,
+            **{prefix: namespace for namespace, prefix in import_prefixes(schema).items()},
         },
     )
 
-- 
2.43.0


From f77328f5ebcad828a156b5e29d010b005a3c122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 064/104] fix: generated code for XML names that are no Python
 names is valid

---
 soapfish/templates/lib.jinja2 | 14 +++++++-------
 soapfish/utils.py             |  7 ++++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..59b0d0f 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -121,10 +121,10 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
     {{ render_xsd_element(element, known_types) }}
@@ -139,14 +139,14 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
     enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
+    {%- if element.name|fix_keyword != element.name %}tagname='{{ element.name }}',{% endif %}
     {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
@@ -160,7 +160,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
     {%- endif %}
     {%- if element.ref %}
-    {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
+    {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
     {%- endif %}
 {%- endmacro %}
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 47e9477..fc5afa0 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -144,13 +144,18 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 
     keywords = set(keyword.kwlist)
 
+    def fix_keyword(value):
+        # XML names may also have characters which Python names must not have:
+        name = re.sub(r'\W', '_', str(value))
+        return f'_{name}' if name in keywords else name
+
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
         loader=PackageLoader('soapfish', 'templates'),
     )
     env.filters.update(
         capitalize=capitalize,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        fix_keyword=fix_keyword,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
         type=get_type,
-- 
2.43.0


From 42589622ab3ac1917769713d38f0b53e55d603de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 065/104] fix: generated code keeps the occurrence, nillability
 and name of elements with a local simple type

---
 soapfish/templates/lib.jinja2 | 45 ++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 59b0d0f..ec98adf 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -139,31 +139,42 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- endif %}
-    {%- if element.name|fix_keyword != element.name %}tagname='{{ element.name }}',{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_local_simpleType(element.simpleType.restriction, known_types) }}{{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
     {%- endif %}
 {%- endmacro %}
 
+{% macro render_field_arguments(element) -%}
+    {%- set many = element.maxOccurs and element.maxOccurs > 1 %}
+    {%- if many or element.name|fix_keyword != element.name %}, tagname='{{ element.name }}'{% endif %}
+    {%- if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}
+    {%- if many %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}
+    {%- if element.nillable %}, nillable=True{% endif %}
+{%- endmacro %}
+
+{% macro render_local_simpleType(restriction, known_types=None) -%}
+    {{ restriction|type(known_types) }}(
+    {%- if restriction.enumerations -%}
+    enumeration=[{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
+    {%- endif %}
+    {%- if restriction.minInclusive %}minInclusive={{ restriction.minInclusive.value }},{% endif %}
+    {%- if restriction.maxInclusive %}maxInclusive={{ restriction.maxInclusive.value }},{% endif %}
+    {%- if restriction.minExclusive %}minExclusive={{ restriction.minExclusive.value }},{% endif %}
+    {%- if restriction.maxExclusive %}maxExclusive={{ restriction.maxExclusive.value }},{% endif %}
+    {%- if restriction.fractionDigits %}fractionDigits={{ restriction.fractionDigits.value }},{% endif %}
+    {%- if restriction.totalDigits %}totalDigits={{ restriction.totalDigits.value }},{% endif %}
+    {%- if restriction.pattern %}pattern=r'{{ restriction.pattern.value }}',{% endif %}
+    {%- if restriction.length %}length={{ restriction.length.value }},{% endif %}
+    {%- if restriction.minLength %}minLength={{ restriction.minLength.value }},{% endif %}
+    {%- if restriction.maxLength %}maxLength={{ restriction.maxLength.value }},{% endif %}
+    {%- if restriction.whiteSpace %}whiteSpace={{ restriction.whiteSpace.value }},{% endif %})
+{%- endmacro %}
+
 {% macro render_create_method(elements, known_types=None) -%}
 {# [blank line] #}
     @classmethod
-- 
2.43.0


From 8382bdff45b075adb1342ad0e1cc7ef2b3ab85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 066/104] fix: generated code keeps the nillability and local
 simple types of global elements

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index ec98adf..6ea23b0 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% elif e.simpleType %}{{ render_local_simpleType(e.simpleType.restriction, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.nillable %}, nillable=True{% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
-- 
2.43.0


From 3733e9476df66ddf4bb16a636001a66401e9b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 067/104] fix: generated code keeps all facets of named simple
 types

---
 soapfish/templates/lib.jinja2 | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 6ea23b0..b32b34a 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -69,19 +69,20 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- if restriction.pattern %}
     pattern = r'{{ restriction.pattern.value }}'
 {%- endif %}
-{%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
-{%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
-{%- endif %}
-{%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
-{%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
+{%- for facet in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive') if restriction[facet] %}
+    {{ facet }} = r'{{ restriction[facet].value }}'
+{%- endfor %}
+{%- for facet in ('fractionDigits', 'totalDigits', 'length', 'minLength', 'maxLength') if restriction[facet] %}
+    {{ facet }} = {{ restriction[facet].value }}
+{%- endfor %}
+{%- if restriction.whiteSpace %}
+    whiteSpace = '{{ restriction.whiteSpace.value }}'
 {%- endif %}
 {%- if not restriction.enumerations and not restriction.pattern
         and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+        and not restriction.maxInclusive and not restriction.maxExclusive
+        and not restriction.fractionDigits and not restriction.totalDigits and not restriction.length
+        and not restriction.minLength and not restriction.maxLength and not restriction.whiteSpace %}
     pass
 {%- endif %}
 {# [blank line] #}
@@ -172,7 +173,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if restriction.length %}length={{ restriction.length.value }},{% endif %}
     {%- if restriction.minLength %}minLength={{ restriction.minLength.value }},{% endif %}
     {%- if restriction.maxLength %}maxLength={{ restriction.maxLength.value }},{% endif %}
-    {%- if restriction.whiteSpace %}whiteSpace={{ restriction.whiteSpace.value }},{% endif %})
+    {%- if restriction.whiteSpace %}whiteSpace='{{ restriction.whiteSpace.value }}',{% endif %})
 {%- endmacro %}
 
 {% macro render_create_method(elements, known_types=None) -%}
-- 
2.43.0


From 88d34702ed7b2f4ae889a92d4618ed241b815bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 068/104] fix: generated code quotes enumeration values,
 patterns and namespaces

---
 soapfish/templates/lib.jinja2 | 10 +++++-----
 soapfish/utils.py             |  8 ++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index b32b34a..5d2bde2 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,7 +15,7 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
     location='{{ location|url_template }}',{% endif %}
     elementFormDefault='{{ schema.elementFormDefault }}',
@@ -64,10 +64,10 @@ class {{ group.name|capitalize }}(xsd.Group):
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
+    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}]
 {%- endif %}
 {%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
+    pattern = {{ restriction.pattern.value|literal('r') }}
 {%- endif %}
 {%- for facet in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive') if restriction[facet] %}
     {{ facet }} = r'{{ restriction[facet].value }}'
@@ -161,7 +161,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_local_simpleType(restriction, known_types=None) -%}
     {{ restriction|type(known_types) }}(
     {%- if restriction.enumerations -%}
-    enumeration=[{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
+    enumeration=[{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
     {%- if restriction.minInclusive %}minInclusive={{ restriction.minInclusive.value }},{% endif %}
     {%- if restriction.maxInclusive %}maxInclusive={{ restriction.maxInclusive.value }},{% endif %}
@@ -169,7 +169,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if restriction.maxExclusive %}maxExclusive={{ restriction.maxExclusive.value }},{% endif %}
     {%- if restriction.fractionDigits %}fractionDigits={{ restriction.fractionDigits.value }},{% endif %}
     {%- if restriction.totalDigits %}totalDigits={{ restriction.totalDigits.value }},{% endif %}
-    {%- if restriction.pattern %}pattern=r'{{ restriction.pattern.value }}',{% endif %}
+    {%- if restriction.pattern %}pattern={{ restriction.pattern.value|literal('r') }},{% endif %}
     {%- if restriction.length %}length={{ restriction.length.value }},{% endif %}
     {%- if restriction.minLength %}minLength={{ restriction.minLength.value }},{% endif %}
     {%- if restriction.maxLength %}maxLength={{ restriction.maxLength.value }},{% endif %}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index fc5afa0..00dd362 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -144,6 +144,13 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 
     keywords = set(keyword.kwlist)
 
+    def literal(value, prefix=''):
+        # Quotes, backslashes and control characters cannot always be written as they are:
+        plain = isinstance(value, str) and value.isprintable() and "'" not in value
+        if plain and ('\\' not in value or prefix and not value.endswith('\\')):
+            return f"{prefix}'{value}'"
+        return repr(value)
+
     def fix_keyword(value):
         # XML names may also have characters which Python names must not have:
         name = re.sub(r'\W', '_', str(value))
@@ -156,6 +163,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         fix_keyword=fix_keyword,
+        literal=literal,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
         type=get_type,
-- 
2.43.0


From e2fda27435830204172108a985af4d15675cfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 069/104] fix: generated code keeps local complex types of
 elements

---
 soapfish/templates/lib.jinja2 | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 5d2bde2..f8452bb 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -91,17 +91,21 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 
 {% macro render_complexType(class_name, content, known_types=None) -%}
 {%- set ct = content %}
+{%- set body = ct.complexContent.restriction or ct.complexContent.extension or ct %}
+{%- for element in (body.sequence or body.choice or body.all).elements if element.complexType %}
+{{ render_complexType(class_name ~ '_' ~ element.name|fix_keyword, element.complexType, known_types) }}
+{%- endfor %}
 {%- if not ct.sequence and not ct.complexContent %}
 class {{ class_name|capitalize }}(xsd.ComplexType):
     pass
 {%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
@@ -128,7 +132,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
-    {{ render_xsd_element(element, known_types) }}
+    {{ render_xsd_element(element, known_types, class_name) }}
 {%- endfor %}
 {%- if content.sequence %}
 {{ render_create_method(elements, known_types) }}
@@ -137,7 +141,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {# blank line #}
 {%- endmacro %}
 
-{% macro render_xsd_element(element, known_types=None) -%}
+{% macro render_xsd_element(element, known_types=None, class_name='') -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_field_arguments(element) }})
@@ -145,6 +149,9 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_local_simpleType(element.simpleType.restriction, known_types) }}{{ render_field_arguments(element) }})
     {%- endif %}
+    {%- if element.complexType %}
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ class_name|capitalize }}_{{ element.name|fix_keyword }}(){{ render_field_arguments(element) }})
+    {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
     {%- endif %}
-- 
2.43.0


From 6e35b8fa514c620b430885bb4e70ddfd928fea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 070/104] fix: objects can be made before the types of their
 elements are defined

---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 4340c47..a44aca5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -611,6 +611,8 @@ class Element:
 
     def accept(self, value):
         """Check if the value correct from type defined in constructions."""
+        if value is None:
+            return None  # the type may not be known yet
         self._evaluate_type()
         if value is NIL:
             if self.nillable:
-- 
2.43.0


From 64d2012f15cebb5913921464d91cf4af2a907e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 071/104] fix: generated code defines base types before the
 types derived from them

---
 soapfish/xsd2py.py | 51 +++++++++++++---------------------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..d6c7e83 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -11,7 +10,7 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
 
 logger = logging.getLogger('soapfish')
 
@@ -79,42 +78,20 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
 
 def _reorder_complexTypes(schema):
     """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
+    bases = {}
+    for complex_type in schema.complexTypes:
         content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
-
-        weights[complex_type.name] = (n, base)
-
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
-
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
-
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+        derivation = (content.extension or content.restriction) if content else None
+        bases[complex_type.name] = remove_namespace(derivation.base) if derivation else None
+
+    def depth(complex_type):
+        """Count the types of this schema the type is derived from."""
+        name, count = bases[complex_type.name], 0
+        while name in bases and count < len(bases):
+            name, count = bases[name], count + 1
+        return count
+
+    schema.complexTypes.sort(key=depth)
 
 
 def schema_to_py(schema, xsd_namespaces,
-- 
2.43.0


From 80b92d24f9b370c929d4de3b73277609b8a174dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 072/104] fix: generated code names classes with Python names

---
 soapfish/templates/lib.jinja2 | 2 +-
 soapfish/utils.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index f8452bb..9b50981 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -150,7 +150,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_local_simpleType(element.simpleType.restriction, known_types) }}{{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.complexType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ class_name|capitalize }}_{{ element.name|fix_keyword }}(){{ render_field_arguments(element) }})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ (class_name ~ '_' ~ element.name|fix_keyword)|capitalize }}(){{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 00dd362..5415fe4 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -83,7 +83,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     from . import soap, xsd, xsdspec, wsdl
 
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        return fix_keyword(value[0].upper() + value[1:])
 
     def use(value):
         from . import xsd
-- 
2.43.0


From 0cbaeec3899eb67121ae4b0b9f89bc20fade473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 073/104] fix: generated code requires an occurrence of
 repeated elements without minOccurs

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 9b50981..a7973ca 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -160,7 +160,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_field_arguments(element) -%}
     {%- set many = element.maxOccurs and element.maxOccurs > 1 %}
     {%- if many or element.name|fix_keyword != element.name %}, tagname='{{ element.name }}'{% endif %}
-    {%- if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}
+    {%- if many or element.minOccurs is not none %}, minOccurs={{ 1 if element.minOccurs is none else element.minOccurs }}{% endif %}
     {%- if many %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}
     {%- if element.nillable %}, nillable=True{% endif %}
 {%- endmacro %}
-- 
2.43.0


From 75d1a29b90b16f440788c3f82c101e16a2005fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 074/104] fix: generated fields do not replace members of
 complex types

---
 soapfish/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 5415fe4..0f32da3 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -143,6 +143,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             return f"__name__ + '.{name}'"
 
     keywords = set(keyword.kwlist)
+    # Names that mean something else in the classes of complex types and their methods:
+    reserved = keywords | set(dir(xsd.ComplexType)) | {'cls', 'create', 'instance', 'xsd'}
 
     def literal(value, prefix=''):
         # Quotes, backslashes and control characters cannot always be written as they are:
@@ -154,7 +156,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def fix_keyword(value):
         # XML names may also have characters which Python names must not have:
         name = re.sub(r'\W', '_', str(value))
-        return f'_{name}' if name in keywords else name
+        return f'_{name}' if name in reserved else name
 
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
-- 
2.43.0


From 8c3fec3d2d90a863830b9acfea34f3fdd2666c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 075/104] fix: generated fields do not hide types of the same
 name

---
 soapfish/templates/lib.jinja2 | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index a7973ca..22fc1eb 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -124,15 +124,18 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     INDICATOR = xsd.Choice
     {%- set elements = content.choice.elements %}
 {%- endif %}
+{#- In the class body, the name of a field is not the type of the same name: -#}
+{%- set fields = (content.attributes|list + elements|default([])|list)|map(attribute='name')|map('fix_keyword')|list %}
+{%- set field_types = known_types|default([], true)|reject('in', fields)|list %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(field_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(field_types) }})
 {%- endfor %}
 {%- for element in elements -%}
-    {{ render_xsd_element(element, known_types, class_name) }}
+    {{ render_xsd_element(element, known_types, class_name, field_types) }}
 {%- endfor %}
 {%- if content.sequence %}
 {{ render_create_method(elements, known_types) }}
@@ -141,10 +144,10 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {# blank line #}
 {%- endmacro %}
 
-{% macro render_xsd_element(element, known_types=None, class_name='') -%}
+{% macro render_xsd_element(element, known_types=None, class_name='', field_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_field_arguments(element) }})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(field_types) }}{{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_local_simpleType(element.simpleType.restriction, known_types) }}{{ render_field_arguments(element) }})
@@ -153,7 +156,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ (class_name ~ '_' ~ element.name|fix_keyword)|capitalize }}(){{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.ref %}
-    {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
+    {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(field_types) }})
     {%- endif %}
 {%- endmacro %}
 
-- 
2.43.0


From 6371a2a593c68a698b85c14fb2b048374af1960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 076/104] fix: code is generated for derived types without
 elements

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 22fc1eb..e477276 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -92,7 +92,7 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {% macro render_complexType(class_name, content, known_types=None) -%}
 {%- set ct = content %}
 {%- set body = ct.complexContent.restriction or ct.complexContent.extension or ct %}
-{%- for element in (body.sequence or body.choice or body.all).elements if element.complexType %}
+{%- for element in (body.sequence or body.choice or body.all or {}).elements if element.complexType %}
 {{ render_complexType(class_name ~ '_' ~ element.name|fix_keyword, element.complexType, known_types) }}
 {%- endfor %}
 {%- if not ct.sequence and not ct.complexContent %}
-- 
2.43.0


From 053f7a60bdbe8ea33fbf054d352c26f892f65c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 077/104] fix: generated fields have no private names

---
 soapfish/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 0f32da3..41661d9 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -156,7 +156,10 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def fix_keyword(value):
         # XML names may also have characters which Python names must not have:
         name = re.sub(r'\W', '_', str(value))
-        return f'_{name}' if name in reserved else name
+        if name in reserved:
+            name = f'{name}_' if name.startswith('_') else f'_{name}'
+        # Python would make other names of private ones:
+        return f'{name}__' if name.startswith('__') and not name.endswith('__') else name
 
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
-- 
2.43.0


From 373834b5feb41c108aa47346aed824ce3c108b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 078/104] fix: generated fields of groups do not hide types of
 the same name

---
 soapfish/templates/lib.jinja2 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index e477276..acf0e36 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -43,9 +43,11 @@ class {{ name|capitalize }}(xsd.List):
 
 {% macro render_xsd_AttributeGroup(attrGroup, known_types=None) -%}
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
+    {%- set fields = attrGroup.attributes|map(attribute='name')|map('fix_keyword')|list %}
+    {%- set field_types = known_types|default([], true)|reject('in', fields)|list %}
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(field_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -53,9 +55,11 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 
 {% macro render_xsd_Group(group, known_types=None) -%}
 class {{ group.name|capitalize }}(xsd.Group):
+    {%- set fields = group.sequence.elements|map(attribute='name')|map('fix_keyword')|list %}
+    {%- set field_types = known_types|default([], true)|reject('in', fields)|list %}
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ element|type(field_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
-- 
2.43.0


From 76c35f760275a8d9bfba7e0f1e1a5004ea562e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 079/104] fix: texts of decimals without fraction digits are
 accepted

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a44aca5..0332759 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -399,7 +399,7 @@ class Decimal(SimpleType):
         elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
-            value = float(value)
+            value = int(value) if self.fractionDigits == 0 else float(value)
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
-- 
2.43.0


From 234ce4e3e76d2b15e7a6161e7e0417f217686837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 080/104] fix: choices can be rendered without the items of
 their repeated elements

---
 soapfish/xsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0332759..3b19ca2 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -945,10 +945,13 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if self.SCHEMA:
             namespace = self.SCHEMA.targetNamespace
         for field in instance._meta.all:
+            value = getattr(instance, field._name)
+            if self.INDICATOR == Choice and isinstance(field, ListElement) and not value:
+                continue  # another element was chosen
             field.render(
                 parent=parent,
                 field_name=field.tagname or field._name,
-                value=getattr(instance, field._name),
+                value=value,
                 namespace=namespace,
                 elementFormDefault=elementFormDefault)
 
-- 
2.43.0


From 955b2e6f5e931dd9d3488022e646b82480dfbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 081/104] fix: the element of a choice may have the name of one
 of its alternatives

---
 soapfish/xsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3b19ca2..a616d22 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -993,7 +993,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
 
         # The selected element of a choice may be passed without the element that contains it:
         is_choice = (instance._meta.cls.INDICATOR == Choice) \
-            and any(cls._is_matching_element(field, xmlelement) for field in instance._meta.fields)
+            and any(cls._is_matching_element(field, xmlelement) for field in instance._meta.fields) \
+            and not any(cls._find_subelement(field, xmlelement) for field in instance._meta.fields)
         for field in instance._meta.fields:
             if is_choice:
                 if not cls._is_matching_element(field, xmlelement):
-- 
2.43.0


From 42254d711cb9cb769dbedb71f316ce6f98d580d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 082/104] fix: the alternatives of an object are those of its
 class

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a616d22..9a1d9c7 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -946,7 +946,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             namespace = self.SCHEMA.targetNamespace
         for field in instance._meta.all:
             value = getattr(instance, field._name)
-            if self.INDICATOR == Choice and isinstance(field, ListElement) and not value:
+            if instance.INDICATOR == Choice and isinstance(field, ListElement) and not value:
                 continue  # another element was chosen
             field.render(
                 parent=parent,
-- 
2.43.0


From ed75e66f09fa9538363549c6e81bd7d2ccc226de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 083/104] fix: messages may refer to types

---
 soapfish/templates/wsdl.jinja2 | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..f0feedb 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name }}(request, {{ (_im.part.element or _im.part.name)|remove_namespace }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return {{ (_om.part.element or _om.part.name)|remove_namespace }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -46,24 +46,24 @@ def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
 class {{ _im.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
+    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element')|select)) }}
     {%- for part in _imh -%}
     {%- if part.element %}
     {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
 class {{ _om.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
+    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element')|select)) }}
     {%- for part in _omh -%}
     {%- if part.element %}
     {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
@@ -77,7 +77,7 @@ class {{ _om.name }}Headers(BaseHeader):
     input='{{ _im.part.element|remove_namespace }}',
     inputPartName='{{ _im.part.name }}',
     {%- else -%}
-    input={{ _im.part.type|remove_namespace|capitalize }},
+    input={{ _im.part.type|type([_im.part.type|remove_namespace|capitalize]) }},
     {%- endif -%}
     {%- endif -%}
     {%- if _imh %}
@@ -88,7 +88,7 @@ class {{ _om.name }}Headers(BaseHeader):
     output='{{ _om.part.element|remove_namespace }}',
     outputPartName='{{ _om.part.name }}',
     {%- else -%}
-    output={{ _om.part.type|remove_namespace|capitalize }},
+    output={{ _om.part.type|type([_om.part.type|remove_namespace|capitalize]) }},
     {%- endif -%}
     {%- endif -%}
     {%- if _omh %}
@@ -144,8 +144,9 @@ class {{ port.name }}ServiceStub(soap.Stub):
     HOST = '{{ port.address.location|url_component('netloc') }}'
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+{%- set _in = (_im.part.element or _im.part.name)|remove_namespace %}
+    def {{ operation.name }}(self, {{ _in }}, header=None):
+        return self.call('{{ operation.name}}', {{ _in }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
-- 
2.43.0


From 7a28acfd8d05341e559cfe0f06078b0737e97f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 084/104] fix: actions and locations of WSDL documents may hold
 any text or be absent

---
 soapfish/templates/wsdl.jinja2 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index f0feedb..710fda7 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -71,7 +71,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction={{ operation.operation.soapAction|default(none)|literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input='{{ _im.part.element|remove_namespace }}',
@@ -108,8 +108,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {{ port.name }}_SERVICE = soap.Service(
     name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    targetNamespace={{ definitions.targetNamespace|literal }},
+    location={{ port.address.location|url_template|literal }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
@@ -140,8 +140,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 class {{ port.name }}ServiceStub(soap.Stub):
     SERVICE = {{ port.name }}_SERVICE
-    SCHEME = '{{ port.address.location|url_component('scheme') }}'
-    HOST = '{{ port.address.location|url_component('netloc') }}'
+    SCHEME = {{ port.address.location|url_component('scheme')|literal }}
+    HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _in = (_im.part.element or _im.part.name)|remove_namespace %}
-- 
2.43.0


From a32bea26f703bb5036483e156e86de5f0e9bedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 085/104] fix: operations have the style of their binding
 unless they have one

---
 soapfish/templates/wsdl.jinja2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 710fda7..8549086 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -95,8 +95,8 @@ class {{ _om.name }}Headers(BaseHeader):
     output_header={{ _om.name }}Headers,
     {%- endif %}
     operationName='{{ operation.name }}',
-    {%- if operation.operation.style %}
-    style='{{ operation.operation.style }}',
+    {%- if operation.operation.style or binding.binding.style == 'rpc' %}
+    style='{{ operation.operation.style or binding.binding.style }}',
     {%- endif %}
 )
 {# [blank line] #}
-- 
2.43.0


From 05f9b4343ae998fe95552b57b8841ce18071ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 086/104] fix: names in WSDL documents need not be Python names

---
 soapfish/templates/wsdl.jinja2 | 44 ++++++++++++++++++----------------
 soapfish/utils.py              |  5 ++--
 soapfish/wsdl2py.py            |  2 ++
 3 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 8549086..cc18c4a 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -13,6 +13,10 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 
 {% if schemas %}{{ schemas }}{% endif -%}
 
+{#- Names of XML need not be names of Python, and must not hide names that are used: -#}
+{%- set functions = keywords.union(['soap', 'xsd', 'wsa', 'BaseHeader'], class_names) %}
+{%- set members = keywords.union(stub_names) %}
+{%- set arguments = keywords.union(['request'] if is_server else ['self', 'header']) %}
 {%- for service in definitions.services %}
 {%- for port in service.ports %}
 
@@ -28,9 +32,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ (_im.part.element or _im.part.name)|remove_namespace }}):
+def {{ operation.name|fix_keyword(functions) }}(request, {{ (_im.part.element or _im.part.name)|remove_namespace|fix_keyword(arguments) }}):
     # TODO: Put your implementation here.
-    return {{ (_om.part.element or _om.part.name)|remove_namespace }}
+    return {{ (_om.part.element or _om.part.name)|remove_namespace|fix_keyword(arguments) }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -45,31 +49,31 @@ def {{ operation.name }}(request, {{ (_im.part.element or _im.part.name)|remove_
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
-class {{ _im.name }}Headers(BaseHeader):
+class {{ (_im.name ~ 'Headers')|fix_keyword(keywords) }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element')|select)) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}(){% if part.name|fix_keyword != part.name %}, tagname='{{ part.name }}'{% endif %})
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
-class {{ _om.name }}Headers(BaseHeader):
+class {{ (_om.name ~ 'Headers')|fix_keyword(keywords) }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element')|select)) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}(){% if part.name|fix_keyword != part.name %}, tagname='{{ part.name }}'{% endif %})
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif %}
-{{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+{{ (operation.name ~ '_method')|fix_keyword(keywords) }} = xsd.Method(
+    {% if is_server %}function={{ operation.name|fix_keyword(functions) }},
     {% endif -%}
     soapAction={{ operation.operation.soapAction|default(none)|literal }},
     {%- if _im.parts -%}
@@ -81,7 +85,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ _im.name }}Headers,
+    input_header={{ (_im.name ~ 'Headers')|fix_keyword(keywords) }},
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
@@ -92,7 +96,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ _om.name }}Headers,
+    output_header={{ (_om.name ~ 'Headers')|fix_keyword(keywords) }},
     {%- endif %}
     operationName='{{ operation.name }}',
     {%- if operation.operation.style or binding.binding.style == 'rpc' %}
@@ -106,7 +110,7 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service
 {# [blank line] #}
 {# [blank line] #}
-{{ port.name }}_SERVICE = soap.Service(
+{{ (port.name ~ '_SERVICE')|fix_keyword(keywords) }} = soap.Service(
     name='{{ port.name }}',
     targetNamespace={{ definitions.targetNamespace|literal }},
     location={{ port.address.location|url_template|literal }},
@@ -116,7 +120,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
-    methods=[{% for o in binding.operations %}{{ o.name }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
+    methods=[{% for o in binding.operations %}{{ (o.name ~ '_method')|fix_keyword(keywords) }}{% if not loop.last %}, {% endif %}{% endfor %}],
 )
 {# [blank line] #}
 {# [blank line] #}
@@ -126,7 +130,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Uncomment the following lines to turn on dispatching for Django:
 # from soapfish.django_ import django_dispatcher
-# dispatcher = django_dispatcher({{ port.name }}_SERVICE)
+# dispatcher = django_dispatcher({{ (port.name ~ '_SERVICE')|fix_keyword(keywords) }})
 {# [blank line] #}
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
@@ -138,15 +142,15 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service Stub
 {# [blank line] #}
 {# [blank line] #}
-class {{ port.name }}ServiceStub(soap.Stub):
-    SERVICE = {{ port.name }}_SERVICE
+class {{ (port.name ~ 'ServiceStub')|fix_keyword(keywords) }}(soap.Stub):
+    SERVICE = {{ (port.name ~ '_SERVICE')|fix_keyword(keywords) }}
     SCHEME = {{ port.address.location|url_component('scheme')|literal }}
     HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-{%- set _in = (_im.part.element or _im.part.name)|remove_namespace %}
-    def {{ operation.name }}(self, {{ _in }}, header=None):
-        return self.call('{{ operation.name}}', {{ _in }}, header=header)
+{%- set _in = (_im.part.element or _im.part.name)|remove_namespace|fix_keyword(arguments) %}
+    def {{ operation.name|fix_keyword(members) }}(self, {{ _in }}, header=None):
+        return self.call('{{ operation.name }}', {{ _in }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 41661d9..992a7f2 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -153,10 +153,10 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             return f"{prefix}'{value}'"
         return repr(value)
 
-    def fix_keyword(value):
+    def fix_keyword(value, names=reserved):
         # XML names may also have characters which Python names must not have:
         name = re.sub(r'\W', '_', str(value))
-        if name in reserved:
+        if name in names:
             name = f'{name}_' if name.startswith('_') else f'_{name}'
         # Python would make other names of private ones:
         return f'{name}__' if name.startswith('__') and not name.endswith('__') else name
@@ -186,6 +186,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         preamble={'module': module, 'generated': datetime.now(timezone.utc)},
         schema_name=schema_name,
         schema_select=schema_select,
+        stub_names=dir(soap.Stub),
     )
     return env
 
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 0ab6ac9..50a4f20 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -4,6 +4,7 @@ import argparse
 import collections
 import logging
 import os
+import re
 import sys
 
 from lxml import etree
@@ -98,6 +99,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
         soap_version=soap_version,
         definitions=definitions,
         schemas=schemas,
+        class_names=re.findall(r'^class (\w+)', schemas, re.MULTILINE),
         is_server=bool(target == 'server'),
         use_wsa=use_wsa,
     )
-- 
2.43.0


From ddb84548da47257df2f1180169c282cf69ee9df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:41 +0000
Subject: [PATCH 087/104] fix: header blocks have the names of their elements

---
 soapfish/templates/wsdl.jinja2 | 4 ++--
 soapfish/xsd.py                | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index cc18c4a..bf02d21 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -53,7 +53,7 @@ class {{ (_im.name ~ 'Headers')|fix_keyword(keywords) }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element')|select)) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}').with_tagname('{{ part.element|remove_namespace }}')
     {%- else -%}
     {{ part.name|fix_keyword }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}(){% if part.name|fix_keyword != part.name %}, tagname='{{ part.name }}'{% endif %})
     {%- endif -%}
@@ -65,7 +65,7 @@ class {{ (_om.name ~ 'Headers')|fix_keyword(keywords) }}(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element')|select)) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}').with_tagname('{{ part.element|remove_namespace }}')
     {%- else -%}
     {{ part.name|fix_keyword }} = xsd.Element({{ part.type|type([part.type|remove_namespace|capitalize]) }}(){% if part.name|fix_keyword != part.name %}, tagname='{{ part.name }}'{% endif %})
     {%- endif -%}
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9a1d9c7..6a05de3 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,6 +27,7 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
+import copy
 import decimal
 import enum
 import functools
@@ -609,6 +610,12 @@ class Element:
     def xsd_elements(self):
         return (self, )
 
+    def with_tagname(self, tagname):
+        """Return the same element for a field of any name."""
+        element = copy.copy(self)
+        element.tagname = tagname
+        return element
+
     def accept(self, value):
         """Check if the value correct from type defined in constructions."""
         if value is None:
-- 
2.43.0


From b5b556fb6e04aa86a35a4b52a1c299af27202d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 088/104] fix: code can be generated for schemas without
 namespace

---
 soapfish/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 992a7f2..f77d008 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -60,7 +60,7 @@ def schema_name(obj, location=None):
         raise TypeError(f'Unable to generate schema name for {obj.__class__.__module__}.{obj.__class__.__name__}')
 
     try:
-        value = value.encode()
+        value = (value or '').encode()
     except UnicodeEncodeError:
         pass
 
-- 
2.43.0


From e046c36aa5e2d23886f81cc24c28098aa40227e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 089/104] fix: included schemas take the namespace of the
 schema that includes them

---
 soapfish/xsd2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index d6c7e83..3f777ca 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -70,8 +70,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
-                        standalone=standalone)
+                        location, parent_namespace, cwd=cwd,
+                        base_path=base_path, standalone=standalone)
 
     return code.encode(encoding) if encoding else code
 
-- 
2.43.0


From 6b68408e5e820fd746c670a2892244d748467ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 090/104] fix: generated code names no schemas that it does not
 define

---
 soapfish/templates/lib.jinja2 |  6 ++++--
 soapfish/templates/xsd.jinja2 |  4 ++--
 soapfish/wsdl2py.py           |  6 +++++-
 soapfish/xsd2py.py            | 16 +++++++++++-----
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index acf0e36..517f288 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -12,9 +12,10 @@
 {%- endmacro %}
 
 {% macro render_Schema(schema, location, known_types=None) -%}
+{#- There may be no code for what is imported without a location: -#}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    imports=[{% for i in schema.imports if schema_name(i) in known_schemas %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    includes=[{% for i in schema.includes if schema_name(i) in known_schemas %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
     location='{{ location|url_template }}',{% endif %}
@@ -30,6 +31,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
 # XXX: Workaround for naming issues related to relative locations!
 Schema_{{ schema_name(schema, location) }} = Schema_{{ schema_name(schema) }}
 {%- endif %}
+{%- do known_schemas.extend([schema_name(schema), schema_name(schema, location)]) %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index be4442b..824baec 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -8,12 +8,12 @@ from soapfish import xsd
 {#- XSD Includes -#}
 {%- for i in schema.includes %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, known_schemas) }}
 {%- endfor %}
 {#- XSD Imports -#}
 {%- for i in schema.imports %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, known_schemas) }}
 {%- endfor %}
 # {% if location %}{{ location }} - {% endif -%} {{ schema.targetNamespace }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 50a4f20..633adee 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -88,7 +88,11 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    kw = {
+        'cwd': cwd,
+        'parent_namespace': definitions.targetNamespace,
+        'known_schemas': [],
+    }
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 3f777ca..5f6e5f5 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -35,7 +35,7 @@ def rewrite_paths(schema, cwd, base_path):
             i.schemaLocation = os.path.relpath(path, base_path)
 
 
-def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path):
+def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path, known_schemas=None):
     assert isinstance(i, (xsdspec.Import, xsdspec.Include))
     path, cwd, location = resolve_location(i.schemaLocation, base_path)
     tag = i.__class__.__name__.lower()
@@ -44,13 +44,14 @@ def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path
 
     return generate_code_from_xsd(xml, known_paths, known_types, location,
                                   parent_namespace, encoding=None, cwd=cwd,
-                                  base_path=base_path, standalone=False)
+                                  base_path=base_path, standalone=False,
+                                  known_schemas=known_schemas)
 
 
 def generate_code_from_xsd(xml, known_paths=None, known_types=None,
                            location=None, parent_namespace=None,
                            encoding='utf8', cwd=None, base_path=None,
-                           standalone=True):
+                           standalone=True, known_schemas=None):
 
     if isinstance(xml, bytes):
         xml = etree.fromstring(xml)
@@ -71,7 +72,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
                         location, parent_namespace, cwd=cwd,
-                        base_path=base_path, standalone=standalone)
+                        base_path=base_path, standalone=standalone,
+                        known_schemas=known_schemas)
 
     return code.encode(encoding) if encoding else code
 
@@ -97,7 +99,7 @@ def _reorder_complexTypes(schema):
 def schema_to_py(schema, xsd_namespaces,
                  known_paths=None, known_types=None, location=None,
                  parent_namespace=None, cwd=None, base_path=None,
-                 standalone=False):
+                 standalone=False, known_schemas=None):
     if base_path is None:
         base_path = cwd
     if base_path:
@@ -116,9 +118,13 @@ def schema_to_py(schema, xsd_namespaces,
     if known_types is None:
         known_types = []
 
+    if known_schemas is None:
+        known_schemas = []
+
     env = get_rendering_environment(xsd_namespaces, module='soapfish.xsd2py')
     env.globals.update(
         known_paths=known_paths,
+        known_schemas=known_schemas,
         known_types=known_types,
         location=location,
         resolve_import=resolve_import,
-- 
2.43.0


From 1931e4a8011ebf195c7a46689685ad27c4cc087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 091/104] fix: every import is relative to the document it is
 in

---
 soapfish/wsdl2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 633adee..ab09107 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -43,7 +43,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         seen = set()
 
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, base, location = resolve_location(i.location, cwd)
 
         if path in seen:
             continue
@@ -58,7 +58,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=base, seen=seen)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
-- 
2.43.0


From 828b8485fd1eb0774e7d329d9897af4cac079886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 092/104] fix: the bindings of imported documents tell the
 version of SOAP

---
 soapfish/wsdl2py.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index ab09107..226f869 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -33,7 +33,7 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
+def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, soap_versions=None):
 
     def deduplicate(seq):
         seen = set()
@@ -41,6 +41,8 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
 
     if seen is None:
         seen = set()
+    if soap_versions is None:
+        soap_versions = set()
 
     for i in definitions.imports:
         path, base, location = resolve_location(i.location, cwd)
@@ -54,11 +56,12 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         xml = etree.fromstring(xml)
 
         xsd_namespaces.update(find_xsd_namespaces(xml))
+        soap_versions.add(SOAPVersion.get_version_from_xml(xml))
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=base, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=base, seen=seen, soap_versions=soap_versions)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
@@ -82,11 +85,15 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     xsd_namespaces = find_xsd_namespaces(xml)
 
     soap_version = SOAPVersion.get_version_from_xml(xml)
-    logger.info('Detected version of SOAP: %s', soap_version.NAME)
-
     wsdl = get_wsdl_classes(soap_version.BINDING_NAMESPACE)
     definitions = wsdl.Definitions.parse_xmlelement(xml)
-    merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
+    soap_versions = {soap_version}
+    merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd, soap_versions=soap_versions)
+
+    # The bindings may be in a document that is imported:
+    if SOAPVersion.SOAP12 in soap_versions:
+        soap_version = SOAPVersion.SOAP12
+    logger.info('Detected version of SOAP: %s', soap_version.NAME)
 
     kw = {
         'cwd': cwd,
-- 
2.43.0


From cc8c2f326aaa4c0c91da9241994bce15a55f64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:30 +0000
Subject: [PATCH 093/104] fix: schemas of imported documents are found where
 these are

---
 soapfish/wsdl2py.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 226f869..0dde6e1 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -12,7 +12,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -33,7 +33,7 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, soap_versions=None):
+def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, soap_versions=None, base_path=None):
 
     def deduplicate(seq):
         seen = set()
@@ -43,6 +43,8 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, soap_v
         seen = set()
     if soap_versions is None:
         soap_versions = set()
+    if base_path is None:
+        base_path = cwd
 
     for i in definitions.imports:
         path, base, location = resolve_location(i.location, cwd)
@@ -60,8 +62,13 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, soap_v
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
+        if imported.types:
+            for schema in imported.types.schemas:
+                rewrite_paths(schema, base, base_path)
+
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=base, seen=seen, soap_versions=soap_versions)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=base, seen=seen, soap_versions=soap_versions,
+                          base_path=base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
-- 
2.43.0


From 19046d48a40e2b5998ce040cec79293de7cc4648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 094/104] fix: documents in the web refer to documents in their
 own folder

---
 soapfish/utils.py  | 1 +
 soapfish/xsd2py.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index f77d008..78d6cc3 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -19,6 +19,7 @@ logger = logging.getLogger('soapfish')
 def resolve_location(path, cwd):
     if '://' in path:
         location = path
+        cwd = os.path.dirname(path)
     else:
         path = os.path.join(cwd, path)
         location = os.path.relpath(path, cwd)
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 5f6e5f5..d0ff18f 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -28,7 +28,7 @@ def rewrite_paths(schema, cwd, base_path):
             continue
         elif '://' in cwd:
             # remote files must handle paths as url.
-            i.schemaLocation = urljoin(cwd, i.schemaLocation)
+            i.schemaLocation = urljoin(cwd.rstrip('/') + '/', i.schemaLocation)
         else:
             # local files should handle relative paths.
             path = os.path.normpath(os.path.join(cwd, i.schemaLocation))
-- 
2.43.0


From 99576fee2a8c9bb347acb1a3049d11f9ee2169d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 095/104] fix: schemas have names of their own in generated
 code

---
 soapfish/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 78d6cc3..014a543 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -66,7 +66,7 @@ def schema_name(obj, location=None):
         pass
 
     # no cryptographic requirement here, so use md5 for fast hash:
-    return hashlib.md5(value).hexdigest()[:5]
+    return hashlib.md5(value).hexdigest()
 
 
 def schema_select(schemas, elements):
-- 
2.43.0


From 06fccd33e22e7970bb2b86fdd672f6b7f68334d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:02 +0000
Subject: [PATCH 096/104] fix: numbers in facets are written as numbers of
 Python

---
 soapfish/templates/lib.jinja2 | 25 +++++++++++++------------
 soapfish/utils.py             | 17 +++++++++++++++++
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 517f288..168a3cc 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -79,7 +79,7 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
     {{ facet }} = r'{{ restriction[facet].value }}'
 {%- endfor %}
 {%- for facet in ('fractionDigits', 'totalDigits', 'length', 'minLength', 'maxLength') if restriction[facet] %}
-    {{ facet }} = {{ restriction[facet].value }}
+    {{ facet }} = {{ restriction[facet].value|number }}
 {%- endfor %}
 {%- if restriction.whiteSpace %}
     whiteSpace = '{{ restriction.whiteSpace.value }}'
@@ -175,20 +175,21 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endmacro %}
 
 {% macro render_local_simpleType(restriction, known_types=None) -%}
-    {{ restriction|type(known_types) }}(
+    {%- set type = restriction|type(known_types) %}
+    {{- type }}(
     {%- if restriction.enumerations -%}
-    enumeration=[{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    enumeration=[{% for enum in restriction.enumerations %}{{ enum.value|number if type|is_number else enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
-    {%- if restriction.minInclusive %}minInclusive={{ restriction.minInclusive.value }},{% endif %}
-    {%- if restriction.maxInclusive %}maxInclusive={{ restriction.maxInclusive.value }},{% endif %}
-    {%- if restriction.minExclusive %}minExclusive={{ restriction.minExclusive.value }},{% endif %}
-    {%- if restriction.maxExclusive %}maxExclusive={{ restriction.maxExclusive.value }},{% endif %}
-    {%- if restriction.fractionDigits %}fractionDigits={{ restriction.fractionDigits.value }},{% endif %}
-    {%- if restriction.totalDigits %}totalDigits={{ restriction.totalDigits.value }},{% endif %}
+    {%- if restriction.minInclusive %}minInclusive={{ restriction.minInclusive.value|number }},{% endif %}
+    {%- if restriction.maxInclusive %}maxInclusive={{ restriction.maxInclusive.value|number }},{% endif %}
+    {%- if restriction.minExclusive %}minExclusive={{ restriction.minExclusive.value|number }},{% endif %}
+    {%- if restriction.maxExclusive %}maxExclusive={{ restriction.maxExclusive.value|number }},{% endif %}
+    {%- if restriction.fractionDigits %}fractionDigits={{ restriction.fractionDigits.value|number }},{% endif %}
+    {%- if restriction.totalDigits %}totalDigits={{ restriction.totalDigits.value|number }},{% endif %}
     {%- if restriction.pattern %}pattern={{ restriction.pattern.value|literal('r') }},{% endif %}
-    {%- if restriction.length %}length={{ restriction.length.value }},{% endif %}
-    {%- if restriction.minLength %}minLength={{ restriction.minLength.value }},{% endif %}
-    {%- if restriction.maxLength %}maxLength={{ restriction.maxLength.value }},{% endif %}
+    {%- if restriction.length %}length={{ restriction.length.value|number }},{% endif %}
+    {%- if restriction.minLength %}minLength={{ restriction.minLength.value|number }},{% endif %}
+    {%- if restriction.maxLength %}maxLength={{ restriction.maxLength.value|number }},{% endif %}
     {%- if restriction.whiteSpace %}whiteSpace='{{ restriction.whiteSpace.value }}',{% endif %})
 {%- endmacro %}
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 014a543..2e1ff2d 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -1,3 +1,4 @@
+import decimal
 import hashlib
 import itertools
 import keyword
@@ -154,6 +155,20 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             return f"{prefix}'{value}'"
         return repr(value)
 
+    def number(value):
+        # Numbers of XML Schema may be written in ways that Python does not know, with more digits than floats have:
+        value = value.strip()
+        if value.lstrip('+-') in ('INF', 'NaN'):
+            return f"float('{value.lower()}')"
+        if value.lstrip('+-').isdigit():
+            return str(int(value))
+        exact = decimal.Decimal(value)
+        inexact = repr(float(exact))
+        return inexact if decimal.Decimal(inexact) == exact else f"xsd.decimal.Decimal('{exact}')"
+
+    def is_number(type_):
+        return type_.startswith('xsd.') and issubclass(getattr(xsd, type_[4:], object), xsd.Decimal)
+
     def fix_keyword(value, names=reserved):
         # XML names may also have characters which Python names must not have:
         name = re.sub(r'\W', '_', str(value))
@@ -169,7 +184,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         fix_keyword=fix_keyword,
+        is_number=is_number,
         literal=literal,
+        number=number,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
         type=get_type,
-- 
2.43.0


From af8f654a204865fce6c36a97e0cb85ee1c707e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 097/104] fix: code for schemas of WSDL documents knows the
 types and files of the schemas before them

---
 soapfish/wsdl2py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 0dde6e1..78ba346 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -105,7 +105,9 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     kw = {
         'cwd': cwd,
         'parent_namespace': definitions.targetNamespace,
+        'known_paths': [],
         'known_schemas': [],
+        'known_types': [],
     }
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
-- 
2.43.0


From 70d712d8117b8feae477e7674f92458fd0289e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 098/104] fix: locations of schemas may have quotes

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 168a3cc..2654748 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -18,7 +18,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     includes=[{% for i in schema.includes if schema_name(i) in known_schemas %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
+    location={{ location|url_template|literal }},{% endif %}
     elementFormDefault='{{ schema.elementFormDefault }}',
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-- 
2.43.0


From 3081ee942c6684513f0fc8e06a139c67407e0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:14 +0000
Subject: [PATCH 099/104] fix: generated code has simple types after those that
 they restrict, in place as well

---
 soapfish/templates/lib.jinja2 |  6 ++++--
 soapfish/xsd2py.py            | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 2654748..d5f93e7 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -156,7 +156,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(field_types) }}{{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_local_simpleType(element.simpleType.restriction, known_types) }}{{ render_field_arguments(element) }})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_local_simpleType(element.simpleType.restriction, field_types) }}{{ render_field_arguments(element) }})
     {%- endif %}
     {%- if element.complexType %}
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ (class_name ~ '_' ~ element.name|fix_keyword)|capitalize }}(){{ render_field_arguments(element) }})
@@ -176,9 +176,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 
 {% macro render_local_simpleType(restriction, known_types=None) -%}
     {%- set type = restriction|type(known_types) %}
+    {%- if type.startswith('__name__') %}{% set type = "globals()['" ~ restriction.base|remove_namespace|capitalize ~ "']" %}{% endif %}
+    {%- set values = restriction.enumerations|map(attribute='value')|map('number' if type|is_number else 'literal')|join(', ') %}
     {{- type }}(
     {%- if restriction.enumerations -%}
-    enumeration=[{% for enum in restriction.enumerations %}{{ enum.value|number if type|is_number else enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    enumeration={% if type.startswith('xsd.') %}[{{ values }}]{% else %}list(map({{ type }}().pythonvalue, [{{ values }}])){% endif %},
     {%- endif %}
     {%- if restriction.minInclusive %}minInclusive={{ restriction.minInclusive.value|number }},{% endif %}
     {%- if restriction.maxInclusive %}maxInclusive={{ restriction.maxInclusive.value|number }},{% endif %}
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index d0ff18f..24cb2c8 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -80,20 +80,30 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
 
 def _reorder_complexTypes(schema):
     """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    bases = {}
-    for complex_type in schema.complexTypes:
+    def base(complex_type):
         content = complex_type.complexContent
         derivation = (content.extension or content.restriction) if content else None
-        bases[complex_type.name] = remove_namespace(derivation.base) if derivation else None
+        return derivation.base if derivation else None
 
-    def depth(complex_type):
+    _reorder_by_base(schema.complexTypes, base)
+
+
+def _reorder_simpleTypes(schema):
+    """Reorder simpleTypes to render base restriction elements before the children."""
+    _reorder_by_base(schema.simpleTypes, lambda simple_type: simple_type.restriction.base if simple_type.restriction else None)
+
+
+def _reorder_by_base(types, base):
+    bases = {x.name: remove_namespace(base(x)) for x in types}
+
+    def depth(x):
         """Count the types of this schema the type is derived from."""
-        name, count = bases[complex_type.name], 0
+        name, count = bases[x.name], 0
         while name in bases and count < len(bases):
             name, count = bases[name], count + 1
         return count
 
-    schema.complexTypes.sort(key=depth)
+    types.sort(key=depth)
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -105,6 +115,7 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
+    _reorder_simpleTypes(schema)
     _reorder_complexTypes(schema)
 
     if known_paths is None:
-- 
2.43.0


From 585d78506994386c02288107fec0262a984b8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:49 +0000
Subject: [PATCH 100/104] fix: generated XSD does not repeat weaker forms of
 inherited facets

---
 soapfish/py2xsd.py | 55 ++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index b0df1c6..ea6daa1 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -52,9 +52,13 @@ def xsd_attribute(attribute, schema=None):
     return xsdattr
 
 
-def set_string_facets(restriction, _type):
+def is_builtin(type_):
+    return type_.__module__ == xsd.__name__
+
+
+def set_string_facets(restriction, facet_value):
     for facet in ('length', 'minLength', 'maxLength', 'whiteSpace'):
-        value = getattr(_type, facet, None)
+        value = facet_value(facet)
         if value is not None:
             setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
 
@@ -79,33 +83,39 @@ def create_xsd_element(element, schema=None):
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type, schema)
 
-        if hasattr(element._type, 'enumeration') and element._type.enumeration:
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(_type.xmlvalue(value))
-                xsd_element.simpleType.restriction.enumerations.append(enum)
+        base = None if is_builtin(type(_type)) else type(_type)()
+
+        def facet_value(name):
+            # Facets of the base are inherited:
+            value = getattr(_type, name, None)
+            return None if base is not None and value == getattr(base, name, None) else value
+
+        for value in facet_value('enumeration') or ():
+            enum = xsdspec.Enumeration.create(_type.xmlvalue(value))
+            xsd_element.simpleType.restriction.enumerations.append(enum)
 
-        if getattr(_type, 'fractionDigits', None) is not None:
+        if facet_value('fractionDigits') is not None:
             xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
 
-        if hasattr(_type, 'pattern') and _type.pattern:
+        if facet_value('pattern'):
             xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
 
-        if getattr(_type, 'minInclusive', None) is not None:
+        if facet_value('minInclusive') is not None:
             xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.minInclusive))
 
-        if getattr(_type, 'minExclusive', None) is not None:
+        if facet_value('minExclusive') is not None:
             xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.minExclusive))
 
-        if getattr(_type, 'maxExclusive', None) is not None:
+        if facet_value('maxExclusive') is not None:
             xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.maxExclusive))
 
-        if getattr(_type, 'maxInclusive', None) is not None:
+        if facet_value('maxInclusive') is not None:
             xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=_type.xmlvalue(_type.maxInclusive))
 
-        if getattr(_type, 'totalDigits', None) is not None:
+        if facet_value('totalDigits') is not None:
             xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
 
-        set_string_facets(xsd_element.simpleType.restriction, _type)
+        set_string_facets(xsd_element.simpleType.restriction, facet_value)
     else:
         xsd_element.type = get_xsd_type(element._type, schema)
     return xsd_element
@@ -159,15 +169,22 @@ def xsd_complexType(complexType, named=True, schema=None):
 def xsd_simpleType(st, schema=None):
     _type = st()
 
-    def facet_value(name):
+    base = st.__bases__[0]
+
+    def declared(class_, name):
         # Declared in the class body, else by what its instances check (e.g. numbers):
-        value = getattr(st, name, None)
-        return getattr(_type, name, None) if value is None else value
+        value = getattr(class_, name, None)
+        return getattr(class_(), name, None) if value is None else value
+
+    def facet_value(name):
+        # Facets of the base are inherited:
+        value = declared(st, name)
+        return None if not is_builtin(base) and value == declared(base, name) else value
 
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
     xsd_restriction = xsdspec.Restriction()
-    xsd_restriction.base = get_xsd_type(st.__bases__[0](), schema)
+    xsd_restriction.base = get_xsd_type(base(), schema)
     for enum in facet_value('enumeration') or ():
         xsd_restriction.enumerations.append(xsdspec.Enumeration.create(_type.xmlvalue(enum)))
     for facet in ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive'):
@@ -181,7 +198,7 @@ def xsd_simpleType(st, schema=None):
     pattern = facet_value('pattern')
     if pattern:
         xsd_restriction.pattern = xsdspec.Pattern(value=pattern)
-    set_string_facets(xsd_restriction, _type)
+    set_string_facets(xsd_restriction, facet_value)
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
-- 
2.43.0


From d9cd25ff03bfdf4a9e2924e50158f0fad53f4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:32 +0000
Subject: [PATCH 101/104] fix: requests are validated whatever the locations of
 imported schemas

---
 soapfish/py2xsd.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index ea6daa1..7ba1fdd 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -294,13 +294,23 @@ def schema_validator(schemas):
 
         def __init__(self, schemas, *args, **kwargs):
             super().__init__(*args, **kwargs)
-            self.lookup = walk_schema_tree(schemas, lambda x: x)
+            located = walk_schema_tree(schemas, lambda x: x)
+            # a location need not be a valid URI, e.g. '${scheme}://${host}/a.xsd'
+            self.urls = {location: f'soapfish:located:{i}' for i, location in enumerate(located) if location is not None}
+            self.lookup = {url: located[location] for location, url in self.urls.items()}
             self.lookup.update((f'soapfish:{i}', schema) for i, schema in enumerate(schemas))
 
+        def generate_xsd(self, schema):
+            xsdelement = generate_xsd(schema)
+            for child in xsdelement:
+                location = child.get('schemaLocation')
+                if location in self.urls:
+                    child.set('schemaLocation', self.urls[location])
+            return etree.tostring(xsdelement)
+
         def resolve(self, url, id_, context):
             if url in self.lookup:
-                schema_string = etree.tostring(generate_xsd(self.lookup[url]))
-                return self.resolve_string(schema_string, context)
+                return self.resolve_string(self.generate_xsd(self.lookup[url]), context)
             # prevent unwanted network access
             raise ValueError(f'Cannot resolve {url!r} - not a known soapfish schema')
 
@@ -322,7 +332,7 @@ def schema_validator(schemas):
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
     if len(schemas) == 1:
-        schema_xml = etree.tostring(generate_xsd(schemas[0]))
+        schema_xml = resolver.generate_xsd(schemas[0])
     else:
         root = etree.Element('{%s}schema' % ns.xsd)
         for i, schema in enumerate(schemas):
-- 
2.43.0


From 3e79418d6dee9b410ac1b926b95fe7a9d974994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:52 +0000
Subject: [PATCH 102/104] fix: documents are read with schemas that import
 others

---
 soapfish/py2xsd.py | 10 +++++++---
 soapfish/xsd.py    |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 7ba1fdd..95677e5 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -285,8 +285,13 @@ def generate_xsd(schema):
 
 
 def schema_validator(schemas):
+    """Return a callable for the specified soapfish schemas which can be used to validate (etree) xml documents."""
+    return compile_schemas(schemas).assertValid
+
+
+def compile_schemas(schemas):
     """
-    Return a callable for the specified soapfish schemas which can be used to validate (etree) xml documents.
+    Return the etree.XMLSchema of the specified soapfish schemas.
 
     The method takes care of resolving imported (soapfish) schemas but prevents any unwanted network access.
     """
@@ -339,8 +344,7 @@ def schema_validator(schemas):
             etree.SubElement(root, '{%s}import' % ns.xsd, namespace=schema.targetNamespace, schemaLocation=f'soapfish:{i}')
         schema_xml = etree.tostring(root)
     schema_element = etree.fromstring(schema_xml, parser)
-    xml_schema = etree.XMLSchema(schema_element)
-    return xml_schema.assertValid
+    return etree.XMLSchema(schema_element)
 
 
 # --- Program -----------------------------------------------------------------
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6a05de3..41bab34 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1038,8 +1038,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             parser = etree.fromstring
         else:
             if not isinstance(schema, etree.XMLSchema):
-                from .py2xsd import generate_xsd
-                schema = etree.XMLSchema(generate_xsd(schema))
+                from .py2xsd import compile_schemas
+                schema = compile_schemas([schema])
             xmlparser = etree.XMLParser(schema=schema)
             parser = functools.partial(etree.fromstring, parser=xmlparser)
         xmlelement = parser(xml)
-- 
2.43.0


From 4ccae7502c9613b141bdf6e8a013944b2c63d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:06 +0000
Subject: [PATCH 103/104] fix: SOAP 1.2 requests of operations without action
 have none

---
 soapfish/soap12.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index e84dbd0..6ead3cd 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -15,6 +15,8 @@ def determine_soap_action(request):
 
 
 def build_http_request_headers(soapAction):
+    if soapAction is None:
+        return {'Content-Type': CONTENT_TYPE}
     return {'Content-Type': CONTENT_TYPE + f'; action="{soapAction}"'}
 
 
-- 
2.43.0


From 8f52695180abdfc3a30c106fe38256567f2ea2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:01 +0000
Subject: [PATCH 104/104] fix: elements are qualified as the schema that
 declares them says

---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 41bab34..448af4d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -951,6 +951,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             return None
         if self.SCHEMA:
             namespace = self.SCHEMA.targetNamespace
+            if elementFormDefault is not None:
+                elementFormDefault = self.SCHEMA.elementFormDefault
         for field in instance._meta.all:
             value = getattr(instance, field._name)
             if instance.INDICATOR == Choice and isinstance(field, ListElement) and not value:
-- 
2.43.0

