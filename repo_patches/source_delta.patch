From 00d8e00000adbc8e1015d4602459f011932fe4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 01/74] fix: path lookups keep working once the expression
 cache is full

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From e3dfde56a946d3f7f638c61b403bab20545d560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 02/74] fix: path slices honor an explicit stop of 0

---
 flatland/schema/paths.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..675b65d 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -183,12 +183,12 @@ def _parse_slice(pattern):
             return (SLICE, slice(offset, offset + 1))
 
     segs = pattern.split(':', 2)
-    start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    start = int(segs[0]) if segs[0] else 0
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-    stride = segs[2] and int(segs[2]) or 1
+    stride = int(segs[2]) if segs[2] else 1
     if not segs[0]:
         start = None
     return (SLICE, slice(start, stop, stride))
-- 
2.43.0


From 64f329c2e8a537c75bb7effdb5bab89118a66836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 03/74] fix: ".." in paths reaches parents that are false in a
 boolean context

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 675b65d..42170f6 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -64,7 +64,7 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
+                    if el.parent is not None:
                         el = el.parent
                 elif op is HERE:
                     pass
-- 
2.43.0


From ad43d0f541a6d6f3432320d0c9381d9dda3bf2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 04/74] fix: expanding messages does not fail for string or
 sequence states

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From 768f9b37676f5be5677cab232e105023921c48a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 05/74] fix: luhn10 terminates for negative numbers

---
 flatland/util/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..7a7a5be 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -221,6 +221,9 @@ def re_uescape(pattern):
 def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
+    if number < 0:
+        return False
+
     sum = 0
     while number:
         r = number % 100
-- 
2.43.0


From a8e1c60f0f3f38c5fd5b4a4714ae176a1be49ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 06/74] fix: HTTPURLValidator requires an http or https scheme
 by default, as documented

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..c9be2d4 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
-- 
2.43.0


From f37a552e3f76d00e7a2eeacdf1b89bd1192ed292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 07/74] fix: HTTPURLValidator reports unparseable URLs instead
 of raising

---
 flatland/validation/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index c9be2d4..6f23c6a 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except ValueError:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
-- 
2.43.0


From dcfd2b09907570bdffad5490d0e4e8d09b301360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 08/74] fix: URLCanonicalizer rewrites the text value along
 with the native value

---
 flatland/validation/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 6f23c6a..d30e85e 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -338,4 +338,5 @@ class URLCanonicalizer(Validator):
             url[idx] = '' if current is not None else None
 
         element.value = self.urlparse.urlunparse(url)
+        element.u = element.serialize(element.value)
         return True
-- 
2.43.0


From 34b6731ac99dcb32ccf3883dfdee79d6fb12b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 09/74] fix: IsEmail rejects a domain with a trailing newline

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index d30e85e..f8ffa16 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From 2ea1e2c4f1044896caad552048e6870a740f542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 10/74] fix: NANPnpa_nxx accepts its documented arguments and
 reports to errors_to

---
 flatland/validation/number.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/number.py b/flatland/validation/number.py
index dc6081b..34b74c0 100644
--- a/flatland/validation/number.py
+++ b/flatland/validation/number.py
@@ -36,10 +36,11 @@ class NANPnpa_nxx(Validator):
         assert isinstance(nxx_element, six.string_types)
         assert isinstance(errors_to, (six.string_types, type(None)))
 
-        Validator.__init__(self, *kw)
+        Validator.__init__(self, **kw)
 
         self.npa = npa_element
         self.nxx = nxx_element
+        self.errors_to = errors_to
         self.lookup = lookup
         self.method = method
 
@@ -48,7 +49,7 @@ class NANPnpa_nxx(Validator):
         nxx = element.find(self.nxx, single=True).value
 
         if self.errors_to:
-            err = element.find(self.errors_to)
+            err = element.find(self.errors_to, single=True)
         else:
             err = element
 
-- 
2.43.0


From 936d496d89386a69ea1bd8a4a5fc1ebb999f1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 11/74] fix: NANPphone formats numbers with extensions

---
 flatland/validation/string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..43467ea 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,10 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]),
+                                    int(value[3:6]),
+                                    int(value[6:10]),
+                                    int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From 91781c88636d9d9cd257899f0cb2e4452a554ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 12/74] fix: recognize 13 digit Visa numbers

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 485665d..ef5000a 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -76,7 +76,7 @@ class CreditCardNumber(Long):
 
             return self.note_error(element, state, 'not_accepted')
 
-_re_visa = re.compile(r'^4\d{12}\d{3}?$')
+_re_visa = re.compile(r'^4\d{12}(?:\d{3})?$')
 _re_mc   = re.compile(r'^5[1-5]\d{14}$')
 _re_amex = re.compile(r'^3[47]\d{13}$')
 _re_disc = re.compile(r'^6011\d{12}$')
-- 
2.43.0


From 8b74ef70328080e1026c37453c387aff9ff6b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 13/74] fix: setting a String to undecodable bytes fails
 adaptation instead of raising

---
 flatland/schema/scalars.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..c3bf73b 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -180,10 +180,11 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
-        else:
-            return six.text_type(value)
+        try:
+            text = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        return text.strip() if self.strip else text
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From 32165f230214528ea782239bb13cada4b08a43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 14/74] fix: setting an unsigned Decimal to NaN fails
 adaptation instead of raising

---
 flatland/schema/scalars.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index c3bf73b..6501320 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -247,13 +247,11 @@ class Number(Scalar):
             value = value.strip()  # decimal.Decimal doesn't like whitespace
         try:
             native = self.type_(value)
+            if not self.signed and native < 0:
+                raise AdaptationError()
         except (ValueError, TypeError, ArithmeticError):
             raise AdaptationError()
-        else:
-            if not self.signed:
-                if native < 0:
-                    raise AdaptationError()
-            return native
+        return native
 
     def serialize(self, value):
         """Generic numeric serialization.
-- 
2.43.0


From 477b929ad9335f8e46e74340e3fe2eee4441a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:15 +0000
Subject: [PATCH 15/74] fix: Ref follows its target when the target element is
 replaced

---
 flatland/schema/scalars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6501320..668f0fc 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -10,7 +10,6 @@ from flatland.util import (
     as_mapping,
     autodocument_from_superclasses,
     class_cloner,
-    lazy_property,
     )
 from .base import Element
 import six
@@ -581,7 +580,7 @@ class Ref(Scalar):
 
     #######################################################################
 
-    @lazy_property
+    @property
     def target(self):
         return self.root.el(self.target_path)
 
-- 
2.43.0


From 02c406d36778e7d2bdc7a0330e9b10bcbc0d052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 16/74] fix: HTTPURLValidator treats an empty required part as
 missing

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index f8ffa16..4bd5755 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -272,7 +272,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if not value:
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From 2ac07d094218efd09c417b336c28ee53c742491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 17/74] fix: assigning an element to a sequence index sets its
 parent

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..01976b4 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -332,7 +332,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-- 
2.43.0


From 371fc8820e32c190de0f3abf759f45d7c784bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 18/74] fix: assigning an element to a List index stores that
 element

---
 flatland/schema/containers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 01976b4..e2552ee 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -495,8 +495,12 @@ class List(Sequence):
             list.__setitem__(self, index, value)
             self._renumber()
         else:
-            slot = self[index]
-            slot.set(value)
+            if isinstance(value, Element):
+                slot = list.__getitem__(self, index)
+                slot.element = value
+                value.parent = slot
+            else:
+                self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
-- 
2.43.0


From 1fab7853b157ebc8035c12dd92b680ce09ab102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 19/74] fix: += on a sequence adds elements, not plain values

---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index e2552ee..0cb8902 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -308,6 +308,10 @@ class Sequence(Container, list):
         for value in iterable:
             self.append(value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From 8d058349e5920d1b5b58aed7545f50359d2042cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 20/74] fix: set_flat does not touch a field whose name is only
 a prefix of the key

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 0cb8902..36018ed 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -864,7 +864,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key == field or key.startswith(field + sep):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From 727fe286cc85e974ffac5354cd5970a8e5b1a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 21/74] fix: set_by_object honors rename for attributes that
 are also omitted

---
 flatland/schema/containers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 36018ed..ace994e 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1080,13 +1080,13 @@ class Dict(Mapping, dict):
         """
         fields = set(six.iterkeys(self))
         attributes = fields.copy()
-        if rename:
-            rename = list(to_pairs(rename))
-            attributes.update(key for key, value in rename
-                                  if value in attributes)
         if omit:
             omit = list(omit)
             attributes.difference_update(omit)
+        if rename:
+            rename = list(to_pairs(rename))
+            attributes.update(key for key, value in rename
+                                  if value in fields)
 
         possible = ((attr, getattr(obj, attr))
                     for attr in attributes
-- 
2.43.0


From ac4922e3aba1088b3ecb28ac06e6e65765cac674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 22/74] fix: set_by_object considers every field a SparseDict
 may contain

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index ace994e..2a8b82f 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1078,7 +1078,7 @@ class Dict(Mapping, dict):
           >>> new_user = User(**user_keywords)
 
         """
-        fields = set(six.iterkeys(self))
+        fields = set(six.iterkeys(self.field_schema_mapping))
         attributes = fields.copy()
         if omit:
             omit = list(omit)
-- 
2.43.0


From 4331b8d8062389e59f2813afce0cd13b9e677ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 23/74] fix: unnamed Arrays of unnamed members ignore unrelated
 keys in set_flat

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 2a8b82f..cab02c8 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -669,7 +669,7 @@ class Array(Sequence):
                     continue
                 if key == u'':
                     key = None
-                if child_name and key != child_name:
+                if key != child_name:
                     continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
-- 
2.43.0


From 9bf653b910ba15100daccd866676a9d70217bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 24/74] fix: a string default for a JoinedString is split like
 any other value

---
 flatland/schema/compound.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..79b5f92 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -316,6 +316,11 @@ class JoinedString(Array, String):
             self.append(child)
         return all(success)
 
+    def set_default(self):
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     def _set_flat(self, pairs, sep):
         return Scalar._set_flat(self, pairs, sep)
 
-- 
2.43.0


From eb87659e37f26d54e705ce4cdf37a2f54487ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 25/74] fix: Properties.setdefault honors inherited values and
 replaces deleted ones

---
 flatland/schema/properties.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..f515409 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,11 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
@@ -209,7 +213,8 @@ class _InstanceLookup(DictLike):
         try:
             return self[key]
         except KeyError:
-            return self.local.setdefault(key, default)
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From 162e24b60893da05a1ad7d4a80ccd2db33b96309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 26/74] fix: popping a property from an instance does not alter
 its class

---
 flatland/schema/properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index f515409..c03afd7 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -205,9 +205,13 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise KeyError(key)
+            return default[0]
+        self[key] = Deleted
+        return current
 
     def setdefault(self, key, default):
         try:
-- 
2.43.0


From 1ae1bf2d0e58307a08973ecd76b7ae076b17f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 27/74] fix: flattening a container does not expose the members
 of a JoinedString

---
 flatland/schema/base.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..3c10c5b 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -688,14 +688,16 @@ class Element(_BaseElement):
           [(u'contact_name', u'')]
 
         """
-        if self.flattenable:
-            pairs = [(self.flattened_name(sep), value(self))]
-        else:
-            pairs = []
-        if self.children_flattenable:
-            pairs.extend((e.flattened_name(sep), value(e))
-                         for e in self.all_children
-                         if e.flattenable)
+        pairs, seen, queue = [], set(), collections.deque([self])
+        while queue:
+            element = queue.popleft()
+            if id(element) in seen:
+                continue
+            seen.add(id(element))
+            if element.flattenable:
+                pairs.append((element.flattened_name(sep), value(element)))
+            if element.children_flattenable:
+                queue.extend(element.children)
         return pairs
 
     def set(self, value):
-- 
2.43.0


From 6a4843fd88f437e07e0adf31dcb0259a28bec860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 28/74] fix: unnamed pruning Arrays drop blank values when they
 are List members

---
 flatland/schema/containers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index cab02c8..21cd61d 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -663,14 +663,13 @@ class Array(Sequence):
                "Flattened Arrays are only supported for scalar child types."
 
         if not self.name:
-            child_prefix = child_name or u''
             for key, value in pairs:
-                if prune and value == u'' and key == child_prefix:
-                    continue
                 if key == u'':
                     key = None
                 if key != child_name:
                     continue
+                if prune and value == u'':
+                    continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
         else:
-- 
2.43.0


From 0230b414b5b3dc25216a693433d3e9c195062d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 29/74] fix: pairs naming a container itself do not break
 set_flat

---
 flatland/schema/containers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 21cd61d..9cf0f81 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -572,7 +572,8 @@ class List(Sequence):
         for key, value in pairs:
             if value == u'' and prune:
                 continue
-            m = regex.match(key)
+            # a pair naming the list itself has no name left if unnamed
+            m = regex.match(key or u'')
             if not m:
                 continue
             try:
@@ -842,6 +843,10 @@ class Mapping(Container, dict):
         return converted
 
     def _set_flat(self, pairs, sep):
+        # a pair naming the mapping itself (e.g. as an unnamed List member)
+        # has no name left and can't be for any of the fields.
+        pairs = [(key, value) for key, value in pairs if key is not None]
+
         if self.name is None:
             possibles = pairs  # accept all
         else:
-- 
2.43.0


From 3db331a46bab4da985d182700fb5290b781e4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 30/74] fix: named Arrays ignore keys that merely start with
 their name

---
 flatland/schema/containers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9cf0f81..a30b68b 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -677,15 +677,13 @@ class Array(Sequence):
             regex = re.compile(u'^(%s(?:%s|$))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
-                m = regex.match(key)
+                m = regex.match(key or u'')
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
+                if remainder != child_name:
                     continue
-                elif remainder and not child_name:
-                    continue
-                elif prune and value == u'' and remainder == child_name:
+                elif prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(remainder, value)])
                 self.append(member)
-- 
2.43.0


From bd9e853e40c17abea1e494038dae96ed3dda6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 31/74] fix: list indexes in flat keys do not match a trailing
 newline

---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index a30b68b..a6043cb 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -560,10 +560,10 @@ class List(Sequence):
             return
 
         if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
-- 
2.43.0


From f597745bd73d13355be2d3b5185b1b7657ab9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 32/74] fix: fq_name of Array and JoinedString members is their
 position

---
 flatland/schema/base.py       | 6 +++++-
 flatland/schema/containers.py | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 3c10c5b..97e7e0b 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -475,7 +475,7 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
-            parts.append(element.name)
+            parts.append(element.parent._index_of(element))
         return sep + sep.join(parts)
 
     def find(self, path, single=False, strict=True):
@@ -593,6 +593,10 @@ class Element(_BaseElement):
         """Return a named child or raise LookupError."""
         raise NotImplementedError()
 
+    def _index_of(self, child):
+        """Return the name :meth:`_index` knows *child* by."""
+        return child.name
+
     @classmethod
     def _parse_element_path(self, path, sep):
         if isinstance(path, six.string_types):
diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index a6043cb..2fd28f3 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -286,6 +286,12 @@ class Sequence(Container, list):
             raise IndexError(name)
         return self[idx]
 
+    def _index_of(self, child):
+        for idx, member in enumerate(self.children):
+            if member is child:
+                return six.text_type(idx)
+        return Container._index_of(self, child)
+
     def append(self, value):
         """Append *value* to end.
 
-- 
2.43.0


From c726190eaf531ccd91f88be2abd0cece0341e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 33/74] fix: validating without recursion does not forget a
 failed descent validator

---
 flatland/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 97e7e0b..25ada4a 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -798,7 +798,7 @@ class Element(_BaseElement):
             up = self._validate(state, False)
             # an Unevaluated ascent validator does not override the results
             # of descent validation
-            if up is not Unevaluated:
+            if up is not Unevaluated and self.valid:
                 self.valid = bool(up)
             return self.valid
 
-- 
2.43.0


From 1d30f6917d46ae7ad073495d499114ff8a46e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 34/74] fix: unadaptable objects with undecodable strings fail
 adaptation instead of raising

---
 flatland/schema/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 668f0fc..0e65405 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -81,7 +81,7 @@ class Scalar(Element):
                 try:
                     self.u = six.text_type(value)
                 except UnicodeDecodeError:
-                    self.u = six.text_type(value, errors='replace')
+                    self.u = six.text_type(str(value), errors='replace')
             return False
 
         # stringify it, possibly storing what we received verbatim or a
-- 
2.43.0


From 4fe05574c5052a073021bb0140cfa07b4e95afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 35/74] fix: dates and times do not match a trailing newline

---
 flatland/schema/scalars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 0e65405..cd7ec86 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -519,7 +519,7 @@ class DateTime(Temporal):
     type_ = datetime.datetime
     regex = re.compile(
         u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2}) '
-        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = (u'%(year)04i-%(month)02i-%(day)02i '
               u'%(hour)02i:%(minute)02i:%(second)02i')
     used = (u'year', u'month', u'day', u'hour', u'minute', u'second')
@@ -534,7 +534,7 @@ class Date(Temporal):
 
     type_ = datetime.date
     regex = re.compile(
-        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})$')
+        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})\\Z')
     format = u'%(year)04i-%(month)02i-%(day)02i'
     used = (u'year', u'month', u'day')
 
@@ -548,7 +548,7 @@ class Time(Temporal):
 
     type_ = datetime.time
     regex = re.compile(
-        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = u'%(hour)02i:%(minute)02i:%(second)02i'
     used = (u'hour', u'minute', u'second')
 
-- 
2.43.0


From 582070b976a1072b2066e1246ed04b4fecc7de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 36/74] fix: setting a Decimal to a signaling NaN does not
 raise

---
 flatland/schema/scalars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index cd7ec86..334e90d 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -264,7 +264,11 @@ class Number(Scalar):
 
         """
         if type(value) is self.type_:
-            return self.format % value
+            try:
+                return self.format % value
+            except (TypeError, ValueError):
+                # e.g. a signaling NaN Decimal has no float representation
+                pass
         return six.text_type(value)
 
 
-- 
2.43.0


From 4ad3a521977cacc5ba16649d4ebbe3f2afaf1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 37/74] fix: radio and checkbox tags without a value are left
 alone, as documented

---
 flatland/out/generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 422e6f8..aa4ecad 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -135,8 +135,10 @@ def transform_value(tagname, attributes, contents, context, bind):
                 if current is None and isinstance(bind, Boolean):
                     attributes[u'value'] = current = bind.true
             else:
-                current = attributes.get(u'value', u'')
+                current = attributes.get(u'value')
 
+            if current is None:
+                return contents
             if isinstance(bind, Array):
                 toggle = current in bind
             else:
-- 
2.43.0


From a10ae41539efe1f088b1aca9843d875c282a286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 38/74] fix: Generator.tag() pairs tags like the equivalent tag
 property

---
 flatland/out/markup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2a18721..46b60ce 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -6,6 +6,7 @@ import six
 
 
 _default_settings = {u'ordered_attributes': True}
+_always_paired = (u'form', u'textarea', u'select', u'option')
 _static_attribute_order = [u'type', u'name', u'value']
 
 
@@ -197,10 +198,11 @@ class Generator(Context):
         if isinstance(tagname, str):  # pragma: nocover
             tagname = six.text_type(tagname)
         tagname = tagname.lower()
+        tag = self._tag(tagname, tagname == u'input', tagname in _always_paired)
         if bind is None and not attributes:
-            return self._tag(tagname)
+            return tag
         else:
-            return self._tag(tagname)(bind, **attributes)
+            return tag(bind, **attributes)
 
     def _tag(self, tagname, empty_in_html=False, always_paired=False):
         if self._tags[tagname]:
-- 
2.43.0


From e8d653237671c0f84df99772b5f4f32f26420618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:40 +0000
Subject: [PATCH 39/74] fix: Generator.set() changes nothing when it rejects a
 setting

---
 flatland/out/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 46b60ce..d22fee2 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -68,10 +68,11 @@ class Generator(Context):
 
         """
 
-        for key, value in settings.items():
+        for key in settings:
             if key not in self:
                 raise TypeError(
                     "%r is not a valid argument." % key)
+        for key, value in settings.items():
             if key.startswith('auto_'):
                 value = parse_trool(value)
             self[key] = value
-- 
2.43.0


From e7836fa339de0febe13828f09a048bfff799ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 40/74] fix: dates derived from a class in use are prepared for
 their own options

---
 flatland/schema/compound.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 79b5f92..5b71fde 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -195,13 +195,21 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
 
 class DateYYYYMMDD(Compound, Date):
 
+    # the declared and the completed field_schema of the prepared class
+    _prepared_fields = (None, None)
+
     @classmethod
     def __compound_init__(cls):
-        assert len(cls.field_schema) < 4
-        if len(cls.field_schema) == 3:
+        declared, completed = cls._prepared_fields
+        if cls.field_schema is not completed:
+            declared = cls.field_schema
+        # else the fields were added to suit the options of a superclass
+
+        assert len(declared) < 4
+        if len(declared) == 3:
             return
 
-        fields = list(cls.field_schema)
+        fields = list(declared)
         optional = cls.optional
 
         if len(fields) == 0:
@@ -215,6 +223,7 @@ class DateYYYYMMDD(Compound, Date):
                                                       optional=optional))
 
         cls.field_schema = fields
+        cls._prepared_fields = (declared, fields)
 
     #if any(not field.name for field in fields):
     #    raise TypeError("Child fields of %s %r must be named." %
-- 
2.43.0


From 0c90e39b6d10590fa6d31c2b624c4e0f4c81733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 41/74] fix: a reference without a default does not reset its
 target

---
 flatland/schema/scalars.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 334e90d..ce9649f 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -582,6 +582,11 @@ class Ref(Scalar):
     def serialize(self, value):
         return self.target.serialize(value)
 
+    def set_default(self):
+        # without a default of its own, the target's default is left alone
+        if self.default_value is not None:
+            Scalar.set_default(self)
+
     #######################################################################
 
     @property
-- 
2.43.0


From cf3cc5ac77b0fbe5f246cadd698fdfe83f3a236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 42/74] fix: setting a compound date to None clears it

---
 flatland/schema/compound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 5b71fde..d2c9c63 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -247,7 +247,7 @@ class DateYYYYMMDD(Compound, Date):
 
             for attrib, child_schema in zip(self.used, self.field_schema):
                 self[child_schema.name].set(
-                    getattr(value, attrib))
+                    None if value is None else getattr(value, attrib))
         except (AdaptationError, TypeError):
             for child_schema in self.field_schema:
                 self[child_schema.name].set(None)
-- 
2.43.0


From ac8e7d683db6153365e7e01686fd03a69137dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 43/74] fix: setting a compound date to an unusable value
 reports failure

---
 flatland/schema/compound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index d2c9c63..5b04e49 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -251,6 +251,7 @@ class DateYYYYMMDD(Compound, Date):
         except (AdaptationError, TypeError):
             for child_schema in self.field_schema:
                 self[child_schema.name].set(None)
+            return False
 
 
 class JoinedString(Array, String):
-- 
2.43.0


From 1d98eb2ffa8b7f539e7c22653061ada7176b3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 44/74] fix: joined strings keep members whose value is zero or
 false

---
 flatland/schema/compound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 5b04e49..4dd411e 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -319,7 +319,7 @@ class JoinedString(Array, String):
         prune = self.prune_empty
         success = []
         for value in values:
-            if prune and not value:
+            if prune and not value and value != 0:
                 continue
             child = self.member_schema()
             success.append(child.set(value))
-- 
2.43.0


From e9e8688b0f162a36762b1ba7850a1a6b802681e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 45/74] fix: completed date fields are published after their
 origin

---
 flatland/schema/compound.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 4dd411e..136cfa9 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -200,9 +200,10 @@ class DateYYYYMMDD(Compound, Date):
 
     @classmethod
     def __compound_init__(cls):
+        current = cls.field_schema
         declared, completed = cls._prepared_fields
-        if cls.field_schema is not completed:
-            declared = cls.field_schema
+        if current is not completed:
+            declared = current
         # else the fields were added to suit the options of a superclass
 
         assert len(declared) < 4
@@ -222,8 +223,8 @@ class DateYYYYMMDD(Compound, Date):
             fields.append(Integer.named(u'day').using(format=u'%02i',
                                                       optional=optional))
 
-        cls.field_schema = fields
         cls._prepared_fields = (declared, fields)
+        cls.field_schema = fields
 
     #if any(not field.name for field in fields):
     #    raise TypeError("Child fields of %s %r must be named." %
-- 
2.43.0


From 68a00c3f084dab789d66cbe21b50bc3acd919e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 46/74] fix: member count validators count members of every
 sequence

HasAtLeast, HasAtMost and HasBetween measured len(element.value), which
for a MultiValue is the length of its first member's value (or a
TypeError) and for a JoinedString the number of characters.
---
 flatland/validation/containers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..701c7a5 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -4,6 +4,11 @@ from ..schema import Slot
 from . base import N_, P_, Validator
 
 
+def _member_count(element):
+    # the value of some sequences (MultiValue, JoinedString) isn't a sequence
+    return sum(1 for _ in element.children)
+
+
 class NotDuplicated(Validator):
     """A sequence member validator that ensures all sibling values are unique.
 
@@ -152,7 +157,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if _member_count(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +206,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if _member_count(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,7 +284,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
+        length = _member_count(element)
         if self.minimum <= length <= self.maximum:
             return True
 
-- 
2.43.0


From c79dede2d06d96688a66d2ac836b83979c6e7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 47/74] fix: MapEqual without a transform compares the elements

The default transform was bound as a method and called with one argument
too many.
---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From 33077a17ccd7aa9d87a3327c7c45fb9dc80e8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 48/74] fix: equality validators accept elements without a
 label

Comparing unnamed elements, such as members of a list, raised TypeError
instead of noting the error when they differed.
---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index a85162b..900e19f 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -567,7 +567,7 @@ class MapEqual(Validator):
         sample = fn(elements[0])
         if all(fn(el) == sample for el in elements[1:]):
             return True
-        labels = ', '.join(el.label for el in elements[:-1])
+        labels = u', '.join(u'%s' % (el.label,) for el in elements[:-1])
         last_label = elements[-1].label
         return self.note_error(element, state, 'unequal',
                                labels=labels, last_label=last_label)
-- 
2.43.0


From 08bb7f88070ac89e374e8f9204cfebdbab10f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 49/74] fix: range validators reject elements without a value

An empty or unconverted date or time raised TypeError when compared with
the boundary, and an unconverted number passed as less than any bound.
---
 flatland/validation/scalars.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 900e19f..98c609c 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -325,7 +325,8 @@ class ValueLessThan(Validator):
         self.boundary = boundary
 
     def validate(self, element, state):
-        if not element.value < self.boundary:
+        value = element.value
+        if value is None or not value < self.boundary:
             return self.note_error(element, state, 'failure')
         return True
 
@@ -363,7 +364,8 @@ class ValueAtMost(Validator):
         self.maximum = maximum
 
     def validate(self, element, state):
-        if not element.value <= self.maximum:
+        value = element.value
+        if value is None or not value <= self.maximum:
             return self.note_error(element, state, 'failure')
         return True
 
@@ -401,7 +403,8 @@ class ValueGreaterThan(Validator):
         self.boundary = boundary
 
     def validate(self, element, state):
-        if not element.value > self.boundary:
+        value = element.value
+        if value is None or not value > self.boundary:
             return self.note_error(element, state, 'failure')
         return True
 
@@ -439,7 +442,8 @@ class ValueAtLeast(Validator):
         self.minimum = minimum
 
     def validate(self, element, state):
-        if not element.value >= self.minimum:
+        value = element.value
+        if value is None or not value >= self.minimum:
             return self.note_error(element, state, 'failure')
         return True
 
@@ -501,11 +505,12 @@ class ValueBetween(Validator):
         self.maximum = maximum
 
     def validate(self, element, state):
+        value = element.value
         if self.inclusive:
-            if not self.minimum <= element.value <= self.maximum:
+            if value is None or not self.minimum <= value <= self.maximum:
                 return self.note_error(element, state, 'failure_inclusive')
         else:
-            if not self.minimum < element.value < self.maximum:
+            if value is None or not self.minimum < value < self.maximum:
                 return self.note_error(element, state, 'failure_exclusive')
         return True
 
-- 
2.43.0


From b496b465bfd9f6377160108f069d66e9ad245478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 50/74] fix: phone numbers in other digits keep leading zeros

Non-ASCII digits were translated by way of an integer, so that a number
starting with a zero lost it and was rejected.
---
 flatland/validation/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 43467ea..f4f2e62 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -28,7 +28,7 @@ class NANPphone(Validator):
 
         if not self.re_lowbit.match(value):
             # Translate to single-byte numbers.
-            value = six.text_type(str(int(value)))
+            value = u''.join(six.text_type(int(digit)) for digit in value)
 
         if len(value) < 10:
             return self.note_error(element, state, 'invalid')
-- 
2.43.0


From 2eae7325c516ce910c3e5a1531bcd519b4aa2135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:29 +0000
Subject: [PATCH 51/74] fix: canonicalized URLs have the same value and text

Whitespace left in front of a discarded part stayed in the value of the
element while its text was stripped.
---
 flatland/validation/network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 4bd5755..8ebfa99 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -337,6 +337,5 @@ class URLCanonicalizer(Validator):
             current = url[idx]
             url[idx] = '' if current is not None else None
 
-        element.value = self.urlparse.urlunparse(url)
-        element.u = element.serialize(element.value)
+        element.set(self.urlparse.urlunparse(url))
         return True
-- 
2.43.0


From 4cf89c3dd883fe8827930fec4c71fae4e78a07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 52/74] fix: genuine cards of a brand that is not accepted note
 an error

The message formatter was bound as a method, so that validating such a
number raised TypeError.
---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index ef5000a..f6006dc 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -67,7 +67,7 @@ class CreditCardNumber(Long):
 
             return u'We accept %s' % types
 
-        not_accepted = _formatter
+        not_accepted = staticmethod(_formatter)
 
         def validate(self, element, state):
             type_ = _card_type(element.value)
-- 
2.43.0


From 0bc2974b35792fc94898c9740ff1f30dbd3c76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 53/74] fix: list of accepted cards names the last brand once

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index f6006dc..448a069 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -58,7 +58,7 @@ class CreditCardNumber(Long):
         def _formatter(element, state):
             accepted = element.accepted
             if len(accepted) > 2:
-                types = (', '.join(label for label, in accepted) +
+                types = (', '.join(label for label, in accepted[:-1]) +
                        ', and ' + accepted[-1][0])
             elif len(accepted) == 2:
                 types = ' and '.join(label for label, in accepted)
-- 
2.43.0


From c49339b99de53ae81473019f0f3e9f31def2c932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 54/74] fix: card numbers of only spaces and dashes fail to
 convert instead of raising

---
 flatland/ext/creditcard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 448a069..5592e1f 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -111,7 +111,8 @@ def _from_string(number):
     if not _re_filler.match(number):
         return None
 
-    return int(_re_strip.sub(u'', six.text_type(number)))
+    digits = _re_strip.sub(u'', six.text_type(number))
+    return int(digits) if digits else None
 
 def _pretty_print(number):
     if number is None:
-- 
2.43.0


From d88726c71168bf81c189e8cc431954620f4d4663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 55/74] fix: 13 digit card numbers are accepted without
 formatting

They were recognized and accepted from numbers, but as text only with
at least two spaces or dashes.
---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 5592e1f..c375cde 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -98,7 +98,7 @@ def _card_type(number):
         return None
 
 _re_strip = re.compile(r'[^0-9]')
-_re_filler = re.compile(r'^[0-9\s-]{15,}$')
+_re_filler = re.compile(r'^[0-9\s-]{13,}$')
 
 def _from_string(number):
     if number is None:
-- 
2.43.0


From 1252a5c97c73e50eb3abf5a240ad375a0840fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 56/74] fix: plural messages accept counts that are not numbers

A count taken from the text of an element, for example, may be anything.
---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 32b5b59..5e12dac 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -243,7 +243,7 @@ class Validator(object):
                 n = format_map[n_key]
                 try:
                     n = int(n)
-                except TypeError:
+                except (TypeError, ValueError):
                     pass
             except KeyError:
                 n = n_key
-- 
2.43.0


From ea27d95e34b3bee234015728f2ab627684e50c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 57/74] fix: messages may substitute values under non-ASCII
 names

Looking for the name as an attribute failed before it was found in the
state.
---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 5e12dac..7512396 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -292,7 +292,7 @@ class as_format_mapping(object):
             try:
                 value = getattr(target, item)
                 break
-            except AttributeError:
+            except (AttributeError, UnicodeError):
                 pass
         else:
             # not found on any target
-- 
2.43.0


From f1fcf635085382f372d32974bc5655394fea3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:16 +0000
Subject: [PATCH 58/74] fix: template settings made inside a scope last for the
 whole rendering

---
 flatland/out/genshi.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..130404c 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -207,10 +207,7 @@ class With(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _render_context(ctxt)
 
         if 'filters' not in self.attributes:
             attrs = self.attributes
@@ -232,10 +229,7 @@ class Set(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _render_context(ctxt)
         render_context.update(self.attributes)
         assert not directives
         return stream
@@ -258,6 +252,18 @@ class FlatlandElements(DirectiveFactory):
     ]
 
 
+def _render_context(ctxt):
+    """Return the settings in effect for the rendering of *ctxt*."""
+    try:
+        return ctxt['flatland_render_context']
+    except KeyError:
+        # held in the bottom frame: the current one may belong to a py:with,
+        # py:for or function and would take the settings with it at its end.
+        render_context = Context()
+        ctxt.frames[-1]['flatland_render_context'] = render_context
+        return render_context
+
+
 def _rewrite_stream(stream, directives, ctxt, vars, bind):
     stream = list(stream)
     mutable_attrs = {}
@@ -280,10 +286,7 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
 
-    try:
-        render_context = ctxt['flatland_render_context']
-    except KeyError:
-        ctxt['flatland_render_context'] = render_context = Context()
+    render_context = _render_context(ctxt)
 
     new_contents = transform(tagname.localname, mutable_attrs, contents,
                              render_context, bind)
-- 
2.43.0


From 32845b2b41c2ed66c87cf2f98f2363eff7c5c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:16 +0000
Subject: [PATCH 59/74] fix: form:set evaluates filters as form:with does

---
 flatland/out/genshi.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 130404c..03f1276 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -201,6 +201,15 @@ class RenderContextManipulator(TagOnly):
         TagOnly.__init__(self, transformed, template, namespaces,
                          lineno, offset)
 
+    def settings(self, ctxt, vars):
+        """Return the attributes, with any filters evaluated."""
+        if 'filters' not in self.attributes:
+            return self.attributes
+        attrs = self.attributes.copy()
+        attrs['filters'] = _eval_expr(Expression(attrs['filters']),
+                                      ctxt, vars)
+        return attrs
+
 
 class With(RenderContextManipulator):
     _name = 'with'
@@ -209,13 +218,7 @@ class With(RenderContextManipulator):
     def process(self, stream, directives, ctxt, vars):
         render_context = _render_context(ctxt)
 
-        if 'filters' not in self.attributes:
-            attrs = self.attributes
-        else:
-            attrs = self.attributes.copy()
-            attrs['filters'] = _eval_expr(Expression(attrs['filters']),
-                                          ctxt, vars)
-
+        attrs = self.settings(ctxt, vars)
         render_context.push()
         render_context.update(attrs)
         assert not directives
@@ -230,7 +233,7 @@ class Set(RenderContextManipulator):
 
     def process(self, stream, directives, ctxt, vars):
         render_context = _render_context(ctxt)
-        render_context.update(self.attributes)
+        render_context.update(self.settings(ctxt, vars))
         assert not directives
         return stream
 
-- 
2.43.0


From ed6912596e63d9b563585c5c53c3c245988c3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:26 +0000
Subject: [PATCH 60/74] fix: bound tags evaluate their expressions as the rest
 of a template does

---
 flatland/out/genshi.py | 82 ++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 03f1276..9b41236 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -14,7 +14,7 @@ from genshi.template.directives import Directive
 from genshi.template.interpolation import interpolate
 
 
-from flatland.out.generic import _unpack, transform, Context
+from flatland.out.generic import transform, Context
 import six
 
 
@@ -99,11 +99,12 @@ class AttributeOnly(EvaluatedLast):
 
 
 class ControlAttribute(AttributeOnly):
-    __slots__ = ('raw_value')
+    __slots__ = ('raw_value', 'template')
 
     def __init__(self, value, template=None, namespaces=None,
                  lineno=-1, offset=-1):
         Directive.__init__(self, None, template, namespaces, lineno, offset)
+        self.template = template
 
         # allow interpolation inside control attributes
         raw_value = list(interpolate(value, lineno=lineno, offset=offset))
@@ -118,7 +119,8 @@ class ControlAttribute(AttributeOnly):
             directives = [self]
         else:
             directives = [self] + directives
-        return _rewrite_stream(stream, directives, ctxt, vars, None)
+        return _rewrite_stream(stream, directives, ctxt, vars, None,
+                               self.template)
 
     def inject(self, mapping, ctxt, vars):
         """Inject the translated key and interpolated value into *mapping*."""
@@ -169,13 +171,14 @@ class AutoFilter(ControlAttribute):
 
 class Binding(AttributeOnly):
     _name = 'bind'
-    __slots__ = ('bind',)
+    __slots__ = ('bind', 'template')
 
     def __init__(self, attributes, template=None, namespaces=None,
                  lineno=-1, offset=-1, bind=None):
         AttributeOnly.__init__(self, attributes, template, namespaces,
                                lineno, offset)
         self.bind = bind
+        self.template = template
 
     def process(self, stream, directives, ctxt, vars):
         if self.bind is not None:
@@ -184,7 +187,8 @@ class Binding(AttributeOnly):
             bind = None
         else:
             bind = _eval_expr(self.expr, ctxt, vars)
-        return _rewrite_stream(stream, directives, ctxt, vars, bind)
+        return _rewrite_stream(stream, directives, ctxt, vars, bind,
+                               self.template)
 
 
 class RenderContextManipulator(TagOnly):
@@ -267,10 +271,13 @@ def _render_context(ctxt):
         return render_context
 
 
-def _rewrite_stream(stream, directives, ctxt, vars, bind):
+def _rewrite_stream(stream, directives, ctxt, vars, bind, template):
     stream = list(stream)
     mutable_attrs = {}
 
+    def flatten(events):
+        return template._flatten(events, ctxt, **vars)
+
     for control_attribute in directives:
         control_attribute.inject(mutable_attrs, ctxt, vars)
 
@@ -278,13 +285,19 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
     if len(stream) == 2:
         contents = None
     else:
-        contents = _simplify_stream(stream[1:-1], ctxt, vars)
+        contents, stream[1:-1] = _simplify_stream(stream[1:-1], flatten)
 
     existing_attributes = {}
     for qname, value in attrs:
         if qname.namespace is None:
             if not isinstance(value, six.text_type):
-                value = _simplify_stream(value, ctxt, vars)
+                parts = [event[1] for event in flatten(value)
+                         if event[0] is TEXT and event[1] is not None]
+                if not parts:
+                    # as everywhere in a template, no value: no attribute
+                    attrs -= qname
+                    continue
+                value = u''.join(parts)
                 attrs |= ((qname, value),)
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
@@ -296,6 +309,8 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
 
     if new_contents is None:
         new_contents = ()
+    elif new_contents is contents:
+        new_contents = stream[1:-1]
     elif isinstance(new_contents, six.text_type):
         new_contents = [(TEXT, new_contents, (None, -1, -1))]
 
@@ -315,9 +330,9 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
             sub_tag = Namespace(tagname.namespace).option
         else:  # pragma: nocover
             sub_tag = QName('option')
-        new_contents = _bind_unbound_tags(new_contents, sub_tag, bind)
-    if new_contents:
-        stream[1:-1] = new_contents
+        new_contents = _bind_unbound_tags(new_contents, sub_tag, bind,
+                                          template)
+    stream[1:-1] = new_contents
     return iter(stream)
 
 
@@ -328,7 +343,7 @@ def _attribute_sort_key(item):
         return (1, item[0])
 
 
-def _bind_unbound_tags(stream, qname, bind):
+def _bind_unbound_tags(stream, qname, bind, template):
     stream = deque(stream)
     while stream:
         kind, data, pos = stream.popleft()
@@ -338,7 +353,8 @@ def _bind_unbound_tags(stream, qname, bind):
                 if isinstance(d, Binding):
                     break
             else:
-                substream = list(_bind_unbound_tags(substream, qname, bind))
+                substream = list(_bind_unbound_tags(substream, qname, bind,
+                                                    template))
             yield kind, (directives, substream), pos
         elif kind is START:
             if data[0] != qname or qname in data[1]:
@@ -355,35 +371,23 @@ def _bind_unbound_tags(stream, qname, bind):
                 elif event[0] is END and event[1] == qname:
                     stack -= 1
             substream = [head] + list(
-                _bind_unbound_tags(substream, qname, bind))
+                _bind_unbound_tags(substream, qname, bind, template))
             # attaching the directive is sufficient; don't need to fabricate
             # a form:bind="" attribute
-            yield SUB, ([Binding(u'', bind=bind)], substream), pos
+            yield SUB, ([Binding(u'', template, bind=bind)], substream), pos
         else:
             yield kind, data, pos
 
 
-def _simplify_stream(stream, ctxt, vars):
-    # consumes stream, send a list
-    parts = []
-    for idx, (kind, data, pos) in enumerate(stream):
-        if kind is TEXT:
-            parts.append(data)
-        elif kind is EXPR:
-            value = _eval_expr(data, ctxt, vars)
-            if hasattr(value, '__html__'):
-                value = _unpack(value)
-            if hasattr(value, '__next__') or hasattr(value, 'next'):
-                while hasattr(value, '__next__') or hasattr(value, 'next'):
-                    value = list(value)
-                    value = _simplify_stream(value, ctxt, vars)
-                if not isinstance(value, six.text_type):
-                    stream[idx:idx + 1] = value
-                else:
-                    stream[idx] = (TEXT, value, pos)
-            elif not isinstance(value, six.text_type):
-                value = six.text_type(value)
-            parts.append(value)
-        else:
-            return stream
-    return u''.join(parts)
+def _simplify_stream(stream, flatten):
+    """Evaluate a *stream* of text and expressions.
+
+    Returns its text and its events.  If markup is involved there is no such
+    text and the events stand for it.
+
+    """
+    if all(kind is TEXT or kind is EXPR for kind, _, _ in stream):
+        stream = list(flatten(stream))
+    if all(kind is TEXT for kind, _, _ in stream):
+        return u''.join(data for _, data, _ in stream), stream
+    return stream, stream
-- 
2.43.0


From 180abc49a9a7bccda4369b706870925ca33d27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:26 +0000
Subject: [PATCH 61/74] fix: bound tags may be stripped or replaced

---
 flatland/out/genshi.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 9b41236..9aaede5 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -55,15 +55,37 @@ class EvaluatedLast(Directive):
             else:
                 foreign.append(d)
         if foreign:
-            foreign.append(self)
-            foreign.extend(local)
-            return foreign[0](stream, foreign[1:], ctxt, **vars)
+            stream = list(stream)
+            foreign.append(Postponed(self, local, stream[:1]))
+            return foreign[0](iter(stream), foreign[1:], ctxt, **vars)
         return self.process(stream, local, ctxt, vars)
 
     def process(self, stream, directives, ctxt, vars):
         raise NotImplementedError  # pragma: nocover
 
 
+class Postponed(object):
+    """Evaluates a flatland directive after all others."""
+
+    def __init__(self, directive, local, head):
+        self.directive = directive
+        self.local = local
+        self.head = head
+
+    def __call__(self, stream, directives, ctxt, **vars):
+        stream = list(stream)
+        if isinstance(self.directive, AttributeOnly):
+            # py:strip leaves only the contents
+            if not stream or _origin(stream[0]) != _origin(self.head[0]):
+                return iter(stream)
+        return self.directive.process(iter(stream), self.local, ctxt, vars)
+
+
+def _origin(event):
+    kind, data, pos = event
+    return kind, kind is START and data[0], pos
+
+
 class TagOnly(EvaluatedLast):
     _name = None
     __slots__ = ('attributes',)
@@ -273,6 +295,9 @@ def _render_context(ctxt):
 
 def _rewrite_stream(stream, directives, ctxt, vars, bind, template):
     stream = list(stream)
+    if not stream or stream[0][0] is not START:
+        # py:replace took the tag's place
+        return iter(stream)
     mutable_attrs = {}
 
     def flatten(events):
-- 
2.43.0


From d2535c6772707b8551b44b810ff3beef8a78f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 62/74] fix: options of a bound select may have directives or
 come from expressions

---
 flatland/out/genshi.py | 86 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 16 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 9aaede5..fe20e1b 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -1,7 +1,6 @@
 from __future__ import absolute_import
-from collections import deque
 
-from genshi.core import Namespace, QName, END, START, TEXT
+from genshi.core import Attrs, Namespace, QName, END, START, TEXT, _ensure
 from genshi.template.base import (
     DirectiveFactory,
     EXPR,
@@ -209,8 +208,12 @@ class Binding(AttributeOnly):
             bind = None
         else:
             bind = _eval_expr(self.expr, ctxt, vars)
-        return _rewrite_stream(stream, directives, ctxt, vars, bind,
-                               self.template)
+        stream = list(_rewrite_stream(stream, directives, ctxt, vars, bind,
+                                      self.template))
+        if stream and stream[0][0] is START:
+            kind, (tagname, attrs), pos = stream[0]
+            stream[0] = kind, (tagname, _BoundAttrs(attrs)), pos
+        return iter(stream)
 
 
 class RenderContextManipulator(TagOnly):
@@ -309,6 +312,9 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind, template):
     kind, (tagname, attrs), pos = stream[0]
     if len(stream) == 2:
         contents = None
+    elif tagname.localname == u'select' and bind is not None:
+        # leave any tags from expressions for binding
+        contents, _ = _simplify_stream(stream[1:-1], iter)
     else:
         contents, stream[1:-1] = _simplify_stream(stream[1:-1], flatten)
 
@@ -368,35 +374,50 @@ def _attribute_sort_key(item):
         return (1, item[0])
 
 
-def _bind_unbound_tags(stream, qname, bind, template):
-    stream = deque(stream)
-    while stream:
-        kind, data, pos = stream.popleft()
+class _BoundAttrs(Attrs):
+    """The attributes of a tag that has already been bound."""
+    __slots__ = ()
+
+
+def _bind_unbound_tags(stream, qname, bind, template, expressions=True):
+    stream = iter(stream)
+    for kind, data, pos in stream:
         if kind is SUB:
             directives, substream = data
-            for d in directives:  # pragma: nocover   (coverage bug :()
-                if isinstance(d, Binding):
-                    break
+            if any(isinstance(d, Binding) for d in directives):
+                pass
+            elif (_is_element(substream, qname) and
+                  not any(isinstance(d, TagOnly) for d in directives)):
+                # these directives are on the tag: join them
+                directives = [Binding(u'', template, bind=bind)] + directives
+                substream = substream[:1] + list(
+                    _bind_unbound_tags(substream[1:], qname, bind, template,
+                                       False))
             else:
-                substream = list(_bind_unbound_tags(substream, qname, bind,
-                                                    template))
+                substream = list(
+                    _bind_unbound_tags(substream, qname, bind, template,
+                                       expressions))
             yield kind, (directives, substream), pos
+        elif kind is EXPR and expressions:
+            # may turn out to have tags
+            evaluate = _bound_expression(qname, bind, template)
+            yield SUB, ([evaluate], [(kind, data, pos)]), pos
         elif kind is START:
-            if data[0] != qname or qname in data[1]:
+            if data[0] != qname or isinstance(data[1], _BoundAttrs):
                 yield kind, data, pos
                 continue
             head = kind, data, pos
             substream = []
             stack = 1
             while stack:
-                event = stream.popleft()
+                event = next(stream)
                 substream.append(event)
                 if event[0] is START and event[1][0] == qname:
                     stack += 1
                 elif event[0] is END and event[1] == qname:
                     stack -= 1
             substream = [head] + list(
-                _bind_unbound_tags(substream, qname, bind, template))
+                _bind_unbound_tags(substream, qname, bind, template, False))
             # attaching the directive is sufficient; don't need to fabricate
             # a form:bind="" attribute
             yield SUB, ([Binding(u'', template, bind=bind)], substream), pos
@@ -404,6 +425,39 @@ def _bind_unbound_tags(stream, qname, bind, template):
             yield kind, data, pos
 
 
+def _is_element(stream, qname):
+    """True if *stream* is a single *qname* element."""
+    if not stream or stream[0][0] is not START or stream[0][1][0] != qname:
+        return False
+    depth = 0
+    for idx, (kind, _, _) in enumerate(stream):
+        if kind is START:
+            depth += 1
+        elif kind is END:
+            depth -= 1
+        if not depth:
+            break
+    return idx == len(stream) - 1
+
+
+def _bound_expression(qname, bind, template):
+    """Return a directive that evaluates an expression and binds its tags."""
+    def evaluate(stream, directives, ctxt, **vars):
+        for kind, data, pos in stream:
+            value = _eval_expr(data, ctxt, vars)
+            if value is None:
+                continue
+            if isinstance(value, six.string_types):
+                yield TEXT, value, pos
+            elif hasattr(value, '__iter__'):
+                for event in _bind_unbound_tags(_ensure(value), qname, bind,
+                                                template):
+                    yield event
+            else:
+                yield TEXT, six.text_type(value), pos
+    return evaluate
+
+
 def _simplify_stream(stream, flatten):
     """Evaluate a *stream* of text and expressions.
 
-- 
2.43.0


From 570f9337dca12922136695bb2f62e7dd4d074e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:29 +0000
Subject: [PATCH 63/74] fix: elements are not equal to things that merely look
 like elements

---
 flatland/schema/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 25ada4a..aab4fa9 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -344,6 +344,8 @@ class Element(_BaseElement):
         return element
 
     def __eq__(self, other):
+        if not isinstance(other, Element):
+            return False
         try:
             return self.value == other.value and self.u == other.u
         except AttributeError:
-- 
2.43.0


From ea4eeefcd7cb3d54aef37b4586707ab656897932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:56 +0000
Subject: [PATCH 64/74] fix: flatland.util lists only names that exist

---
 flatland/util/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/flatland/util/__init__.py b/flatland/util/__init__.py
index 68fdf44..ecdb6fe 100644
--- a/flatland/util/__init__.py
+++ b/flatland/util/__init__.py
@@ -14,9 +14,7 @@ deferred_module.shadow(
             'assignable_property',
             'autodocument_from_superclasses',
             'class_cloner',
-            'decorator',
             'decode_repr',
-            'format_argspec_plus',
             'keyslice_pairs',
             'lazy_property',
             'luhn10',
-- 
2.43.0


From f317a464598dfd2f44159b7db148ac905d368d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 65/74] fix: flatland.schema.base lists its public name rather
 than letters

---
 flatland/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index aab4fa9..584de16 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -15,7 +15,7 @@ from flatland.util import (
 import six
 
 
-__all__ = 'Element'
+__all__ = 'Element',
 
 NoneType = type(None)
 Root = symbol('Root')
-- 
2.43.0


From 8478564ad8eb3e994543c9cd36bf7425631c98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:02 +0000
Subject: [PATCH 66/74] fix: flat pairs of lists, arrays and members named u''
 are set back

---
 flatland/schema/containers.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 2fd28f3..3b30d22 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -565,11 +565,11 @@ class List(Sequence):
         if not pairs:
             return
 
-        if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
+        if self.name is not None:
+            regex = re.compile(u'^%s(\\d+)(?:(\\Z)|%s)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
+            regex = re.compile(u'^(\\d+)(?:(\\Z)|%s)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
@@ -589,7 +589,8 @@ class List(Sequence):
                 # aren't valid data for us.
                 pass
             else:
-                child_key = key[len(m.group(0)):] or None
+                # after a separator, u'' is a name too
+                child_key = key[m.end():] if m.group(2) is None else None
                 indexes[index].append((child_key, value))
 
         if not indexes:
@@ -669,24 +670,23 @@ class Array(Sequence):
         assert not issubclass(self.member_schema, Container), \
                "Flattened Arrays are only supported for scalar child types."
 
-        if not self.name:
+        if self.name is None:
             for key, value in pairs:
-                if key == u'':
-                    key = None
-                if key != child_name:
+                # without any names the flattened name is u''
+                if (key or u'') != (child_name or u''):
                     continue
                 if prune and value == u'':
                     continue
-                member = self.member_schema.from_flat([(key, value)])
+                member = self.member_schema.from_flat([(child_name, value)])
                 self.append(member)
         else:
-            regex = re.compile(u'^(%s(?:%s|$))' % (
+            regex = re.compile(u'^%s(?:(\\Z)|%s)' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
                 m = regex.match(key or u'')
                 if not m:
                     continue
-                remainder = key[m.end():] or None
+                remainder = key[m.end():] if m.group(1) is None else None
                 if remainder != child_name:
                     continue
                 elif prune and value == u'':
-- 
2.43.0


From 3871902142d7ca920a5c087e055153bc76755c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:03 +0000
Subject: [PATCH 67/74] fix: List.pop returns the member, not the slot around
 it

---
 flatland/schema/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 3b30d22..559af41 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -529,10 +529,10 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        element = list.pop(self, index).element
         self._renumber()
-        value.parent = None
-        return value
+        element.parent = None
+        return element
 
     def insert(self, index, value):
         list.insert(self, index, self._new_slot(value))
-- 
2.43.0


From 39831b04c1a62d8aa315db1635586f822bc32709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:03 +0000
Subject: [PATCH 68/74] fix: List.sort gives its key function members, not
 slots

---
 flatland/schema/containers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 559af41..a88be32 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -544,7 +544,12 @@ class List(Sequence):
 
     def sort(self, cmp=None, key=None, reverse=False):
         assert cmp is None  # no cmp for list.sort in py3
-        list.sort(self, key=key, reverse=reverse)
+        if key is None:
+            slot_key = None
+        else:
+            def slot_key(slot):
+                return key(slot.element)
+        list.sort(self, key=slot_key, reverse=reverse)
         self._renumber()
 
     def reverse(self):
-- 
2.43.0


From fb1b27d36a88f2bb7769473d6d350b7e2c555f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:06 +0000
Subject: [PATCH 69/74] fix: adding to and repeating a List gives members, not
 slots

---
 flatland/schema/containers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index a88be32..9b93d62 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -348,6 +348,9 @@ class Sequence(Container, list):
     def __setslice__(self, i, j, value):
         self.__setitem__(slice(i, j), value)
 
+    def __add__(self, other):
+        return self[:] + (other[:] if isinstance(other, Sequence) else other)
+
     def remove(self, value):
         """Remove member with value *value*.
 
@@ -515,6 +518,14 @@ class List(Sequence):
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
 
+    def __radd__(self, other):
+        return other + self[:]
+
+    def __mul__(self, count):
+        return self[:] * count
+
+    __rmul__ = __mul__
+
     def __iter__(self):
         for i in list.__iter__(self):
             yield i.element
-- 
2.43.0


From 9da6f0e9dbd130d208dd6bbd4bd54c826b017f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:32 +0000
Subject: [PATCH 70/74] fix: extending a sequence by itself ends

---
 flatland/schema/containers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9b93d62..407d41c 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -311,6 +311,9 @@ class Sequence(Container, list):
         they will be wrapped in a new element of that type before extending.
 
         """
+        if iterable is self:
+            # don't chase the members being added
+            iterable = list(self)
         for value in iterable:
             self.append(value)
 
@@ -490,10 +493,6 @@ class List(Sequence):
     def append(self, value):
         list.append(self, self._new_slot(value))
 
-    def extend(self, iterable):
-        for v in iterable:
-            self.append(v)
-
     def __getitem__(self, index):
         if isinstance(index, slice):
             return [item.element for item in list.__getitem__(self, index)]
-- 
2.43.0


From 41fa0b0458bf7d713fca56bc7579a29bab716bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:59 +0000
Subject: [PATCH 71/74] fix: compounds remember their raw input

---
 flatland/schema/compound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 136cfa9..8004c6e 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -165,6 +165,7 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
     del set_value
 
     def set(self, value):
+        self.raw = value
         try:
             # TODO: historically explode() did not need to have a return value
             # but it would be nice to return it form set() as below.
@@ -305,6 +306,7 @@ class JoinedString(Array, String):
     children_flattenable = False
 
     def set(self, value):
+        self.raw = value
         if isinstance(value, (list, tuple)):
             values = value
         elif not isinstance(value, six.string_types):
-- 
2.43.0


From ecc61e89232a14553f7863de09df29c28bc2f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:59 +0000
Subject: [PATCH 72/74] fix: joined strings may be set to nothing

---
 flatland/schema/compound.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 8004c6e..b687615 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -307,10 +307,15 @@ class JoinedString(Array, String):
 
     def set(self, value):
         self.raw = value
-        if isinstance(value, (list, tuple)):
-            values = value
+        if value is None:
+            values = ()
         elif not isinstance(value, six.string_types):
-            values = list(value)
+            try:
+                # may be drawn from the members about to be removed
+                values = list(value)
+            except TypeError:
+                del self[:]
+                return False
         elif self.separator_regex:
             # a basestring, regexp separator
             values = self.separator_regex.split(value)
-- 
2.43.0


From 20ba53a257aabb3c496d7967d1bda9f23b15530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:24 +0000
Subject: [PATCH 73/74] fix: set() may draw on the element's own members

---
 flatland/schema/containers.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 407d41c..05ea7a3 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -248,9 +248,15 @@ class Sequence(Container, list):
 
         """
 
-        del self[:]
         self.raw = iterable
         values, converted = [], True
+        try:
+            # may be drawn from the members about to be removed
+            iterable = list(iterable)
+        except TypeError:
+            del self[:]
+            return False
+        del self[:]
         try:
             for v in iterable:
                 el = self.member_schema()
@@ -841,7 +847,8 @@ class Mapping(Container, dict):
     def set(self, value):
         """TODO: doc set()"""
         self.raw = value
-        pairs = to_pairs(value)
+        # may be drawn from the children about to be replaced
+        pairs = list(to_pairs(value))
         self._reset()
 
         seen = set()
@@ -1009,7 +1016,8 @@ class Dict(Mapping, dict):
     def set(self, value, policy=None):
         """TODO: doc set()"""
         self.raw = value
-        pairs = to_pairs(value)
+        # may be drawn from the children about to be replaced
+        pairs = list(to_pairs(value))
         self._reset()
 
         if policy is not None:
-- 
2.43.0


From 57c337b0c18a87fefda9ea5cdc35ba15b6e0b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:05 +0000
Subject: [PATCH 74/74] fix: dates set from datetimes are dates

---
 flatland/schema/scalars.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index ce9649f..21c97af 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -542,6 +542,12 @@ class Date(Temporal):
     format = u'%(year)04i-%(month)02i-%(day)02i'
     used = (u'year', u'month', u'day')
 
+    def adapt(self, value):
+        if isinstance(value, datetime.datetime):
+            # a datetime is a date too, but does not compare to one
+            value = value.date()
+        return Temporal.adapt(self, value)
+
 
 class Time(Temporal):
     """Element type for Python datetime.time.
-- 
2.43.0

