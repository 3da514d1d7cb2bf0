From 01b79a65563c9b1f0bcf28a61f18282f47f24a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/72] fix: give surrogate its metaclass, so that surrogates
 can be serialized and printed

---
 scheme/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index f2175a0..a6d769e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 import scheme
-from scheme.util import identify_object, import_object, string
+from scheme.util import identify_object, import_object, string, with_metaclass
 
 __all__ = ('surrogate',)
 
@@ -11,6 +11,7 @@ class SurrogateMeta(type):
         cls.surrogate = identify_object(cls)
         return cls
 
+@with_metaclass(SurrogateMeta)
 class surrogate(dict):
     """A schema-based object surrogate.
 
@@ -25,7 +26,6 @@ class surrogate(dict):
     :param integer version: Optional, default is ``None``; the schema version of this surrogate.
     """
 
-    __metaclass__ = SurrogateMeta
     cache = {}
     schemas = None
 
-- 
2.43.0


From c302ea688e4d8a0d0501c1db1306ab29163f5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/72] fix: surrogate field accepts surrogates, checks their
 implementation and reports malformed ones

---
 scheme/fields/surrogate.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 3cd584d..9b605b3 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -15,7 +15,7 @@ class Surrogate(Field):
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a surrogate'),
-        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogate)s'),
+        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogates)s'),
     ]
 
     def __init__(self, valid_surrogates=None, **params):
@@ -50,10 +50,16 @@ class Surrogate(Field):
         return value.serialize()
 
     def _unserialize_value(self, value, ancestry):
-        if isinstance(value, dict):
-            return surrogate.unserialize(value, ancestry)
-        elif isinstance(value, surrogate):
+        if isinstance(value, surrogate):
             return value
+        elif isinstance(value, dict):
+            try:
+                return surrogate.unserialize(value, ancestry)
+            except (StructuralError, UndefinedFieldError):
+                raise
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
         else:
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
@@ -62,6 +68,6 @@ class Surrogate(Field):
         if not isinstance(value, surrogate):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        if self.valid_surrogates and value.identity not in self.valid_surrogates:
+        if self.valid_surrogates and value.surrogate not in self.valid_surrogates:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'invalid-surrogate', surrogates=', '.join(sorted(self.valid_surrogates)))
-- 
2.43.0


From 91db061dafb6bed34c9c75ae1fc0f81ea916242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 03/72] fix: reconstruct leaves the given description unchanged

---
 scheme/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/field.py b/scheme/field.py
index 8da185d..5493144 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -67,6 +67,7 @@ class FieldMeta(type):
             fieldtype, specification = specification, params
         else:
             try:
+                specification = dict(specification)
                 fieldtype = specification.pop('fieldtype')
             except Exception:
                 raise ValueError("argument 'specification' must be a dict value properly"
-- 
2.43.0


From a32ba56fcebbaba716c6bc9227a7ab90b4ed7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 04/72] fix: merge skips fields already present instead of
 stopping at the first

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b6d7532..d79a941 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -351,7 +351,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if name in self.structure and not prefer:
-                return
+                continue
             if field.name != name:
                 field = field.clone(name=name)
             self.structure[name] = field
-- 
2.43.0


From 90fcdde6dc6fd89a438af01252a60cdb43d4990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 05/72] fix: filter passes the any/all choice to nested fields
 and can drop every field of a structure

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/structure.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 263af53..b24a831 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -123,7 +123,7 @@ class Map(Field):
         if not super(Map, self).filter(all, **params):
             return None
 
-        value = self.value.filter(self.value, **params)
+        value = self.value.filter(all, **params)
         if value is self.value:
             return self
         elif value:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d79a941..a06c1d6 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -233,14 +233,14 @@ class Structure(Field):
             structure = {}
             for identity, substructure in self.structure.items():
                 candidate = self._filter_structure(substructure, all, params)
-                if candidate:
+                if candidate is not None:
                     structure[identity] = candidate
                     filtered = True
                 else:
                     structure[identity] = substructure
         else:
             structure = self._filter_structure(self.structure, all, params)
-            if structure:
+            if structure is not None:
                 filtered = True
 
         if filtered:
@@ -515,7 +515,7 @@ class Structure(Field):
 
         return description
 
-    def _filter_structure(self, structure, exclusive, params):
+    def _filter_structure(self, structure, all, params):
         filtered = False
         candidates = {}
 
-- 
2.43.0


From 0eb1c9cf7bef612c23db7bd37c56fcfc313b1b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 06/72] fix: transform reaches the fields of polymorphic
 structures

---
 scheme/fields/structure.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index a06c1d6..073bd16 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -486,18 +486,19 @@ class Structure(Field):
             return self
 
         transformed = False
-        candidates = {}
-
-        for name, field in self.structure.items():
-            candidate = field.transform(transformer)
-            if candidate is not field:
-                candidates[name] = candidate
+        if self.polymorphic_on:
+            structure = {}
+            for identity, substructure in self.structure.items():
+                structure[identity] = self._transform_structure(substructure, transformer)
+                if structure[identity] is not substructure:
+                    transformed = True
+        else:
+            structure = self._transform_structure(self.structure, transformer)
+            if structure is not self.structure:
                 transformed = True
-            else:
-                candidates[name] = field
 
         if transformed:
-            return self.clone(structure=candidates)
+            return self.clone(structure=structure)
         else:
             return self
 
@@ -572,6 +573,21 @@ class Structure(Field):
             if not field.name:
                 field.name = name
 
+    def _transform_structure(self, structure, transformer):
+        transformed = False
+        candidates = {}
+
+        for name, field in structure.items():
+            candidate = field.transform(transformer)
+            if candidate is not field:
+                transformed = True
+            candidates[name] = candidate
+
+        if transformed:
+            return candidates
+        else:
+            return structure
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From cbd7df79403dd72b82a2af51fc94e8111bbfb766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 07/72] fix: union interpolation uses the given interpolator

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8de3215..95daec9 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -84,7 +84,7 @@ class Union(Field):
 
         for field in self.fields:
             try:
-                return field.interpolate(subject, parameters, interpolater)
+                return field.interpolate(subject, parameters, interpolator)
             except CannotInterpolateError:
                 pass
             except AttributeError:
-- 
2.43.0


From 473cbc3cf3008f3cc853c9c1ca48b03f6b8e04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 08/72] fix: enumeration reports constant and preprocessor
 failures as invalid

---
 scheme/fields/enumeration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 96f5e85..b8c027c 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -5,6 +5,11 @@ from scheme.util import string
 
 __all__ = ('Enumeration',)
 
+class EnumerationError(FieldError):
+    def format(self, field, params):
+        params.setdefault('values', field.representation)
+        return super(EnumerationError, self).format(field, params)
+
 class Enumeration(Field):
     """A field for enumerated values."""
 
@@ -12,7 +17,7 @@ class Enumeration(Field):
     parameters = {'enumeration': None}
 
     errors = [
-        FieldError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
+        EnumerationError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
     ]
 
     def __init__(self, enumeration, ignored_values=None, **params):
-- 
2.43.0


From a513980b84f4c1d0be405d24aba0dbd4030ec5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 09/72] fix: maps with tuples among their keys report errors
 properly

---
 scheme/fields/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index b24a831..936235c 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -196,14 +196,14 @@ class Map(Field):
         for name, subvalue in value.items():
             if key_field:
                 try:
-                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
+                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % (name,)])
                 except StructuralError as exception:
                     raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
             elif not isinstance(name, string):
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
 
             try:
-                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % (name,)])
             except StructuralError as exception:
                 valid = False
                 map[name] = exception
-- 
2.43.0


From 705c006a1a106018b4f6654235847da555e6eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 10/72] fix: unique sequences of unhashable items detect
 duplicates

---
 scheme/fields/sequence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index eca6c5f..b08724f 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -203,7 +203,7 @@ class Sequence(Field):
 
         if not valid:
             raise ValidationError(identity=ancestry, field=self, value=value, structure=sequence)
-        elif self.unique and len(set(sequence)) != len(sequence):
+        elif self.unique and self._has_duplicates(sequence):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('duplicate')
         else:
             return sequence
@@ -221,6 +221,12 @@ class Sequence(Field):
         else:
             return self.clone(item=candidate)
 
+    def _has_duplicates(self, sequence):
+        try:
+            return len(set(sequence)) != len(sequence)
+        except TypeError:
+            return any(item in sequence[:i] for i, item in enumerate(sequence))
+
     def _define_undefined_field(self, field):
         self.item = field
 
-- 
2.43.0


From 16fd80c04fa5bedbd880f4c55e4e1d5c871f051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 11/72] fix: malformed base64 is reported as an invalid binary
 value

---
 scheme/fields/binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/binary.py b/scheme/fields/binary.py
index 2824acc..3d88680 100644
--- a/scheme/fields/binary.py
+++ b/scheme/fields/binary.py
@@ -48,7 +48,10 @@ class Binary(Field):
         if not isinstance(value, bytes):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        return urlsafe_b64decode(value)
+        try:
+            return urlsafe_b64decode(value)
+        except ValueError:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, bytes):
-- 
2.43.0


From 37fb5f6f48889344f9143d4cf16865db7cffde29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 12/72] fix: filtered and transformed polymorphic structures do
 not share variants with the original

---
 scheme/fields/structure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 073bd16..e63a92d 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -237,7 +237,7 @@ class Structure(Field):
                     structure[identity] = candidate
                     filtered = True
                 else:
-                    structure[identity] = substructure
+                    structure[identity] = dict(substructure)
         else:
             structure = self._filter_structure(self.structure, all, params)
             if structure is not None:
@@ -489,9 +489,10 @@ class Structure(Field):
         if self.polymorphic_on:
             structure = {}
             for identity, substructure in self.structure.items():
-                structure[identity] = self._transform_structure(substructure, transformer)
-                if structure[identity] is not substructure:
+                candidate = self._transform_structure(substructure, transformer)
+                if candidate is not substructure:
                     transformed = True
+                structure[identity] = dict(candidate)
         else:
             structure = self._transform_structure(self.structure, transformer)
             if structure is not self.structure:
-- 
2.43.0


From 569d68657b13e99b7c5b470881820af87339bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 13/72] fix: a bounded decimal field rejects not-a-number
 instead of crashing

---
 scheme/fields/decimal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index d9ef58d..93c717c 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -88,6 +88,9 @@ class Decimal(Field):
         if not isinstance(value, decimal):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
+        if value.is_nan() and not (self.minimum is None and self.maximum is None):
+            raise ValidationError(identity=ancestry, field=self, value=value).construct('invalid')
+
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-- 
2.43.0


From ce866aeed5c212413343a92fee447316c8f0b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 14/72] fix: date fields take the date of a datetime instead of
 failing to compare it with bounds

---
 scheme/fields/date.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 3909571..61a10d1 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 
-from datetime import date
+from datetime import date, datetime
 from time import strptime
 
 from scheme.exceptions import *
@@ -66,6 +66,8 @@ class Date(Field):
         return value.strftime(self.pattern)
 
     def _unserialize_value(self, value, ancestry=None):
+        if isinstance(value, datetime):
+            return value.date()
         if isinstance(value, date):
             return value
 
@@ -77,6 +79,8 @@ class Date(Field):
     def _validate_value(self, value, ancestry):
         if not isinstance(value, date):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+        if isinstance(value, datetime):
+            value = value.date()
 
         minimum = self.minimum
         if minimum is not None and value < minimum:
@@ -87,3 +91,5 @@ class Date(Field):
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum.strftime(self.pattern))
+
+        return value
-- 
2.43.0


From eae94852ec7aa6b836485e71fd02be7b87521a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 15/72] fix: dates before the year 1000 and datetime bounds
 outside UTC serialize to text that reads back as the same value

---
 scheme/fields/date.py     | 14 +++++++-------
 scheme/fields/datetime.py | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 61a10d1..4e7f3bf 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -48,22 +48,22 @@ class Date(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self.minimum.isoformat())
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self.maximum.isoformat())
         return super(Date, self).__repr__(aspects)
 
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self.maximum.isoformat()
         if self.minimum is not None:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self.minimum.isoformat()
 
         return super(Date, self).describe(parameters, verbose, **params)
 
     def _serialize_value(self, value):
-        return value.strftime(self.pattern)
+        return value.isoformat()
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
@@ -85,11 +85,11 @@ class Date(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=minimum.isoformat())
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=maximum.isoformat())
 
         return value
diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 7a4dd34..cde7fb0 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -51,9 +51,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % self._serialize_value(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % self._serialize_value(self.maximum))
         if self.utc:
             aspects.append('utc=True')
 
@@ -62,9 +62,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -81,7 +81,7 @@ class DateTime(Field):
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
-        return value.strftime(self.pattern)
+        return value.replace(microsecond=0, tzinfo=None).isoformat() + 'Z'
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
@@ -102,11 +102,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=self._serialize_value(maximum))
 
         return value
-- 
2.43.0


From f9c6ae0fc7e613857ea5bba16cca407333a78d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 16/72] fix: datetimes out of range in the field's timezone are
 reported as overflow

---
 scheme/fields/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index cde7fb0..d465e2e 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -95,7 +95,10 @@ class DateTime(Field):
 
     def _validate_value(self, value, ancestry):
         if isinstance(value, datetime):
-            value = self._normalize_value(value)
+            try:
+                value = self._normalize_value(value)
+            except (OverflowError, ValueError):
+                raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
         else:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-- 
2.43.0


From b388be928cb7f4f5dca5a9f570a3842fe9e89ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 17/72] fix: bounded time fields compare aware and naive times
 of day instead of crashing

---
 scheme/fields/time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/time.py b/scheme/fields/time.py
index fe6e0bb..4e8ad9b 100644
--- a/scheme/fields/time.py
+++ b/scheme/fields/time.py
@@ -76,12 +76,14 @@ class Time(Field):
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
 
+        candidate = value.replace(tzinfo=None)
+
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and candidate < minimum.replace(tzinfo=None):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('minimum',
                 minimum=minimum.strftime(self.pattern))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and candidate > maximum.replace(tzinfo=None):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('maximum',
                 maximum=maximum.strftime(self.pattern))
-- 
2.43.0


From 68fc658a04810b62173f9d5e328aa47db287c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 18/72] fix: tokens, UUIDs and email addresses with a trailing
 newline are invalid

---
 scheme/fields/email.py | 6 +++---
 scheme/fields/token.py | 2 +-
 scheme/fields/uuid.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 0fc5c53..7f9c368 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -12,10 +12,10 @@ EMAIL_EXPR = (
     r'|"([\001-\010\013\014\016-\037!#-\[\]-\177]|\\[\001-\011\013\014\016-\177])*"'
     r')@([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,6}')
 
-EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?$' % EMAIL_EXPR)
-EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?$'
+EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?\Z' % EMAIL_EXPR)
+EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?\Z'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
-EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?$' % (EMAIL_EXPR, EMAIL_EXPR))
+EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?\Z' % (EMAIL_EXPR, EMAIL_EXPR))
 
 SEPARATOR_EXPR = re.compile(r'[\s,;:]+')
 SEPARATORS = whitespace + ',;:'
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index 7ac89a3..ff9c97c 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,7 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
-    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*$')
+    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a valid token')
diff --git a/scheme/fields/uuid.py b/scheme/fields/uuid.py
index 57f3713..fd6feaf 100644
--- a/scheme/fields/uuid.py
+++ b/scheme/fields/uuid.py
@@ -11,7 +11,7 @@ class UUID(Field):
     """A field for UUID values."""
 
     basetype = 'text'
-    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$')
+    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a UUID')
-- 
2.43.0


From 04800e79d44eecffcd34721e9e31b1792403d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 19/72] fix: csv cells may contain line breaks, and reading csv
 prints nothing

---
 scheme/formats/csv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index bcfe3e2..a59e81f 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -89,7 +89,7 @@ class Csv(Format):
         if not isinstance(structure, Structure):
             raise TypeError(structure)
 
-        reader = Reader(value.strip('\r\n').split('\r\n'), cls.Dialect)
+        reader = (row for row in Reader(StringIO(value), cls.Dialect) if row)
         columns = next(reader)
 
         cells = []
@@ -113,7 +113,6 @@ class Csv(Format):
             for i, column, converter in cells:
                 value = row[i]
                 if value:
-                    print(value)
                     if converter:
                         candidate[column] = converter(value)
                     else:
-- 
2.43.0


From 072b51bc6647c5ebe7b3312e8a892f1e4f091887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 20/72] fix: empty text in xml is read back as empty text
 instead of null

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index f250867..4e96a8f 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -97,4 +97,4 @@ class Xml(Format):
         elif field.type == 'union':
             raise NotImplementedError()
         else:
-            return attr, element.text
+            return attr, element.text or ''
-- 
2.43.0


From f99b1495aa8d4280d4def3d98b96f93bdb6662ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 21/72] fix: carriage returns in text survive xml

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 4e96a8f..d9e0fb0 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -23,7 +23,7 @@ class Xml(Format):
         element = etree.Element(schema.name or cls.default_root)
         cls._serialize_content(value, element, schema)
 
-        serialized = etree.tostring(element).decode('us-ascii')
+        serialized = etree.tostring(element).decode('us-ascii').replace('\r', '&#13;')
         if preamble:
             serialized = cls.preamble + serialized
 
-- 
2.43.0


From 0f90990106ad31b1171b4f6a277da3656b8af2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 22/72] fix: polymorphic structures can be written to and read
 from xml

---
 scheme/formats/xml.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index d9e0fb0..874d16b 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -49,9 +49,12 @@ class Xml(Format):
                 element.text = 'false'
         elif field.type == 'structure':
             if content:
+                structure = field.structure
+                if field.polymorphic_on:
+                    structure = structure[content[field.polymorphic_on.name]]
                 for key, value in sorted(content.items()):
                     subelement = etree.SubElement(element, key)
-                    cls._serialize_content(value, subelement, field.structure[key])
+                    cls._serialize_content(value, subelement, structure[key])
         elif field.type == 'map':
             if content:
                 for key, value in sorted(content.items()):
@@ -89,7 +92,14 @@ class Xml(Format):
         elif field.type == 'sequence':
             return attr, [cls._unserialize_element(v, field.item)[1] for v in element]
         elif field.type == 'structure':
-            return attr, dict(cls._unserialize_element(v, field.structure[v.tag])
+            structure = field.structure
+            if field.polymorphic_on:
+                polymorphic_on = field.polymorphic_on
+                identity = element.find(polymorphic_on.name)
+                if identity is not None:
+                    identity = cls._unserialize_element(identity, polymorphic_on)[1]
+                structure = structure.get(identity, {polymorphic_on.name: polymorphic_on})
+            return attr, dict(cls._unserialize_element(v, structure[v.tag])
                 for v in element)
         elif field.type == 'tuple':
             return attr, tuple(cls._unserialize_element(v, field.values[i])[1]
-- 
2.43.0


From f842f717cc5ac7d5c7e82b92f1e8b2ce9a7ef399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 23/72] fix: urlencoded works through schemas, and empty values
 survive structuredtext and urlencoded

---
 scheme/formats/structuredtext.py | 2 +-
 scheme/formats/urlencoded.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index c015ad9..4499f14 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -23,7 +23,7 @@ class StructuredText(Format):
     def unserialize(cls, value, schema=None, parse_numbers=False):
         if not isinstance(value, string):
             raise ValueError(value)
-        if value[0] in ('{', '['):
+        if value[:1] in ('{', '['):
             return cls._unserialize_structured_value(value, parse_numbers)
         else:
             return cls._unserialize_simple_value(value, parse_numbers)
diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index eec97cd..58f476a 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -18,7 +18,7 @@ class UrlEncoded(StructuredText):
     name = 'urlencoded'
 
     @classmethod
-    def serialize(cls, content):
+    def serialize(cls, content, schema=None):
         if not isinstance(content, dict):
             raise ValueError(content)
 
@@ -29,13 +29,13 @@ class UrlEncoded(StructuredText):
         return urlencode(data)
 
     @classmethod
-    def unserialize(cls, content):
+    def unserialize(cls, content, schema=None):
         if not isinstance(content, string):
             raise ValueError(content)
 
         data = {}
-        for name, value in parse_qsl(content):
-            if value[0] in ('{', '['):
+        for name, value in parse_qsl(content, keep_blank_values=True):
+            if value[:1] in ('{', '['):
                 value = cls._unserialize_structured_value(value)
             else:
                 value = cls._unserialize_simple_value(value)
-- 
2.43.0


From 315f4cb8cbf7a590e7c2c63f82754592e99d7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 24/72] fix: a failing write leaves the file unchanged, and
 files keep line breaks and text in any locale

---
 scheme/format.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scheme/format.py b/scheme/format.py
index fda8db8..0b9293e 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -54,8 +54,9 @@ class Format(object):
             else:
                 raise ValueError(format)
 
-        with open(path) as openfile:
-            return format.unserialize(openfile.read(), schema, **params)
+        with open(path, 'rb') as openfile:
+            content = openfile.read().decode('utf-8')
+        return format.unserialize(content, schema, **params)
 
     @classmethod
     def serialize(cls, value, format, schema=None, **params):
@@ -81,5 +82,9 @@ class Format(object):
             else:
                 raise ValueError(format)
 
-        with open(path, 'w+') as openfile:
-            openfile.write(format.serialize(value, schema, **params))
+        content = format.serialize(value, schema, **params)
+        if not isinstance(content, bytes):
+            content = content.encode('utf-8')
+
+        with open(path, 'wb') as openfile:
+            openfile.write(content)
-- 
2.43.0


From 5c7ac28cede7634aca7fc93c618c8b49342a8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 25/72] fix: descriptions include token segments, ignored
 values of enumerations and key order of structures

---
 scheme/fields/enumeration.py | 2 +-
 scheme/fields/structure.py   | 2 +-
 scheme/fields/token.py       | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index b8c027c..151d780 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -14,7 +14,7 @@ class Enumeration(Field):
     """A field for enumerated values."""
 
     basetype = 'enumeration'
-    parameters = {'enumeration': None}
+    parameters = {'enumeration': None, 'ignored_values': None}
 
     errors = [
         EnumerationError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index e63a92d..dbcca09 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -50,7 +50,7 @@ class Structure(Field):
     """
 
     basetype = 'structure'
-    parameters = {'strict': True}
+    parameters = {'strict': True, 'key_order': None}
     structural = True
 
     errors = [
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index ff9c97c..d13d745 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,6 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
+    parameters = {'segments': None}
     pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
-- 
2.43.0


From fb8dfd6582b037cfe8c7a25bee755a82fb53ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 26/72] fix: structures whose default contains nulls or nested
 values can be described

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index dbcca09..de91e33 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -162,7 +162,7 @@ class Structure(Field):
         if self.default:
             default = {}
             for name, value in self.default.items():
-                default[name] = default_structure[name]._serialize_value(value)
+                default[name] = default_structure[name].process(value, OUTBOUND, True)
 
         return super(Structure, self).describe(parameters, verbose, default=default,
             polymorphic_on=polymorphic_on, structure=structure)
-- 
2.43.0


From 8eb2a2e62697a78e70a8237a664c2433c49b19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 27/72] fix: fields with custom errors can be cloned, and email
 fields honour custom errors

---
 scheme/field.py        | 2 ++
 scheme/fields/email.py | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 5493144..12a932b 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -204,6 +204,8 @@ class Field(object):
             self.preprocessor = preprocessor
 
         if errors:
+            if isinstance(errors, dict):
+                errors = errors.values()
             self.errors = self.errors.copy()
             for error in errors:
                 self.errors[error.token] = error
diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 7f9c368..a91f310 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -30,15 +30,19 @@ class Email(Text):
     def __init__(self, multiple=False, extended=False, pattern=None,
             strip=None, errors=None, **params):
 
+        if isinstance(errors, dict):
+            errors = errors.values()
+        errors = list(errors or ())
+
         if multiple:
-            errors = self.multiple_errors
+            errors = self.multiple_errors + errors
             if not extended:
                 pattern = EMAIL_LIST_EXPR
             else:
                 raise ValueError("argument 'extended' cannot be True when argument"
                     " 'multiple' is True")
         else:
-            errors = self.single_errors
+            errors = self.single_errors + errors
             if extended:
                 pattern = EXTENDED_EMAIL_ADDRESS_EXPR
             else:
-- 
2.43.0


From d540ad6d937d8eac4553766e0ef85b9e106d7a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 28/72] fix: copies of a schema wait for the same undefined
 field, and structures may contain themselves

---
 scheme/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 12a932b..fe6c658 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -628,6 +628,9 @@ class Undefined(object):
         self.callbacks = []
         self.field = field
 
+    def __deepcopy__(self, memo):
+        return self
+
     def define(self, field):
         self.field = field
         for callback, args in self.callbacks:
-- 
2.43.0


From 2fe178f2c597bcb9576a2ebd20925aa95c433b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 29/72] fix: recursive schemas can be printed, and so can the
 errors they report

---
 scheme/fields/map.py       | 3 ++-
 scheme/fields/sequence.py  | 3 ++-
 scheme/fields/structure.py | 3 ++-
 scheme/fields/tuple.py     | 3 ++-
 scheme/fields/union.py     | 3 ++-
 scheme/util.py             | 6 ++++++
 6 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 936235c..960a0ec 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Map',)
 
@@ -63,6 +63,7 @@ class Map(Field):
         self.required_keys = required_keys
         self.value = value
 
+    @recursive_repr()
     def __repr__(self):
         aspects = []
         if self.key:
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index b08724f..a9fac89 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import pluralize, string
+from scheme.util import pluralize, recursive_repr, string
 
 __all__ = ('Sequence',)
 
@@ -60,6 +60,7 @@ class Sequence(Field):
         self.min_length = min_length
         self.unique = unique
 
+    @recursive_repr()
     def __repr__(self):
         aspects = ['item=%r' % self.item]
         if self.min_length is not None:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index de91e33..9557191 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -2,7 +2,7 @@ from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
 from scheme.interpolation import interpolate_parameters
-from scheme.util import getitem, string
+from scheme.util import getitem, recursive_repr, string
 
 __all__ = ('Structure',)
 
@@ -112,6 +112,7 @@ class Structure(Field):
             else:
                 raise ValueError('generate_default must be boolean')
 
+    @recursive_repr()
     def __repr__(self):
         aspects = ['structure=%r' % self.structure]
         if self.polymorphic_on:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 48d2a90..ea35d87 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 __all__ = ('Tuple',)
 
@@ -47,6 +47,7 @@ class Tuple(Field):
 
         self.values = tuple(stack)
 
+    @recursive_repr()
     def __repr__(self):
         return super(Tuple, self).__repr__(['values=%r' % (self.values,)])
 
diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 95daec9..ecb5cb1 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import string
+from scheme.util import recursive_repr, string
 
 class Union(Field):
     """A field composed of a union of two or more other fields, which attempts to process values
@@ -41,6 +41,7 @@ class Union(Field):
 
         self.fields = tuple(stack)
 
+    @recursive_repr()
     def __repr__(self):
         return super(Union, self).__repr__(['fields=%r' % (self.fields,)])
 
diff --git a/scheme/util.py b/scheme/util.py
index 207c1e3..49b22ae 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -3,6 +3,12 @@ import sys
 from inspect import getmodule
 from types import ModuleType
 
+try:
+    from reprlib import recursive_repr
+except ImportError:
+    def recursive_repr(fillvalue='...'):
+        return lambda method: method
+
 try:
     integers = (int, long)
 except NameError:
-- 
2.43.0


From 3dcb523fa62c1b9129ac9ff25cb4f1b277a8cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 30/72] fix: a structure refuses values lacking a field that is
 still undefined with the declared error

---
 scheme/fields/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 9557191..6fd837a 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -412,6 +412,8 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
+            elif isinstance(field, Undefined):
+                raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = field.default
             elif field.required:
-- 
2.43.0


From 832ff82bf0e6a1437d0d6eb0334d98f2998e6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 31/72] fix: processed values, generated defaults and elements
 do not share the containers of defaults

---
 scheme/element.py          |  4 ++--
 scheme/fields/structure.py |  6 +++---
 scheme/util.py             | 10 ++++++++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/scheme/element.py b/scheme/element.py
index a1e110d..df7bb25 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -1,5 +1,5 @@
 from scheme.fields import *
-from scheme.util import with_metaclass
+from scheme.util import copy_containers, with_metaclass
 
 __all__ = ('Element',)
 
@@ -77,7 +77,7 @@ class Element(object):
             defaults = self.__attrs__
 
         for attr, default in defaults.items():
-            setattr(self, attr, params.get(attr, default))
+            setattr(self, attr, params.get(attr, copy_containers(default)))
 
     def __repr__(self):
         aspects = []
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 6fd837a..9b8ca82 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -2,7 +2,7 @@ from scheme.exceptions import *
 from scheme.field import *
 from scheme.fields.enumeration import Enumeration
 from scheme.interpolation import interpolate_parameters
-from scheme.util import getitem, recursive_repr, string
+from scheme.util import copy_containers, getitem, recursive_repr, string
 
 __all__ = ('Structure',)
 
@@ -415,7 +415,7 @@ class Structure(Field):
             elif isinstance(field, Undefined):
                 raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
-                field_value = field.default
+                field_value = copy_containers(field.default)
             elif field.required:
                 valid = False
                 structure[name] = ValidationError(identity=ancestry, field=self).construct(
@@ -543,7 +543,7 @@ class Structure(Field):
             if value is None:
                 value = field.constant
             if not sparse or value is not None:
-                default[name] = value
+                default[name] = copy_containers(value)
 
         return default
 
diff --git a/scheme/util.py b/scheme/util.py
index 49b22ae..a139708 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -43,6 +43,16 @@ def abbreviate_string(value, maxlength=0):
 
     return '%s...%s' % (left, right)
 
+def copy_containers(value):
+    if type(value) is dict:
+        return dict((k, copy_containers(v)) for k, v in value.items())
+    elif type(value) is list:
+        return [copy_containers(item) for item in value]
+    elif type(value) is tuple:
+        return tuple(copy_containers(item) for item in value)
+    else:
+        return value
+
 def getitem(obj, key, default=NODEFAULT):
     if default is not NODEFAULT:
         return obj.get(key, default)
-- 
2.43.0


From 2a7b96fbfc8e49270ef113697b54e373fe19c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 32/72] fix: failing preprocessors of maps, sequences and
 tuples are reported as invalid values

---
 scheme/fields/map.py      | 6 +++++-
 scheme/fields/sequence.py | 6 +++++-
 scheme/fields/tuple.py    | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 960a0ec..0990a86 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -187,7 +187,11 @@ class Map(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         valid = True
         key_field = self.key
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index a9fac89..acc6f51 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -174,7 +174,11 @@ class Sequence(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         min_length = self.min_length
         if min_length is not None and len(value) < min_length:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index ea35d87..a12a985 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -170,7 +170,11 @@ class Tuple(Field):
         if not isinstance(value, (list, tuple)):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         values = self.values
         if len(value) != len(values):
-- 
2.43.0


From a900de52bc56e58bc9b40d9fb4dc77447c65814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 33/72] fix: errors about tuple values can be printed

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 026b1dd..1a37f01 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -144,7 +144,7 @@ class StructuralError(SchemeError):
             if definition.show_field:
                 lines.append('Field: %r' % field)
             if definition.show_value and self.value is not None:
-                lines.append('Value: %r' % self.value)
+                lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
                 lines.append('Captured tracebacks:')
-- 
2.43.0


From f62505e5ee35cebaa70e2e03a9104515eae635f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 34/72] fix: error fields accept serialized errors as lists and
 without top-level errors, and refuse malformed ones

---
 scheme/exceptions.py   |  2 +-
 scheme/fields/error.py | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 1a37f01..b017c0d 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -128,7 +128,7 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*errors, **{'structure': structure})
+        return cls(*(errors or ()), **{'structure': structure})
 
     def _format_errors(self, errors):
         field = self.field
diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 31787b9..7493a6d 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -18,11 +18,14 @@ class Error(Field):
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, StructuralError):
             return value
-        elif isinstance(value, tuple) and len(value) == 2:
-            return StructuralError.unserialize(value)
-        else:
-            raise InvalidTypeError(identity=ancestry, field=self,
-                value=value).construct('invalid')
+        elif isinstance(value, (list, tuple)) and len(value) == 2:
+            try:
+                return StructuralError.unserialize(value)
+            except TypeError:
+                pass
+
+        raise InvalidTypeError(identity=ancestry, field=self,
+            value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, StructuralError):
-- 
2.43.0


From d264342cc17ed33781d1d2707f2192c05a407348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 35/72] fix: fields with a tuple as default can be printed

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index fe6c658..b3d5850 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -223,7 +223,7 @@ class Field(object):
         if self.constant:
             aspects.append('constant=True')
         if self.default is not None:
-            aspects.append('default=%r' % self.default)
+            aspects.append('default=%r' % (self.default,))
         if self.nonnull:
             aspects.append('nonnull=True')
         if self.required:
-- 
2.43.0


From 77b2ecfdcaca52fac32ff90529a4c96fb2c2bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 36/72] fix: the error for booleans given to integer fields
 carries the value

---
 scheme/fields/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index bbbdf08..9465781 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -45,7 +45,7 @@ class Integer(Field):
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
-            raise InvalidTypeError(identity=ancestry, field=self, valid=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         try:
             return int(value)
-- 
2.43.0


From 4d9f8eac9f99cb3e85e602677a6beddaa3070496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 37/72] fix: extracting or interpolating a tuple with too few
 values raises the declared error

---
 scheme/fields/tuple.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index a12a985..12ea256 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -81,6 +81,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
+        if len(subject) < len(self.values):
+            raise CannotExtractError('extraction candidate has too few values')
 
         extraction = []
         for i, definition in enumerate(self.values):
@@ -148,6 +150,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple')
+        if len(subject) < len(self.values):
+            raise CannotInterpolateError('interpolation candidate has too few values')
 
         interpolation = []
         for i, definition in enumerate(self.values):
-- 
2.43.0


From 4fc6e411c2abb7734e792edb9d71df0174dd07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 38/72] fix: a failing extractor of a union is an extraction
 error

---
 scheme/fields/union.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index ecb5cb1..b498fa6 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -59,7 +59,10 @@ class Union(Field):
         if subject is None:
             return None
         if self.extractor:
-            subject = self.extractor(self, subject)
+            try:
+                subject = self.extractor(self, subject)
+            except Exception:
+                raise CannotExtractError('extractor raised exception')
 
         for field in self.fields:
             try:
-- 
2.43.0


From 242ebe956ee8c693fee6b20510e31d6d2be56247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 39/72] fix: key order applies to polymorphic structures and
 may name only some of the fields

---
 scheme/fields/structure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 9b8ca82..160fd0b 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -397,10 +397,8 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if identity:
-                key_order = self.key_order[identity]
-            else:
-                key_order = self.key_order
+            key_order = [name for name in self.key_order if name in definition]
+            key_order.extend(name for name in definition if name not in self.key_order)
         else:
             structure = {}
             key_order = definition.keys()
-- 
2.43.0


From 6d42857596f6cb431bb56c9f453a1e38ef6839e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 40/72] fix: polymorphic structures with non-text
 discriminators can be serialized

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 160fd0b..b002030 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -387,7 +387,7 @@ class Structure(Field):
                 raise ValidationError(identity=ancestry, field=self).construct('required',
                     name=polymorphic_on.name)
 
-            identity = polymorphic_on.process(identity, phase, serialized,
+            identity = polymorphic_on.process(identity, phase, serialized and phase == INBOUND,
                 ancestry + ['.' + polymorphic_on.name])
 
             definition = self.structure.get(identity)
-- 
2.43.0


From a7c39d778aeedade04a2ccc52bca08f12e2ee766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 41/72] fix: extraction and interpolation select polymorphic
 variants by falsy identities too, and refuse unknown ones

---
 scheme/fields/structure.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b002030..3261f11 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -202,7 +202,11 @@ class Structure(Field):
         else:
             raise CannotExtractError('extraction candidate must be a dict value')
 
-        definition = self._get_definition(subject, getter)
+        try:
+            definition = self._get_definition(subject, getter)
+        except (AttributeError, KeyError):
+            raise CannotExtractError('extraction candidate has no recognized polymorphic identity')
+
         extraction = {}
 
         for name, field in definition.items():
@@ -317,7 +321,12 @@ class Structure(Field):
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
 
-        definition = self._get_definition(subject)
+        try:
+            definition = self._get_definition(subject)
+        except KeyError:
+            raise CannotInterpolateError('interpolation candidate has no recognized polymorphic'
+                ' identity')
+
         interpolation = {}
 
         for name, field in definition.items():
@@ -546,9 +555,8 @@ class Structure(Field):
         return default
 
     def _get_definition(self, value, getter=getitem):
-        identity = self._get_polymorphic_identity(value, getter)
-        if identity:
-            return self.structure[identity]
+        if self.polymorphic_on:
+            return self.structure[self._get_polymorphic_identity(value, getter)]
         else:
             return self.structure
 
-- 
2.43.0


From 009882ecd11702a3fa325bd14d6304114f588e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 42/72] fix: surrogate versions below one are refused

---
 scheme/surrogate.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index a6d769e..48f287a 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -71,10 +71,9 @@ class surrogate(dict):
         elif impl.schemas:
             if version is None:
                 version = len(impl.schemas)
-            try:
-                effective_schema = impl.schemas[version - 1]
-            except IndexError:
+            if not 1 <= version <= len(impl.schemas):
                 raise Exception('invalid surrogate version')
+            effective_schema = impl.schemas[version - 1]
 
         if value is not None:
             if isinstance(value, dict):
@@ -173,10 +172,9 @@ class surrogate(dict):
         if version is None:
             version = len(cls.schemas)
 
-        try:
-            schema = cls.schemas[version - 1]
-        except IndexError:
+        if not 1 <= version <= len(cls.schemas):
             raise ValueError(value)
+        schema = cls.schemas[version - 1]
 
         value = schema.interpolate(value, parameters, interpolator)
         cls.contribute(value, version)
@@ -198,10 +196,9 @@ class surrogate(dict):
     @classmethod
     def _unserialize_versioned_surrogate(cls, value, ancestry=None):
         version = value.pop('__version__', 1)
-        try:
-            schema = cls.schemas[version - 1]
-        except IndexError:
+        if not 1 <= version <= len(cls.schemas):
             raise ValueError(value)
+        schema = cls.schemas[version - 1]
 
         value = schema.unserialize(value, ancestry=ancestry)
         return cls(value, version=version)
-- 
2.43.0


From edb327bd8b32d1964dc96a7aeeedc013bf29a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 43/72] fix: nested classes are identified by their qualified
 name

---
 scheme/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index a139708..02d251a 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -63,9 +63,10 @@ def identify_object(obj, cache={}):
     if isinstance(obj, ModuleType):
         return obj.__name__
     elif isinstance(obj, object) and isinstance(obj, type):
+        name = getattr(obj, '__qualname__', obj.__name__)
         if obj.__module__ == '__main__':
-            return obj.__name__
-        return '%s.%s' % (obj.__module__, obj.__name__)
+            return name
+        return '%s.%s' % (obj.__module__, name)
 
     try:
         return cache[obj]
-- 
2.43.0


From e75f4698ec354748255ef372edf2903c25f61ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 44/72] fix: yaml quotes text and keys that would not read back
 as the same text, and writes all floats as numbers

---
 scheme/formats/yaml.py | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index f662160..ede58e5 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -108,7 +108,7 @@ class Yaml(Format):
 
         lines = []
         for k, v in items:
-            key = '%s%s:' % (cls.indent * level, k)
+            key = '%s%s:' % (cls.indent * level, cls._serialize_key(k))
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
@@ -126,8 +126,42 @@ class Yaml(Format):
 
         return lines
 
+    @classmethod
+    def _is_faithful(cls, content, value, template, level):
+        """Indicates if ``content`` reads back as ``value``, alone and within a document."""
+
+        if isinstance(content, list):
+            content = '\n'.join([content[0].lstrip()] + content[1:])
+
+        try:
+            return (yaml is None or ((level or yaml.safe_load(content) == value) and
+                yaml.safe_load(template % content) in ([value, 1], {value: 1})))
+        except Exception:
+            return False
+
+    @classmethod
+    def _quote_string(cls, value):
+        return yaml.dump(value, default_style='"', width=float('inf')).rstrip('\n')
+
+    @classmethod
+    def _serialize_key(cls, value):
+        if not isinstance(value, string):
+            return cls._serialize_value(value, None)
+        elif value and cls._is_faithful(value, value, '%s: 1\n', None):
+            return value
+        else:
+            return cls._quote_string(value)
+
     @classmethod
     def _serialize_string(cls, value, level):
+        content = cls._format_string(value, level)
+        if cls._is_faithful(content, value, '- %s\n- 1\n', level):
+            return content
+        else:
+            return cls._quote_string(value)
+
+    @classmethod
+    def _format_string(cls, value, level):
         length = len(value)
         if length == 0:
             return "''"
@@ -136,7 +170,7 @@ class Yaml(Format):
 
         indent = cls.indent * level
         if '\n' in value:
-            lines = ['|']
+            lines = ['|' if value.endswith('\n') else '|-']
             for line in value.split('\n'):
                 if line:
                     lines.append(indent + line)
@@ -180,6 +214,8 @@ class Yaml(Format):
             return value.strftime('%Y-%m-%d %H:%M:%S')
         elif isinstance(value, date):
             return value.strftime('%Y-%m-%d')
+        elif isinstance(value, float) and yaml is not None:
+            return yaml.safe_dump(value).split('\n')[0]
         elif isinstance(value, (float, int)):
             return str(value)
         else:
-- 
2.43.0


From 283ae2817fc919b0d9e03bbb16a00e83f9e97074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 45/72] fix: show quoted dates in the yaml example of the
 readme

---
 README.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.rst b/README.rst
index 5493e9f..879f38a 100644
--- a/README.rst
+++ b/README.rst
@@ -39,7 +39,7 @@ Scheme can be used wherever incoming and outgoing structured data needs to be we
 
     >>> print(account.serialize(suzy, 'yaml'))
     active: false
-    birthday: 1985-12-02
+    birthday: "1985-12-02"
     email: suzy.queue@something.com
     logins: 324
     name: Suzy Queue
-- 
2.43.0


From ed9864ab325b5768bb8650ec5b492e1c5a4da39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 46/72] fix: keep the trailing newline of interpolated text

---
 scheme/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index 522396a..8ac95d5 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -24,7 +24,8 @@ class Interpolator(object):
     def __init__(self, filters=None, globals=None):
         self.environment = jinja2.Environment(
             variable_start_string='${',
-            variable_end_string='}')
+            variable_end_string='}',
+            keep_trailing_newline=True)
 
         for filter in self.standard_filters:
             self.environment.filters[filter.__name__] = filter
-- 
2.43.0


From f3dc3ae6d898874bc7fbc3fb31f9a027632cd257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 47/72] fix: describe empty defaults of structural fields

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/sequence.py  | 2 +-
 scheme/fields/structure.py | 2 +-
 scheme/fields/tuple.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 0990a86..50b1f8c 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -77,7 +77,7 @@ class Map(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for key, value in self.default.items():
                 default[key] = self.value.process(value, OUTBOUND, True)
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index acc6f51..6f59401 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -73,7 +73,7 @@ class Sequence(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = [self.item.process(value, OUTBOUND, True) for value in self.default]
 
         return super(Sequence, self).describe(parameters, verbose,
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 3261f11..5ee23d7 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -160,7 +160,7 @@ class Structure(Field):
             structure = self._describe_structure(self.structure, parameters, verbose)
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for name, value in self.default.items():
                 default[name] = default_structure[name].process(value, OUTBOUND, True)
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 12ea256..27ab4d4 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -57,7 +57,7 @@ class Tuple(Field):
             values.append(value.describe(parameters, verbose))
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = []
             for field, value in zip(self.values, self.default):
                 default.append(field.process(value, OUTBOUND, True))
-- 
2.43.0


From 23151c8bc2bcec862ff0fb9c25945c3ea4498db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 48/72] fix: refuse unhashable polymorphic identities in
 extraction and interpolation

---
 scheme/fields/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5ee23d7..97001c6 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -204,7 +204,7 @@ class Structure(Field):
 
         try:
             definition = self._get_definition(subject, getter)
-        except (AttributeError, KeyError):
+        except (AttributeError, KeyError, TypeError):
             raise CannotExtractError('extraction candidate has no recognized polymorphic identity')
 
         extraction = {}
@@ -323,7 +323,7 @@ class Structure(Field):
 
         try:
             definition = self._get_definition(subject)
-        except KeyError:
+        except (KeyError, TypeError):
             raise CannotInterpolateError('interpolation candidate has no recognized polymorphic'
                 ' identity')
 
-- 
2.43.0


From bb4e73866f945424152bff7c6da1a43623c4da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 49/72] fix: describe the keys of map defaults in serialized
 form

---
 scheme/fields/map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 50b1f8c..64fde1e 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -80,6 +80,8 @@ class Map(Field):
         if self.default is not None:
             default = {}
             for key, value in self.default.items():
+                if self.key:
+                    key = self.key.process(key, OUTBOUND, True)
                 default[key] = self.value.process(value, OUTBOUND, True)
 
         params = {'value': self.value.describe(parameters, verbose), 'default': default}
-- 
2.43.0


From 7282172fa540b70fede8d4d903cd778a031b7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 50/72] fix: write XML elements with non-ASCII names as
 well-formed XML

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 874d16b..20aa830 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -23,7 +23,7 @@ class Xml(Format):
         element = etree.Element(schema.name or cls.default_root)
         cls._serialize_content(value, element, schema)
 
-        serialized = etree.tostring(element).decode('us-ascii').replace('\r', '&#13;')
+        serialized = etree.tostring(element, encoding='unicode').replace('\r', '&#13;')
         if preamble:
             serialized = cls.preamble + serialized
 
-- 
2.43.0


From c3e317e8fc9aebfd62010de2d71f687776f96cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 51/72] fix: unescape brackets in structured text when numbers
 are parsed

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 4499f14..3711334 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -120,4 +120,4 @@ class StructuredText(Format):
         try:
             return int(value)
         except (TypeError, ValueError):
-            return value
+            return cls.ESCAPED_TOKENS_EXPR.sub(r'\1', value)
-- 
2.43.0


From cd73eb9ec8f5f45b530a0e46f0c98e3042e69638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 52/72] fix: do not take escaped brackets for the start of a
 structure in structured text

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 3711334..eb9fc7c 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -10,7 +10,7 @@ class StructuredText(Format):
     name = 'structuredtext'
 
     STRUCTURE_EXPR = re.compile(
-        r'(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
+        r'(?<!\\)(?:(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\]))'
     )
     STRUCTURE_TOKENS_EXPR = re.compile(r'([{}\[\]])')
     ESCAPED_TOKENS_EXPR = re.compile(r'\\([{}\[\]])')
-- 
2.43.0


From 9edc828ff93d309c3a942e3f73dbde0e0fafe41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 53/72] fix: clones do not share the containers of the
 original's default

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index b3d5850..f66e797 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -256,7 +256,7 @@ class Field(object):
         a value that cannot be deep-copied are silently ignored."""
 
         if 'default' not in params:
-            params['default'] = self.default
+            params['default'] = copy_containers(self.default)
 
         for key, value in self.__dict__.items():
             if key not in params:
-- 
2.43.0


From 12782f5660f3df0325e6a5c16cdbc2b9a0c99c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:17 +0000
Subject: [PATCH 54/72] fix: late-defined structure members may be recursive in
 any order of definition

---
 scheme/fields/structure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 97001c6..2935809 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -515,10 +515,12 @@ class Structure(Field):
 
     def _define_undefined_field(self, field, name):
         identity, name = name
+        if not field.name:
+            field.name = name
         if self.polymorphic_on:
-            self.structure[identity][name] = field.clone(name=name)
+            self.structure[identity][name] = field
         else:
-            self.structure[name] = field.clone(name=name)
+            self.structure[name] = field
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
-- 
2.43.0


From 563f7bf17efa06bb81cbd03e0eeff578c43061ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 55/72] fix: objects are identified by identity, not by
 equality

---
 scheme/util.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 02d251a..7db3953 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -59,7 +59,7 @@ def getitem(obj, key, default=NODEFAULT):
     else:
         return obj[key]
 
-def identify_object(obj, cache={}):
+def identify_object(obj):
     if isinstance(obj, ModuleType):
         return obj.__name__
     elif isinstance(obj, object) and isinstance(obj, type):
@@ -68,19 +68,13 @@ def identify_object(obj, cache={}):
             return name
         return '%s.%s' % (obj.__module__, name)
 
-    try:
-        return cache[obj]
-    except KeyError:
-        pass
-
     module = getmodule(obj)
     if not module:
         raise TypeError(obj)
 
     for attr, value in module.__dict__.items():
         if value is obj:
-            identity = cache[obj] = '%s.%s' % (module.__name__, attr)
-            return identity
+            return '%s.%s' % (module.__name__, attr)
     else:
         raise TypeError(obj)
 
-- 
2.43.0


From af3a0192f46ec4a35166b5c992724a60f24c1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 56/72] fix: local datetimes keep their instant when clocks
 change, and past offsets are honoured

---
 scheme/timezone.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 000e173..55e3947 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -1,3 +1,4 @@
+from calendar import timegm
 from datetime import datetime, timedelta, tzinfo
 import time
 
@@ -12,6 +13,13 @@ else:
     DST_OFFSET = STD_OFFSET
 DST_DIFF = DST_OFFSET - STD_OFFSET
 
+def local_offset(timestamp):
+    local = time.localtime(timestamp)
+    try:
+        return local.tm_gmtoff
+    except AttributeError:
+        return timegm(local) - timestamp
+
 class FixedOffsetTimezone(tzinfo):
     name = None
     offset = ZERO
@@ -61,14 +69,30 @@ class LocalTimezone(tzinfo):
         return time.tzname[self._isdst(value)]
 
     def utcoffset(self, value):
-        if self._isdst(value):
-            return DST_OFFSET
+        wall = timegm(value.replace(tzinfo=None).timetuple())
+        before = local_offset(wall - 86400)
+        after = local_offset(wall + 86400)
+
+        # where the clocks are set back a time occurs twice, and where they are
+        # set forward it does not occur; fold tells which offset is meant
+        if getattr(value, 'fold', 0):
+            before, after = after, before
+
+        for offset in (before, after):
+            if local_offset(wall - offset) == offset:
+                return timedelta(seconds=offset)
         else:
-            return STD_OFFSET
+            return timedelta(seconds=before)
+
+    def fromutc(self, value):
+        offset = timedelta(seconds=local_offset(timegm(value.replace(tzinfo=None).timetuple())))
+        value = value + offset
+        if self.utcoffset(value) != offset and hasattr(value, 'fold'):
+            value = value.replace(fold=1)
+        return value
 
     def _isdst(self, v):
-        timestamp = time.mktime((v.year, v.month, v.day, v.hour, v.minute,
-            v.second, v.weekday(), 0, -1))
+        timestamp = timegm(v.replace(tzinfo=None).timetuple()) - int(self.utcoffset(v).total_seconds())
         return (time.localtime(timestamp).tm_isdst > 0)
 
 LOCAL = LocalTimezone()
-- 
2.43.0


From da1155930df7a691e13468f6f9b382aa3e5357b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 57/72] fix: datetime bounds are compared as instants where a
 local time occurs twice

---
 scheme/fields/datetime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index d465e2e..bfba791 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -68,6 +68,9 @@ class DateTime(Field):
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
+    def _instant(self, value):
+        return value.replace(tzinfo=None) - datetime.min - value.utcoffset()
+
     def _normalize_value(self, value):
         timezone = self.timezone
         if value.tzinfo is not None:
@@ -103,12 +106,12 @@ class DateTime(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and self._instant(value) < self._instant(minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=self._serialize_value(minimum))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and self._instant(value) > self._instant(maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=self._serialize_value(maximum))
 
-- 
2.43.0


From 495fab43c4bed9723d43d4d7a3a0a26ba3431682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 58/72] fix: a polymorphic identity may be zero or empty text

---
 scheme/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index df7bb25..58d576c 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -6,7 +6,7 @@ __all__ = ('Element',)
 class ElementMeta(type):
     def __new__(metatype, name, bases, namespace):
         element = type.__new__(metatype, name, bases, namespace)
-        if element.polymorphic_identity:
+        if element.polymorphic_identity is not None:
             base = bases[0]
             if getattr(base, '__polymorphic_on__', None):
                 base.__polymorphic_impl__[element.polymorphic_identity] = element
-- 
2.43.0


From 74cc36a0d5043a9d1c9047e7871f80948993e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:16 +0000
Subject: [PATCH 59/72] fix: a field keeps aspects of its own, not the caller's
 dictionary

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index f66e797..6bee1ae 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -187,7 +187,7 @@ class Field(object):
         if extractor:
             extractor = getattr(extractor, '__extract__', extractor)
 
-        self.aspects = aspects or {}
+        self.aspects = dict(aspects or ())
         self.constant = constant
         self.default = default
         self.description = description
-- 
2.43.0


From 509ef09e49d4c1e701a9d16f73aca106fa8c04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 60/72] fix: an error declared by a subclass of Email is the
 one it reports

---
 scheme/fields/email.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index a91f310..7ce28dd 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -34,15 +34,19 @@ class Email(Text):
             errors = errors.values()
         errors = list(errors or ())
 
+        single_errors, multiple_errors = self.single_errors, self.multiple_errors
+        if self.errors.get('pattern') is not Text.errors['pattern']:
+            single_errors = multiple_errors = []
+
         if multiple:
-            errors = self.multiple_errors + errors
+            errors = multiple_errors + errors
             if not extended:
                 pattern = EMAIL_LIST_EXPR
             else:
                 raise ValueError("argument 'extended' cannot be True when argument"
                     " 'multiple' is True")
         else:
-            errors = self.single_errors + errors
+            errors = single_errors + errors
             if extended:
                 pattern = EXTENDED_EMAIL_ADDRESS_EXPR
             else:
-- 
2.43.0


From a730f08130b60c3acbdf8e0083e89b43a5e8fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:32 +0000
Subject: [PATCH 61/72] fix: a structure with a member named 'fieldtype' can be
 reconstructed

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 6bee1ae..e8b3528 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -545,7 +545,7 @@ class Field(object):
     @classmethod
     def _construct_parameter(cls, parameter):
         if isinstance(parameter, dict):
-            if 'fieldtype' in parameter:
+            if isinstance(parameter.get('fieldtype'), string):
                 return Field.reconstruct(parameter)
             else:
                 return dict((k, cls._construct_parameter(v)) for k, v in parameter.items())
-- 
2.43.0


From d8ed054261f911b5709a777de0c074c1e87f9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:36 +0000
Subject: [PATCH 62/72] fix: an error read from its serialized form keeps its
 structure when it is serialized again

---
 scheme/exceptions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index b017c0d..df28674 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -55,6 +55,8 @@ class StructuralError(SchemeError):
         non-structural error if ``token`` is present.
     """
 
+    _structure_serialized = False
+
     def __init__(self, *errors, **params):
         self.errors = list(errors)
         self.field = params.pop('field', None)
@@ -79,6 +81,7 @@ class StructuralError(SchemeError):
 
     def attach(self, structure):
         self.structure = structure
+        self._structure_serialized = False
         return self
 
     def capture(self):
@@ -128,7 +131,9 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*(errors or ()), **{'structure': structure})
+        error = cls(*(errors or ()), **{'structure': structure})
+        error._structure_serialized = True
+        return error
 
     def _format_errors(self, errors):
         field = self.field
@@ -177,6 +182,9 @@ class StructuralError(SchemeError):
 
     def _serialize_structure(self):
         structure = self.structure
+        if self._structure_serialized:
+            return structure
+
         if isinstance(structure, list):
             errors = []
             for item in structure:
-- 
2.43.0


From 190f35830732f268e0f1d4457941a6e7ab088f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:39 +0000
Subject: [PATCH 63/72] fix: Error fields refuse values which are not the
 serialized form of an error

---
 scheme/fields/error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 7493a6d..29c19f6 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -19,10 +19,10 @@ class Error(Field):
         if isinstance(value, StructuralError):
             return value
         elif isinstance(value, (list, tuple)) and len(value) == 2:
-            try:
+            errors, structure = value
+            if ((errors is None or isinstance(errors, (list, tuple)))
+                    and (structure is None or isinstance(structure, (dict, list)))):
                 return StructuralError.unserialize(value)
-            except TypeError:
-                pass
 
         raise InvalidTypeError(identity=ancestry, field=self,
             value=value).construct('invalid')
-- 
2.43.0


From b8f74339beabcd455f9e7bc7b52f0f1f132868a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:41 +0000
Subject: [PATCH 64/72] fix: abbreviate_string abbreviates instead of failing
 on an index which is a float, or on a part without letters and digits

---
 scheme/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 7db3953..5b4224f 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -31,14 +31,14 @@ def abbreviate_string(value, maxlength=0):
     if len(value) <= maxlength:
         return value
 
-    half = (maxlength - 3) / 2
+    half = (maxlength - 3) // 2
 
     left = value[:half]
-    while not left[-1].isalnum():
+    while left and not left[-1].isalnum():
         left = left[:-1]
 
-    right = value[-half:]
-    while not right[0].isalnum():
+    right = value[len(value) - half:]
+    while right and not right[0].isalnum():
         right = right[1:]
 
     return '%s...%s' % (left, right)
-- 
2.43.0


From 6e6751b88ac629cc36ec0eae4eb1e625f5a28fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 65/72] fix: the name of a fixed offset timezone shows the
 offset it has, also west of Greenwich and with minutes below ten

---
 scheme/timezone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 55e3947..5e1b3dd 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -44,13 +44,13 @@ class FixedOffsetTimezone(tzinfo):
             return self.name
 
         seconds = self.offset.seconds + (self.offset.days * 86400)
-        hours, seconds = divmod(seconds, 3600)
+        sign = '-' if seconds < 0 else '+'
+        hours, minutes = divmod(abs(seconds) // 60, 60)
 
-        minutes = seconds / 60
         if minutes:
-            return '%+03d:%d' % (hours, minutes)
+            return '%s%02d:%02d' % (sign, hours, minutes)
         else:
-            return '%+03d' % hours
+            return '%s%02d' % (sign, hours)
 
     def utcoffset(self, value=None):
         return self.offset
-- 
2.43.0


From f5da2cfe98bbe68092dfd40b7ff1bd285bea38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:40 +0000
Subject: [PATCH 66/72] fix: document the fields of a union

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index d74d412..be65a5d 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -196,7 +196,7 @@ class DocumentationGenerator(object):
     def _describe_union(self, field, block, role):
         fields = field.get('fields')
         if fields:
-            for i, subfield in enumerat,e(fields):
+            for i, subfield in enumerate(fields):
                 block.append(self._document_field('', subfield, role))
 
     def _document_field(self, name, field, role=None, sectional=False, key=None):
-- 
2.43.0


From 4be82137721f1b83ad0acce1d06b9cc50eef8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 67/72] fix: document the maximum of a decimal field as its
 maximum

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index be65a5d..6973914 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -92,7 +92,7 @@ class DocumentationGenerator(object):
         if field.get('minimum') is not None:
             constraints.append('min=%r' % field['minimum'])
         if field.get('maximum') is not None:
-            constraints.append('min=%r' % field['maximum'])
+            constraints.append('max=%r' % field['maximum'])
         if constraints:
             block.set('constraints', ', '.join(constraints))
 
-- 
2.43.0


From 3ac4d55a4b69973876fb3fbc963b4338bf6df78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 68/72] fix: document enumerations of values other than strings

---
 scheme/doc/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 6973914..8b54999 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -98,7 +98,7 @@ class DocumentationGenerator(object):
 
     def _describe_enumeration(self, field, block, role):
         if field.get('constant') is None:
-            block.set('values', ' '.join(sorted(field['enumeration'])))
+            block.set('values', ' '.join(sorted(str(value) for value in field['enumeration'])))
 
     def _describe_float(self, field, block, role):
         constraints = []
-- 
2.43.0


From cb186f59a03e87aad282ae23d256a5bb8d20636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 69/72] fix: document the fields of a structure

---
 scheme/doc/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheme/doc/generator.py b/scheme/doc/generator.py
index 8b54999..2fe98f5 100644
--- a/scheme/doc/generator.py
+++ b/scheme/doc/generator.py
@@ -67,6 +67,11 @@ class DocumentationGenerator(object):
         'required': ['schema'],
     }
 
+    def _collate_fields(self, structure, leading=()):
+        names = [name for name in leading if name in structure]
+        names.extend(name for name in sorted(structure) if name not in leading)
+        return [(name, structure[name]) for name in names]
+
     def _describe_date(self, field, block, role):
         constraints = []
         if isinstance(field.get('minimum'), date):
-- 
2.43.0


From ba0f2d4302c0732b20c61f7b737387d9cb81a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 70/72] fix: name and daylight saving of local times where
 standard time is kept in summer

---
 scheme/timezone.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 5e1b3dd..969806d 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -12,6 +12,15 @@ if time.daylight:
 else:
     DST_OFFSET = STD_OFFSET
 DST_DIFF = DST_OFFSET - STD_OFFSET
+NAMES = time.tzname
+
+# where standard time is the time of the summer the module's constants are reversed
+for timestamp in (time.time(), time.time() + 182 * 86400):
+    local = time.localtime(timestamp)
+    if time.daylight and local.tm_isdst > 0 and timegm(local) - int(timestamp) == -time.timezone:
+        DST_DIFF = STD_OFFSET - DST_OFFSET
+        NAMES = time.tzname[::-1]
+        break
 
 def local_offset(timestamp):
     local = time.localtime(timestamp)
@@ -66,7 +75,7 @@ class LocalTimezone(tzinfo):
             return ZERO
 
     def tzname(self, value):
-        return time.tzname[self._isdst(value)]
+        return NAMES[self._isdst(value)]
 
     def utcoffset(self, value):
         wall = timegm(value.replace(tzinfo=None).timetuple())
-- 
2.43.0


From 52293bcb27fc89d11fa346adc5b910881b31aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:20 +0000
Subject: [PATCH 71/72] fix: the text of a field mentions constants which are
 zero, False or empty

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index e8b3528..b7f763c 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -220,7 +220,7 @@ class Field(object):
             aspects.append('name=%r' % self.name)
         if params:
             aspects.extend(params)
-        if self.constant:
+        if self.constant is not None:
             aspects.append('constant=True')
         if self.default is not None:
             aspects.append('default=%r' % (self.default,))
-- 
2.43.0


From db901c6234e3405f62a4c1a24339ffc4d9f763bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:38 +0000
Subject: [PATCH 72/72] fix: enumerations of values which cannot be hashed can
 be redefined

---
 scheme/fields/enumeration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 151d780..ac3c79c 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -68,7 +68,12 @@ class Enumeration(Field):
         else:
             raise ValueError("argument 'strategy' must be either 'append' or 'replace'")
 
-        self.enumeration = list(set(baseline + enumeration))
+        values = []
+        for value in baseline + enumeration:
+            if value not in values:
+                values.append(value)
+
+        self.enumeration = values
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
     def _is_null(self, value, ancestry):
-- 
2.43.0

