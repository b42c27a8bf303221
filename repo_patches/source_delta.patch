From 5fac2c5d494cb60ebd13367f8b4abb917a308c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 01/15] fix: attribute errors raised by Schema.update() to the
 updated schema

update() never set the current schema, so a rejected update raised LookupError
in a thread (or context) that had not initialized a schema before, and errors
were attributed to an outer schema when updating from within a callback.
---
 oblate/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..a55293a 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -412,6 +412,13 @@ class Schema(metaclass=_SchemaMeta):
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
+        schema_token = current_schema.set(self)
+        try:
+            self._update_fields(data, ignore_extra)
+        finally:
+            current_schema.reset(schema_token)
+
+    def _update_fields(self, data: Mapping[str, Any], ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
         old_values = self._field_values.copy()
-- 
2.43.0


From 46171e12998eddd3ebb0a0e7190e57b1da8ec213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:59 +0000
Subject: [PATCH 02/15] fix: roll back Schema.update() whatever exception makes
 it fail

Only validation errors were rolled back: a frozen field met half-way through
the data, or any other exception raised by user code, left the instance
partially updated.
---
 oblate/schema.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a55293a..be38e1b 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -412,16 +412,20 @@ class Schema(metaclass=_SchemaMeta):
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
+        old_values = self._field_values.copy()
         schema_token = current_schema.set(self)
         try:
             self._update_fields(data, ignore_extra)
+        except BaseException:
+            # fallback to original state in case update fails
+            self._field_values = old_values
+            raise
         finally:
             current_schema.reset(schema_token)
 
     def _update_fields(self, data: Mapping[str, Any], ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
-        old_values = self._field_values.copy()
 
         for key, value in data.items():
             token = current_field_key.set(key)
@@ -438,8 +442,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            # fallback to original state in case update fails
-            self._field_values = old_values
             raise config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
-- 
2.43.0


From e9ed0c99ff71311fa6d0d05e24953c1fbaaf3c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 03/15] fix: reset the current schema when Schema.dump()
 finishes

dump() left itself as the current schema of the calling thread or task, so
errors raised afterwards (by the callback that called dump(), for example)
were attributed to the dumped schema.
---
 oblate/schema.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index be38e1b..2bdc701 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -30,6 +30,7 @@ from typing import (
     List,
     Optional,
     Sequence,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -477,7 +478,13 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
+        schema_token = current_schema.set(self)
+        try:
+            return self._dump_fields(fields)
+        finally:
+            current_schema.reset(schema_token)
+
+    def _dump_fields(self, fields: Set[str]) -> Dict[str, Any]:
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
 
-- 
2.43.0


From 7f88fe11adb67a77a21ac03e92684407a9fa6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 04/15] fix: always reset the current context after processing
 a value

The load context stayed set in the calling thread or task after a None value
and when a raw validator raised something other than a validation failure.
---
 oblate/schema.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 2bdc701..9ed7fda 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -246,12 +246,25 @@ class Schema(metaclass=_SchemaMeta):
         # using this data. This is done when validators are ran on initialization
         # of schema. (e.g. Schema._prepare_from_data does this)
 
+        context = LoadContext(field=field, value=value, schema=self)
+        token = current_context.set(context)
+        try:
+            return self._load_field_value(field, value, context, validators)
+        finally:
+            current_context.reset(token)
+
+    def _load_field_value(
+            self,
+            field: Field[Any, Any],
+            value: Any,
+            context: LoadContext,
+            validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]] = None,
+        ) -> List[FieldError]:
+
         name = field._name
         lazy_validation = validators is not None
         errors: List[FieldError] = []
         validator_errors: List[FieldError] = []
-        context = LoadContext(field=field, value=value, schema=self)
-        token = current_context.set(context)
 
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
@@ -279,8 +292,6 @@ class Schema(metaclass=_SchemaMeta):
             if not validator_errors:
                 self._field_values[name] = final_value
             errors.extend(validator_errors)
-        finally:
-            current_context.reset(token)
 
         return errors
 
-- 
2.43.0


From 9cbca37f0167e15010c6cfaa385f966349baabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 05/15] fix: run and report raw validators alike in
 construction and updates

Assignments and updates skipped raw validators for None, and dropped the errors
of raw validators when the value also failed to load.
---
 oblate/schema.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 9ed7fda..c8d9f04 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -269,15 +269,17 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
+        if not lazy_validation:
+            validator_errors.extend(field._run_validators(value, context, raw=True))
+
         if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
+            if not field.none:
                 errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+            elif not validator_errors:
+                self._field_values[name] = None
+            errors.extend(validator_errors)
             return errors
 
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
@@ -291,8 +293,8 @@ class Schema(metaclass=_SchemaMeta):
                 validators.append((field, final_value, context, False))
             if not validator_errors:
                 self._field_values[name] = final_value
-            errors.extend(validator_errors)
 
+        errors.extend(validator_errors)
         return errors
 
     def _get_field(self, name: str) -> Field[Any, Any]:
-- 
2.43.0


From 56eab6951673ccab4e55dc98220474c0041b7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 06/15] fix: use the load key as the key of errors raised by
 assignments

FieldError.key was the attribute name instead of the key in raw data, and
FieldError.field was None (or another field), when a field has a load key.
---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From 96d9215e0bbfbedd4d5089885786338b35f4f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 07/15] fix: do not skip validators when others are removed
 meanwhile

A validator that removes itself (or is removed by another thread) while the
validators of its field are running made the one after it not run.
---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..a2158a5 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -210,7 +210,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         self._schema = schema
 
     def _run_validators(self, value: Any, context: LoadContext, raw: bool = False) -> List[FieldError]:
-        validators = self._raw_validators if raw else self._validators
+        validators = (self._raw_validators if raw else self._validators).copy()
         errors: List[FieldError] = []
 
         for validator in validators:
-- 
2.43.0


From a84d98f29c6ad5b1e45f7a3527907678baa0052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 08/15] fix: dump None values of Object fields as None

Object(none=True) accepts None but dumping it raised AttributeError.
---
 oblate/fields/nesting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..b5aec1d 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -115,4 +115,6 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
+        if value is None:
+            return None
         return value.dump()
-- 
2.43.0


From 1ade768f154933d49d5c0c63107495816591d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 09/15] fix: report dump failures of nested schemas under their
 field

The ValidationError of a nested dump() escaped from the enclosing dump() as it
was, hiding the field it belongs to and the failures of all other fields.
---
 oblate/fields/nesting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index b5aec1d..6bb5330 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -117,4 +117,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
         if value is None:
             return None
-        return value.dump()
+        try:
+            return value.dump()
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From 47148bce01cdadeacfdac93c3b4f45f9b098fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 10/15] fix: remove the load key of an overridden field from
 the subclass

Overriding an inherited field with one that has another load key left the
inherited field in __load_fields__: the subclass required and accepted both.
---
 oblate/schema.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index c8d9f04..d6f954e 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -151,8 +151,7 @@ class Schema(metaclass=_SchemaMeta):
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
-                cls.__fields__[name] = member  # type: ignore
-                cls.__load_fields__[member.load_key] = member  # type: ignore
+                cls._register_field(name, member)
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
@@ -168,6 +167,16 @@ class Schema(metaclass=_SchemaMeta):
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
+    @classmethod
+    def _register_field(cls, name: str, field: Field[Any, Any]) -> None:
+        overridden = cls.__fields__.get(name)
+        if overridden is not None and cls.__load_fields__.get(overridden.load_key) is overridden:
+            # the overriding field does not necessarily have the same load key
+            del cls.__load_fields__[overridden.load_key]
+
+        cls.__fields__[name] = field
+        cls.__load_fields__[field.load_key] = field
+
     def _prepare_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         data = self.preprocess_data(data)
         if not isinstance(data, collections.abc.Mapping):
-- 
2.43.0


From 1711a576ff2dec0e5c8e4ace7c467eebf96aefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 11/15] fix: inherit the fields of all parent schemas

A schema with several parents only had the fields of the first one.
---
 oblate/schema.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index d6f954e..240ea54 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -143,6 +143,12 @@ class Schema(metaclass=_SchemaMeta):
             # the parent schema's fields are not modified
             cls.__fields__ = cls.__fields__.copy()
             cls.__load_fields__ = cls.__load_fields__.copy()
+
+            # The above only has the fields of first parent in the MRO
+            for base in reversed(cls.__mro__[1:]):
+                for name, field in getattr(base, '__fields__', {}).items():
+                    if field._schema is base:
+                        cls._register_field(name, field)
         else:
             cls.__fields__ = {}
             cls.__load_fields__ = {}
-- 
2.43.0


From abd4ba81df6ddffcb9e4a28ea3111bd63eeaa759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 12/15] fix: allow validate.field() to name an inherited field

Registering a validator in a subclass for a field of the parent schema by its
name, as documented, raised TypeError. The inherited field is copied, so that
the parent schema is not affected.
---
 oblate/schema.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 240ea54..60dc016 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -154,13 +154,17 @@ class Schema(metaclass=_SchemaMeta):
             cls.__load_fields__ = {}
 
         members = vars(cls).copy()
-        for name, member in members.items():
+        for name, member in list(members.items()):
             if isinstance(member, Field):
                 member._bind(name, cls)
                 cls._register_field(name, member)
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
+                    if field not in members and field in cls.__fields__:
+                        # inherited field: the validator must not be added to
+                        # the field of the parent schema
+                        members[field] = cls._copy_inherited_field(field)
                     try:
                         field = members[field]
                     except KeyError:  # pragma: no cover
@@ -183,6 +187,14 @@ class Schema(metaclass=_SchemaMeta):
         cls.__fields__[name] = field
         cls.__load_fields__[field.load_key] = field
 
+    @classmethod
+    def _copy_inherited_field(cls, name: str) -> Field[Any, Any]:
+        field = cls.__fields__[name].copy()
+        field._bind(name, cls)
+        cls._register_field(name, field)
+        setattr(cls, name, field)
+        return field
+
     def _prepare_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         data = self.preprocess_data(data)
         if not isinstance(data, collections.abc.Mapping):
-- 
2.43.0


From 9a2f17d7d41224e7f1d671c26787f26bd107bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 13/15] fix: respect oblate.config being replaced

Replacing oblate.config by another GlobalConfig, as documented, had no effect:
the original object was still used.
---
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 9 +++++----
 oblate/type_validation.py | 5 ++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index a2158a5..5d1eb3c 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,8 +43,8 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
 
+import oblate
 import copy
 
 if TYPE_CHECKING:
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index 60dc016..53b5bfe 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -39,8 +39,9 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import SchemaConfig
 
+import oblate
 import collections.abc
 import inspect
 import copy
@@ -246,7 +247,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -483,7 +484,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
@@ -554,6 +555,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_context.reset(context_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         return out
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..ca5fd75 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -37,6 +37,7 @@ from typing import (
 from typing_extensions import Required, NotRequired, is_typeddict, get_type_hints
 from oblate.exceptions import OblateException
 
+import oblate
 import types
 import warnings
 import sys
@@ -155,9 +156,7 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
-
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        if tp in cls._warnings_issued or not oblate.config.warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(tp)
-- 
2.43.0


From 53be0cb12eb2e985c49c881f9f50b15f1b40ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 14/15] fix: determine the load keys of a schema by its final
 set of fields

---
 oblate/schema.py | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 53b5bfe..2cf2cef 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -139,26 +139,19 @@ class Schema(metaclass=_SchemaMeta):
         # circular import
         from oblate.fields.base import Field
 
-        if hasattr(cls, '__fields__'):
-            # When a schema is subclassed, the fields have to be copied so
-            # the parent schema's fields are not modified
-            cls.__fields__ = cls.__fields__.copy()
-            cls.__load_fields__ = cls.__load_fields__.copy()
-
-            # The above only has the fields of first parent in the MRO
-            for base in reversed(cls.__mro__[1:]):
-                for name, field in getattr(base, '__fields__', {}).items():
-                    if field._schema is base:
-                        cls._register_field(name, field)
-        else:
-            cls.__fields__ = {}
-            cls.__load_fields__ = {}
+        # The fields are collected again for every schema so the parent schemas'
+        # fields are not modified
+        cls.__fields__ = {}
+        for base in reversed(cls.__mro__[1:]):
+            for name, field in vars(base).get('__fields__', {}).items():
+                if field._schema is base:
+                    cls.__fields__[name] = field
 
         members = vars(cls).copy()
         for name, member in list(members.items()):
             if isinstance(member, Field):
                 member._bind(name, cls)
-                cls._register_field(name, member)
+                cls.__fields__[name] = member
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
@@ -175,24 +168,18 @@ class Schema(metaclass=_SchemaMeta):
 
                 field.add_validator(member)
 
+        # Only the final set of fields determines the load keys: the key of an
+        # overridden field may be in use by another field
+        cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
+
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
-    @classmethod
-    def _register_field(cls, name: str, field: Field[Any, Any]) -> None:
-        overridden = cls.__fields__.get(name)
-        if overridden is not None and cls.__load_fields__.get(overridden.load_key) is overridden:
-            # the overriding field does not necessarily have the same load key
-            del cls.__load_fields__[overridden.load_key]
-
-        cls.__fields__[name] = field
-        cls.__load_fields__[field.load_key] = field
-
     @classmethod
     def _copy_inherited_field(cls, name: str) -> Field[Any, Any]:
         field = cls.__fields__[name].copy()
         field._bind(name, cls)
-        cls._register_field(name, field)
+        cls.__fields__[name] = field
         setattr(cls, name, field)
         return field
 
-- 
2.43.0


From 627308690f6ea7cfc9b20cd7fff90e84ba389895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 15/15] fix: allow values to be assigned while a schema is
 being represented

repr() iterated the values of the instance themselves, so that it raised
RuntimeError when a field without a value was assigned meanwhile, by another
thread or by the repr of a value.
---
 oblate/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 2cf2cef..700362d 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -56,7 +56,7 @@ __all__ = (
 T = TypeVar('T')
 
 def _schema_repr(self: Schema) -> str:
-    attrs = ', '.join((f'{name}={value}' for name, value in self._field_values.items()))  # pragma: no cover
+    attrs = ', '.join((f'{name}={value}' for name, value in self._field_values.copy().items()))  # pragma: no cover
     return f'{self.__class__.__name__}({attrs})'  # pragma: no cover
 
 
-- 
2.43.0

