From def7e4341e436f514badd881c96b96ff16af9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/59] fix: serialize recursive classes that refer to
 themselves via a container

Looking up the serializers of fields eagerly in the constructor recursed
infinitely for a class with a field such as list["Node"].
---
 strong_typing/serializer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..9bfb187 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -287,16 +287,23 @@ class FieldSerializer(Generic[T]):
 
 
 class TypedClassSerializer(Serializer[T]):
-    property_generators: list[FieldSerializer]
+    class_type: type[T]
+    context: Optional[ModuleType]
 
     def __init__(self, class_type: type[T], context: Optional[ModuleType]) -> None:
-        self.property_generators = [
+        self.class_type = class_type
+        self.context = context
+
+    @functools.cached_property
+    def property_generators(self) -> list[FieldSerializer]:
+        # look up field serializers on first use to avoid infinite recursion for types that contain themselves
+        return [
             FieldSerializer(
                 field_name,
                 python_field_to_json_property(field_name, field_type),
-                _get_serializer(field_type, context),
+                _get_serializer(field_type, self.context),
             )
-            for field_name, field_type in get_class_properties(class_type)
+            for field_name, field_type in get_class_properties(self.class_type)
         ]
 
     def generate(self, obj: T) -> dict[str, JsonType]:
-- 
2.43.0


From eb9f5018b8d4197c1bb050d1a3ec6f6787275440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:02 +0000
Subject: [PATCH 02/59] fix: keep module context for forward references inside
 Annotated on serialization

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 9bfb187..c57bad4 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -497,7 +497,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From a2d2de883a520b94b680f744597e52054359f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:29 +0000
Subject: [PATCH 03/59] fix: make cached de-serializers independent of earlier
 calls and safe to share

The cache was keyed by module and class name only, hence options of the first
call leaked into later calls, and distinct types of the same name got mixed up.
A de-serializer was also published before it had been built, which other
threads (or later calls, if building failed) would then use in an incomplete
state.
---
 strong_typing/deserializer.py | 64 +++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..fb1b4fa 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -15,6 +15,7 @@ import inspect
 import ipaddress
 import re
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -825,54 +826,73 @@ def create_deserializer(
 
     if options is None:
         options = DeserializerOptions()
+    else:
+        # de-serializers are shared, protect them from the caller updating the options later
+        options = dataclasses.replace(options)
 
     return _get_deserializer(typ, context, options)
 
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+# de-serializer engines that have been fully built, along with all engines they depend on
+_CACHE: dict[tuple[type, bool], Deserializer] = {}
+
+# de-serializer engines being built (by a single thread at a time), needed to resolve types that refer to themselves
+_PENDING: dict[Any, Deserializer] = {}
+_LOCK = threading.RLock()
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    key: Any = None
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
 
-        if isinstance(typ, str):
-            if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
-        elif isinstance(typ, typing.ForwardRef):
-            if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
+        forward_name = typ if isinstance(typ, str) else typ.__forward_arg__
+        if hasattr(context, forward_name):
+            key = (context, forward_name, options.skip_unassigned)
 
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        key = (typ, options.skip_unassigned)
+        if key in _CACHE:
+            return _CACHE[key]
+
+        # use type's own module as context for evaluating member types
+        context = sys.modules[typ.__module__]
 
-    if cache_key is not None:
-        deserializer = _CACHE.get(cache_key)
-        if deserializer is None:
-            deserializer = _create_deserializer(typ, options)
+    if key is None:
+        # special forms are not always hashable, create a new de-serializer every time
+        deserializer = _create_deserializer(typ, options)
+        deserializer.build(context)
+        return deserializer
 
-            # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
+    with _LOCK:
+        if key in _CACHE:
+            return _CACHE[key]
+        if key in _PENDING:
+            return _PENDING[key]
 
-            if isinstance(typ, type):
-                # use type's own module as context for evaluating member types
-                context = sys.modules[typ.__module__]
+        outermost = not _PENDING
+        deserializer = _create_deserializer(typ, options)
 
+        # register de-serializer immediately to avoid stack overflow for recursive types
+        _PENDING[key] = deserializer
+        try:
             # create any de-serializers this de-serializer is depending on
             deserializer.build(context)
-    else:
-        # special forms are not always hashable, create a new de-serializer every time
-        deserializer = _create_deserializer(typ, options)
-        deserializer.build(context)
+
+            # other callers may see de-serializers only when there are no incomplete dependencies
+            if outermost:
+                _CACHE.update((k, v) for k, v in _PENDING.items() if isinstance(k[0], type))
+        finally:
+            if outermost:
+                _PENDING.clear()
 
     return deserializer
 
-- 
2.43.0


From 2b17a1e34cd28b95ca543c23be07175413f73db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:16 +0000
Subject: [PATCH 04/59] fix: do not accept JSON booleans in place of numbers on
 deserialization

In Python, bool is a subclass of int, and True == 1 == 1.0. As a result, boolean
values were read as numbers or members of an enumeration with integer values,
and the number 1 was read as a member with value True.
---
 strong_typing/deserializer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index fb1b4fa..9b3756d 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -118,7 +118,7 @@ class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
     def parse(self, data: JsonType) -> int:
-        if not isinstance(data, int):
+        if not isinstance(data, int) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects integer data as JSON `number` but instead received: {data}")
         return int(data)
 
@@ -127,7 +127,7 @@ class FloatDeserializer(Deserializer[float]):
     "Parses JSON `number` values into Python `float` type."
 
     def parse(self, data: JsonType) -> float:
-        if not isinstance(data, float) and not isinstance(data, int):
+        if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
         return float(data)
 
@@ -546,7 +546,16 @@ class EnumDeserializer(Deserializer[E]):
         self.enum_type = enum_type
 
     def parse(self, data: JsonType) -> E:
-        return self.enum_type(data)
+        member = self.enum_type(data)
+
+        # lookup is based on Python equality, according to which `True == 1 == 1.0`
+        if member.value == data and (
+            isinstance(member.value, bool) is not isinstance(data, bool)
+            or (isinstance(member.value, int) and isinstance(data, float))
+        ):
+            raise JsonTypeError(f"`{self.enum_type.__name__}` type expects `{member.value!r}` but received: {data}")
+
+        return member
 
 
 class CustomDeserializer(Deserializer[T]):
-- 
2.43.0


From 1211665866146f118e99a7464776d54d3718a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:23 +0000
Subject: [PATCH 05/59] fix: try all member types of a union on deserialization

Members that reject data with a value error (e.g. a string that is not a UUID)
prevented subsequent members from being considered.
---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 9b3756d..a7028dc 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -417,10 +417,12 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (JsonKeyError, JsonTypeError, JsonValueError, ValueError):
                 # indicates a required field is missing from JSON dict
                 # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
+                # -OR-
+                # the data has the expected type but an invalid value (e.g. a string that is not a UUID)
                 continue
 
         type_names = ", ".join(python_type_to_str(member_type) for member_type in self.member_types)
-- 
2.43.0


From 401c59876f62cb79974be48649285f88ff518db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:29 +0000
Subject: [PATCH 06/59] fix: report numbers and durations out of range as a
 value error

An integer too large for a float, or a duration too large for a timedelta
raised OverflowError, and a duration string was allowed to end in a newline.
---
 strong_typing/deserializer.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a7028dc..4b6a541 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -129,7 +129,10 @@ class FloatDeserializer(Deserializer[float]):
     def parse(self, data: JsonType) -> float:
         if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
-        return float(data)
+        try:
+            return float(data)
+        except OverflowError as ex:
+            raise JsonValueError(f"`float` type cannot represent number: {data}") from ex
 
 
 class StringDeserializer(Deserializer[str]):
@@ -206,7 +209,7 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
             r"(?:(?P<seconds>\d+)(?:\.(?P<fractional>\d{1,9}))?S)?"  # optional seconds (integer and fractional part)
-            r")?$",  # end of time part
+            r")?\Z",  # end of time part
             flags=re.ASCII,
         )
 
@@ -232,11 +235,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
-        return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
-        )
+        try:
+            return datetime.timedelta(
+                days=7 * weeks + days,
+                seconds=3600 * hours + 60 * minutes + seconds,
+                microseconds=nanoseconds // 1000,
+            )
+        except OverflowError as ex:
+            raise JsonValueError(f"`timedelta` type cannot represent duration: {data}") from ex
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
-- 
2.43.0


From 1dd427a6e4a01284ade74d5da34303a3f4436a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 07/59] fix: read back negative durations

A negative timedelta is written with a negative day component, e.g. P-1DT3S.
---
 strong_typing/deserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 4b6a541..6ce39f4 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -204,7 +204,7 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         pattern = re.compile(
             r"^P"  # starts with 'P'
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
-            r"(?:(?P<days>\d+)D)?"  # optional days
+            r"(?:(?P<days>-?\d+)D)?"  # optional days
             r"(?:T"  # start of time part
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
-- 
2.43.0


From 284d10e471547de1c538c8655e503c3ec3fb0bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 08/59] fix: apply name mapping, optional fields and defaults
 to named tuples on deserialization

Named tuples are written with mapped names and without fields whose value is
None, but they were read by Python field name and all fields were required.
---
 strong_typing/deserializer.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 6ce39f4..afb9753 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -716,14 +716,31 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                field_name,
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        field_defaults: dict[str, Any] = getattr(self.class_type, "_field_defaults")
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            is_optional = is_type_optional(field_type)
+
+            if is_optional:
+                required_type: type = unwrap_optional_type(field_type)
+            else:
+                required_type = field_type
+
+            parser = self.get_deserializer(required_type, context)
+
+            if field_name in field_defaults:
+                field_parser: FieldDeserializer = DefaultFieldDeserializer(
+                    property_name, field_name, parser, field_defaults[field_name]
+                )
+            elif is_optional:
+                field_parser = OptionalFieldDeserializer(property_name, field_name, parser)
+            else:
+                field_parser = RequiredFieldDeserializer(property_name, field_name, parser)
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From 6aaafee5f0a6ac7f962f14937cfd3b40018fdafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:39 +0000
Subject: [PATCH 09/59] fix: allow a field with the name self on
 deserialization

---
 strong_typing/deserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index afb9753..64f8ab9 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -701,7 +701,7 @@ class ClassDeserializer(RecursiveDeserializer[T]):
 
         return self.create(**field_values)
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         obj: T = create_object(self.class_type)
@@ -743,7 +743,7 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
 
         super().assign(property_parsers)
 
-    def create(self, **field_values: Any) -> NamedTuple:
+    def create(self, /, **field_values: Any) -> NamedTuple:
         return typing.cast(NamedTuple, self.class_type(**field_values))
 
 
@@ -793,7 +793,7 @@ class DataclassDeserializer(ClassDeserializer[T]):
 class FrozenDataclassDeserializer(DataclassDeserializer[T]):
     "De-serializes a frozen data class from a JSON `object`."
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         # create object instance without calling `__init__`
-- 
2.43.0


From 063cdef1077e39b81e1991f9c8485eb94270df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:46 +0000
Subject: [PATCH 10/59] fix: de-serialize frozen data classes with fields that
 are not in __init__

---
 strong_typing/deserializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 64f8ab9..ab5fcb5 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -800,7 +800,13 @@ class FrozenDataclassDeserializer(DataclassDeserializer[T]):
         obj: T = create_object(self.class_type)
 
         # can't use `setattr` on frozen dataclasses, pass member variable values to `__init__`
+        extra_names = [field.name for field in dataclasses.fields(self.class_type) if not field.init]
+        extra_values = {name: field_values.pop(name) for name in extra_names}
         obj.__init__(**field_values)  # type: ignore
+
+        # assign member variables that are not parameters to `__init__`
+        for field_name, field_value in extra_values.items():
+            object.__setattr__(obj, field_name, field_value)
         return obj
 
 
-- 
2.43.0


From f86c2acf9b14d4164d8358bc799f2df708e7d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 11/59] fix: look up tags of a discriminated union by JSON
 property name and value

Tag properties with an alias or a keyword suffix, and tags that are enumeration
members never matched. An array or object as the tag raised an internal error.
---
 strong_typing/deserializer.py | 37 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index ab5fcb5..0f61b17 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -31,7 +31,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -45,6 +44,7 @@ from .inspection import (
 )
 from .mapping import python_field_to_json_property
 from .name import python_type_to_str
+from .serializer import object_to_json
 
 E = TypeVar("E", bound=enum.Enum)
 T = TypeVar("T")
@@ -435,23 +435,25 @@ class UnionDeserializer(RecursiveDeserializer):
         raise JsonKeyError(f"type `Union[{type_names}]` could not be instantiated from: {data}")
 
 
-def get_literal_properties(typ: type) -> set[str]:
-    "Returns the names of all properties in a class that are of a literal type."
+def get_literal_properties(typ: type) -> dict[str, TypeLike]:
+    "Returns all properties in a class that are of a literal type, identified by their JSON property name."
 
-    return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
-    )
+    return {
+        python_field_to_json_property(property_name, property_type): property_type
+        for property_name, property_type in get_class_properties(typ)
+        if is_type_literal(property_type)
+    }
 
 
 def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
-    "Returns a set of properties with literal type that are common across all specified classes."
+    "Returns a set of JSON properties with literal type that are common across all specified classes."
 
     if not types or not all(isinstance(typ, type) for typ in types):
         return set()
 
-    props = get_literal_properties(types[0])
+    props = set(get_literal_properties(types[0]))
     for typ in types[1:]:
-        props = props & get_literal_properties(typ)
+        props = props & set(get_literal_properties(typ))
 
     return props
 
@@ -461,7 +463,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
 
     member_types: tuple[type, ...]
     disambiguating_properties: set[str]
-    member_parsers: dict[tuple[str, Any], Deserializer]
+    member_parsers: dict[tuple[str, JsonType], Deserializer]
 
     def __init__(self, member_types: tuple[type, ...], options: DeserializerOptions) -> None:
         super().__init__(options)
@@ -471,13 +473,10 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
     def build(self, context: Optional[ModuleType]) -> None:
         self.member_parsers = {}
         for member_type in self.member_types:
+            literal_properties = get_literal_properties(member_type)
             for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
-                if not literal_type:
-                    continue
-
-                for literal_value in unwrap_literal_values(literal_type):
-                    tpl = (property_name, literal_value)
+                for literal_value in unwrap_literal_values(literal_properties[property_name]):
+                    tpl = (property_name, object_to_json(literal_value))
                     if tpl in self.member_parsers:
                         raise JsonTypeError(
                             f"disambiguating property `{property_name}` in type `{self.union_type}` "
@@ -502,7 +501,9 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             if disambiguating_value is None:
                 continue
 
-            member_parser = self.member_parsers.get((property_name, disambiguating_value))
+            member_parser = None
+            if isinstance(disambiguating_value, (bool, int, float, str)):
+                member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
                     f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
@@ -717,7 +718,7 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
 
     def build(self, context: Optional[ModuleType]) -> None:
         property_parsers: list[FieldDeserializer] = []
-        field_defaults: dict[str, Any] = getattr(self.class_type, "_field_defaults")
+        field_defaults: dict[str, Any] = self.class_type._field_defaults  # type: ignore[attr-defined]
         for field_name, field_type in get_resolved_hints(self.class_type).items():
             property_name = python_field_to_json_property(field_name, field_type)
 
-- 
2.43.0


From a881c0c407b133df1310a60aa3310904b8ab5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 12/59] fix: honor from_json in named tuples and enumerations

Their to_json member function is already honored.
---
 strong_typing/deserializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 0f61b17..772dee7 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -1014,17 +1014,17 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         else:
             raise TypeError(f"unable to de-serialize unrecognized type: {typ}")
 
+    # check if object has custom serialization method
+    convert_func = getattr(typ, "from_json", None)
+    if callable(convert_func):
+        return CustomDeserializer(convert_func)
+
     if issubclass(typ, enum.Enum):
         return EnumDeserializer(typ)
 
     if is_named_tuple_type(typ):
         return NamedTupleDeserializer(typ, options)
 
-    # check if object has custom serialization method
-    convert_func = getattr(typ, "from_json", None)
-    if callable(convert_func):
-        return CustomDeserializer(convert_func)
-
     if is_dataclass_type(typ):
         dataclass_params = getattr(typ, "__dataclass_params__", None)
         if dataclass_params is not None and dataclass_params.frozen:
-- 
2.43.0


From 6c54c48d7cd4139381a6e94cb50caa2b727b93e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 13/59] fix: evaluate annotations written as a string in the
 module of the declaring class

Data class fields with string annotations (e.g. with deferred evaluation of
annotations) lost their alias and tags, and produced an invalid schema. Fields
inherited from a class in another module were evaluated in the wrong module.
---
 strong_typing/inspection.py | 34 ++++++++++++++++++++++++++++++----
 strong_typing/serializer.py |  5 ++---
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..0fd48a7 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -95,6 +95,22 @@ def evaluate_member_type(typ: Any, cls: type) -> Any:
     return evaluate_type(typ, sys.modules[cls.__module__])
 
 
+def get_member_module(cls: type, name: str) -> types.ModuleType:
+    """
+    Returns the module in whose context the type annotation of a class member is to be evaluated.
+
+    :param cls: The class that has the member, possibly by inheriting it from a class defined in another module.
+    :param name: The name of the member.
+    :returns: The module of the class that declares the member.
+    """
+
+    for base in inspect.getmro(cls):
+        if name in base.__dict__.get("__annotations__", {}):
+            return sys.modules[base.__module__]
+
+    return sys.modules[cls.__module__]
+
+
 def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
     """
     Evaluates a forward reference type.
@@ -161,7 +177,7 @@ def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
     for field in dataclasses.fields(cls):
-        yield DataclassField(field.name, evaluate_member_type(field.type, cls), field.default)
+        yield DataclassField(field.name, evaluate_type(field.type, get_member_module(cls, field.name)), field.default)
 
 
 def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> DataclassField:
@@ -169,7 +185,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, cls))
+            return DataclassField(field.name, evaluate_type(field.type, get_member_module(cls, field.name)))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
@@ -555,11 +571,21 @@ def get_resolved_hints(typ: type) -> dict[str, type]:
     return typing.get_type_hints(typ, include_extras=True)
 
 
+def _get_field_type(typ: type, field: dataclasses.Field) -> TypeLike:
+    "Evaluates the type of a data-class field whose annotation is a string."
+
+    try:
+        return evaluate_type(field.type, get_member_module(typ, field.name))
+    except NameError:
+        # leave annotation unevaluated if it uses a name that is not (yet) defined
+        return field.type
+
+
 def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
     "Returns all properties of a class."
 
     if is_dataclass_type(typ):
-        return ((field.name, field.type) for field in dataclasses.fields(typ))
+        return ((field.name, _get_field_type(typ, field)) for field in dataclasses.fields(typ))
     else:
         resolved_hints = get_resolved_hints(typ)
         return resolved_hints.items()
@@ -698,7 +724,7 @@ class TypeCollector:
             context = sys.modules[typ.__module__]
             if is_dataclass_type(typ):
                 for field in dataclass_fields(typ):
-                    self.run(field.type, typ, context)
+                    self.run(field.type, typ, get_member_module(typ, field.name))
             else:
                 for _, field_type in get_resolved_hints(typ).items():
                     self.run(field_type, typ, context)
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index c57bad4..64988b8 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -27,6 +27,7 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
+    get_member_module,
     get_resolved_hints,
     is_dataclass_type,
     is_named_tuple_type,
@@ -288,11 +289,9 @@ class FieldSerializer(Generic[T]):
 
 class TypedClassSerializer(Serializer[T]):
     class_type: type[T]
-    context: Optional[ModuleType]
 
     def __init__(self, class_type: type[T], context: Optional[ModuleType]) -> None:
         self.class_type = class_type
-        self.context = context
 
     @functools.cached_property
     def property_generators(self) -> list[FieldSerializer]:
@@ -301,7 +300,7 @@ class TypedClassSerializer(Serializer[T]):
             FieldSerializer(
                 field_name,
                 python_field_to_json_property(field_name, field_type),
-                _get_serializer(field_type, self.context),
+                _get_serializer(field_type, get_member_module(self.class_type, field_name)),
             )
             for field_name, field_type in get_class_properties(self.class_type)
         ]
-- 
2.43.0


From fb586bd59e58334a965e4c328412a4a24b265e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:54 +0000
Subject: [PATCH 14/59] fix: stop type collection at special forms defined in
 terms of themselves

Collecting types referenced by JsonType recursed infinitely.
---
 strong_typing/inspection.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 0fd48a7..e032bd6 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -630,6 +630,7 @@ class TypeCollector:
     """
 
     graph: dict[type, set[type]]
+    _evaluating: set[tuple[type, types.ModuleType, Union[str, typing.ForwardRef]]]
 
     @property
     def references(self) -> set[type]:
@@ -642,6 +643,7 @@ class TypeCollector:
 
     def __init__(self) -> None:
         self.graph = {_ROOT: set()}
+        self._evaluating = set()
 
     def traverse(self, typ: type) -> None:
         "Finds all dependent types of a type."
@@ -696,8 +698,17 @@ class TypeCollector:
             if module is None:
                 raise ValueError("missing context for evaluating types")
 
+            # stop at a reference to a special form that is defined in terms of itself, e.g. `JsonType`
+            reference = (cls, module, typ)
+            if reference in self._evaluating:
+                return
+
             evaluated_type = evaluate_type(typ, module)
-            return self.run(evaluated_type, cls, module)
+            self._evaluating.add(reference)
+            try:
+                return self.run(evaluated_type, cls, module)
+            finally:
+                self._evaluating.remove(reference)
 
         # type is a special form
         if origin in [list, dict, frozenset, set, tuple, Union]:
-- 
2.43.0


From f94eb8c9d826ca40482cd4ba7d5b9ac894479672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 15/59] fix: resolve the self-references of JsonType
 irrespective of where it is used

Reading a value of JsonType required that the module that uses it imports it by
this very name.
---
 strong_typing/core.py         | 50 +++++++++++++++++++++--------------
 strong_typing/deserializer.py |  5 ++++
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/strong_typing/core.py b/strong_typing/core.py
index 5f93c23..d5cd811 100644
--- a/strong_typing/core.py
+++ b/strong_typing/core.py
@@ -4,6 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
+import typing
 from typing import Union
 
 
@@ -15,26 +16,35 @@ class JsonArray:
     "Placeholder type for an unrestricted JSON array."
 
 
-# a JSON type with possible `null` values
-JsonType = Union[
-    None,
-    bool,
-    int,
-    float,
-    str,
-    dict[str, "JsonType"],
-    list["JsonType"],
-]
-
-# a JSON type that cannot contain `null` values
-StrictJsonType = Union[
-    bool,
-    int,
-    float,
-    str,
-    dict[str, "StrictJsonType"],
-    list["StrictJsonType"],
-]
+if typing.TYPE_CHECKING:
+    # a JSON type with possible `null` values
+    JsonType = Union[
+        None,
+        bool,
+        int,
+        float,
+        str,
+        dict[str, "JsonType"],
+        list["JsonType"],
+    ]
+
+    # a JSON type that cannot contain `null` values
+    StrictJsonType = Union[
+        bool,
+        int,
+        float,
+        str,
+        dict[str, "StrictJsonType"],
+        list["StrictJsonType"],
+    ]
+
+else:
+    # references are always evaluated in this module, irrespective of where the types are used
+    _JsonType = typing.ForwardRef("JsonType", module=__name__)
+    JsonType = Union[None, bool, int, float, str, dict[str, _JsonType], list[_JsonType]]
+
+    _StrictJsonType = typing.ForwardRef("StrictJsonType", module=__name__)
+    StrictJsonType = Union[bool, int, float, str, dict[str, _StrictJsonType], list[_StrictJsonType]]
 
 # a meta-type that captures the object type in a JSON schema
 Schema = dict[str, JsonType]
diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 772dee7..2b5e725 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -892,6 +892,11 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
             raise TypeError(f"missing context for evaluating type: {typ}")
 
         forward_name = typ if isinstance(typ, str) else typ.__forward_arg__
+        forward_module = getattr(typ, "__forward_module__", None)
+        if forward_module is not None:
+            # a forward reference that is tied to the module in which it is declared
+            context = sys.modules[forward_module]
+
         if hasattr(context, forward_name):
             key = (context, forward_name, options.skip_unassigned)
 
-- 
2.43.0


From 1902a72e7490df1c3d9b6a28a4ed0b2eddc88f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 16/59] fix: evaluate forward references in json_to_object in
 the module of its caller

The module of the caller was only looked up in json_to_generic, whose caller is
json_to_object itself.
---
 strong_typing/serialization.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/strong_typing/serialization.py b/strong_typing/serialization.py
index 218781c..3b86221 100644
--- a/strong_typing/serialization.py
+++ b/strong_typing/serialization.py
@@ -38,6 +38,22 @@ def object_to_json(obj: Any) -> JsonType:
     return generator.generate(obj)
 
 
+def _get_caller_module() -> Optional[ModuleType]:
+    "Returns the module of the function that called the function that calls this function."
+
+    this_frame = inspect.currentframe()
+    try:
+        frame = this_frame
+        for _ in range(2):
+            frame = frame.f_back if frame is not None else None
+        if frame is None:
+            return None
+
+        return sys.modules.get(frame.f_globals.get("__name__", ""))
+    finally:
+        del this_frame, frame
+
+
 def json_to_object(
     typ: type[T],
     data: JsonType,
@@ -65,6 +81,10 @@ def json_to_object(
     :raises JsonTypeError: Deserialization for data has failed due to a type mismatch.
     """
 
+    # use caller context for evaluating types if no context is supplied
+    if context is None:
+        context = _get_caller_module()
+
     return typing.cast(T, json_to_generic(typ, data, context=context, options=options))
 
 
@@ -84,16 +104,7 @@ def json_to_generic(
 
     # use caller context for evaluating types if no context is supplied
     if context is None:
-        this_frame = inspect.currentframe()
-        if this_frame is not None:
-            caller_frame = this_frame.f_back
-            del this_frame
-
-            if caller_frame is not None:
-                try:
-                    context = sys.modules[caller_frame.f_globals["__name__"]]
-                finally:
-                    del caller_frame
+        context = _get_caller_module()
 
     parser = create_deserializer(typ, context, options=options)
     return parser.parse(data)
-- 
2.43.0


From 28de0ea14b833cf6eb0d083d56b75c7eb5fbdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 17/59] fix: describe IP addresses as strings in the JSON
 schema

IP addresses are written as a string but had the schema of an empty object.
---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..acba5c6 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -260,6 +261,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From afe1b3e1d72920892cfc63ffc7ac5e970e1762df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 18/59] fix: use the same property names in the JSON schema as
 in (de-)serialization

The underscore appended to avoid a clash with a keyword was not removed.
---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index acba5c6..5bf0a2a 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -20,12 +20,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -34,6 +33,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -439,12 +439,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # rename property if it has a keyword suffix or if an alias name is specified
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From 85811043a672d90ac4fc8beaad48c9bd72fd0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:25 +0000
Subject: [PATCH 19/59] fix: produce a JSON schema for optional types that are
 not a property type

Types such as list[Optional[int]] raised an AttributeError.
---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 5bf0a2a..717e1c5 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -375,7 +375,7 @@ class JsonSchemaGenerator:
                     enum_schema.update(docstring_to_schema(typ))
                 return enum_schema
 
-        if is_type_union(typ):
+        if is_type_union(typ) or is_type_optional(typ):
             return {"oneOf": [self.type_to_schema(union_type) for union_type in unwrap_union_types(typ)]}
 
         origin_type = typing.get_origin(typ)
-- 
2.43.0


From e1049e9475d50aa8c6edba7a9403c3f2d732495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 20/59] fix: produce a JSON schema for literal types of several
 values and of enumeration members

---
 strong_typing/schema.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 717e1c5..68a8eb3 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -423,9 +423,16 @@ class JsonSchemaGenerator:
                 "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
         elif origin_type is Literal:
-            (literal_value,) = typing.get_args(typ)  # unpack value of literal type
-            schema = self.type_to_schema(type(literal_value))
-            schema["const"] = literal_value
+            literal_types = {type(literal_value) for literal_value in typing.get_args(typ)}
+            if len(literal_types) != 1:
+                raise TypeError(f"literal type expects consistent literal value types but got: {typ}")
+
+            literal_values = [object_to_json(literal_value) for literal_value in typing.get_args(typ)]
+            schema = self.type_to_schema(type(literal_values[0]))
+            if len(literal_values) == 1:
+                schema["const"] = literal_values[0]
+            else:
+                schema["enum"] = literal_values
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From 1d3cef98009727cd3e5f213fd5a0c268e99062aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 21/59] fix: escape enumeration values in the JSON schema
 pattern for property names

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 68a8eb3..4e3c2ac 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -12,6 +12,7 @@ import functools
 import inspect
 import ipaddress
 import json
+import re
 import typing
 import uuid
 from copy import deepcopy
@@ -393,7 +394,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"pattern": "^(" + "|".join(re.escape(v) for v in enum_values) + ")$"},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From cd8eb1f98183d606c1b0f51db9e8240a86b09cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 22/59] fix: check string formats as per the JSON schema
 standard in use

The general format checker includes the definition of time in Draft 3, which
does not permit a time zone or fractional seconds.
---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 4e3c2ac..52cb49d 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -612,7 +612,7 @@ def validate_object(data_type: TypeLike, json_dict: JsonType) -> None:
     """
 
     schema_dict = classdef_to_schema(data_type)
-    jsonschema.validate(json_dict, schema_dict, format_checker=jsonschema.FormatChecker())
+    jsonschema.validate(json_dict, schema_dict, format_checker=Validator.Latest.value.FORMAT_CHECKER)
 
 
 def print_schema(data_type: type) -> None:
-- 
2.43.0


From b0ab5a1778dad32eed6ae1ab71fb48c0833b825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 23/59] fix: do not share registered examples with generated
 JSON schemas

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 52cb49d..5bb4063 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -516,7 +516,7 @@ class JsonSchemaGenerator:
 
         # add example (if present)
         if self.options.use_examples and entry.examples:
-            type_schema["examples"] = entry.examples
+            type_schema["examples"] = deepcopy(entry.examples)
 
         return type_schema
 
-- 
2.43.0


From c140d7ec23dccebcfe7d602f70c1d4ee32861ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:50 +0000
Subject: [PATCH 24/59] fix: reflect the annotation for exact string length in
 the JSON schema

---
 strong_typing/schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 5bb4063..e867ac2 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -21,7 +21,7 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, Length, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
@@ -212,6 +212,10 @@ class JsonSchemaGenerator:
             "exclusiveMaximum": (10**arg.integer_digits),
         }
 
+    @_metadata_to_schema.register
+    def _(self, arg: Length) -> Schema:
+        return {"minLength": arg.value, "maxLength": arg.value}
+
     @_metadata_to_schema.register
     def _(self, arg: MinLength) -> Schema:
         return {"minLength": arg.value}
-- 
2.43.0


From 41bc804f0b65ee3b43529f989e8316357dc89c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 25/59] fix: refer to the definition of a registered type that
 has annotations

A property of type Annotated[T, ...] got a schema derived from the class T, and
not the schema that T is registered with.
---
 strong_typing/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index e867ac2..cb8c179 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -330,6 +330,10 @@ class JsonSchemaGenerator:
                 else:
                     return self._with_metadata(schema, metadata)
 
+            if not force_expand and typ in type_catalog:
+                # user-defined type with annotations (e.g. an alias name for a property)
+                return self.type_to_schema(typ)
+
         else:
             # type is a regular type
             typ = data_type
-- 
2.43.0


From ced7d524ad8af33ec063352189880b3fb9a3d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:27 +0000
Subject: [PATCH 26/59] fix: resolve forward references when generating a JSON
 schema

References to types that are not registered were either left dangling, raised a
KeyError, or recursed infinitely. References were matched by name with types
that any other module had registered (or with classes of this package).
---
 strong_typing/schema.py | 44 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index cb8c179..428f67f 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -13,6 +13,7 @@ import inspect
 import ipaddress
 import json
 import re
+import types
 import typing
 import uuid
 from copy import deepcopy
@@ -26,7 +27,9 @@ from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
+    evaluate_type,
     get_class_properties,
+    get_member_module,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -186,6 +189,8 @@ class JsonSchemaGenerator:
 
     type_catalog: ClassVar[TypeCatalog] = TypeCatalog()
     types_used: dict[str, TypeLike]
+    types_expanding: list[TypeLike]
+    module: Optional[types.ModuleType]
     options: SchemaOptions
 
     def __init__(self, options: Optional[SchemaOptions] = None):
@@ -194,6 +199,8 @@ class JsonSchemaGenerator:
         else:
             self.options = options
         self.types_used = {}
+        self.types_expanding = []
+        self.module = None
 
     @functools.singledispatchmethod
     def _metadata_to_schema(self, arg: object) -> Schema:
@@ -306,6 +313,13 @@ class JsonSchemaGenerator:
         if schema is not None:
             return schema
 
+        # forward references to types defined in the module of the class whose properties are being processed
+        if isinstance(data_type, (typing.ForwardRef, str)) and self.module is not None:
+            try:
+                return self.type_to_schema(evaluate_type(data_type, self.module), force_expand)
+            except NameError:
+                pass
+
         # types registered in the type catalog of well-known types
         type_catalog = JsonSchemaGenerator.type_catalog
         if not force_expand and data_type in type_catalog:
@@ -447,6 +461,28 @@ class JsonSchemaGenerator:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
             return {"const": self.type_to_schema(concrete_type, force_expand=True)}
 
+        # use a reference for a type that (indirectly) contains itself
+        if typ in self.types_expanding:
+            identifier = python_type_to_name(typ)
+            self.types_used.setdefault(identifier, typ)
+            return {"$ref": f"{self.options.definitions_path}{identifier}"}
+
+        self.types_expanding.append(typ)
+        enclosing_module = self.module
+        try:
+            return self._class_to_schema(typ)
+        finally:
+            self.module = enclosing_module
+            self.types_expanding.pop()
+
+    def _class_to_schema(self, typ: type) -> Schema:
+        """
+        Returns the JSON schema associated with a class that has properties.
+
+        :param typ: The Python type whose JSON schema to return.
+        :returns: The JSON schema associated with the type.
+        """
+
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
@@ -455,6 +491,9 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
+            # evaluate forward references in the module in which the property is declared
+            self.module = get_member_module(typ, property_name)
+
             # rename property if it has a keyword suffix or if an alias name is specified
             output_name = python_field_to_json_property(property_name, property_type)
 
@@ -493,7 +532,7 @@ class JsonSchemaGenerator:
 
             properties[output_name] = property_def
 
-        schema = {"type": "object"}
+        schema: Schema = {"type": "object"}
         if len(properties) > 0:
             schema["properties"] = typing.cast(JsonType, properties)
             schema["additionalProperties"] = False
@@ -511,6 +550,9 @@ class JsonSchemaGenerator:
         :returns: The JSON schema associated with the type.
         """
 
+        if data_type not in JsonSchemaGenerator.type_catalog:
+            return self.type_to_schema(data_type, force_expand=True)
+
         entry = JsonSchemaGenerator.type_catalog.get(data_type)
         if entry.schema is None:
             type_schema = self.type_to_schema(data_type, force_expand=True)
-- 
2.43.0


From c050611db34d007cd039e72ce1861dd12a857ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 27/59] fix: include defaults of slotted data classes and named
 tuples in the JSON schema

---
 strong_typing/schema.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 428f67f..64b189a 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -30,6 +30,8 @@ from .inspection import (
     evaluate_type,
     get_class_properties,
     get_member_module,
+    is_dataclass_type,
+    is_named_tuple_type,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -486,6 +488,12 @@ class JsonSchemaGenerator:
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
+        # default values that are not stored in a class attribute (e.g. data classes with slots and named tuples)
+        if is_dataclass_type(typ):
+            members.update((f.name, f.default) for f in dataclasses.fields(typ))
+        elif is_named_tuple_type(typ):
+            members.update(typ._field_defaults)
+
         property_docstrings = get_class_property_docstrings(typ, self.options.property_description_fun)
 
         properties: dict[str, Schema] = {}
-- 
2.43.0


From 24b06abd13cc632f4798cf1921c9140de32e2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:09 +0000
Subject: [PATCH 28/59] fix: sort types along with all dependencies, and only
 those

---
 strong_typing/inspection.py  |  6 ++++++
 strong_typing/topological.py | 24 ++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index e032bd6..b7a50f8 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -641,6 +641,12 @@ class TypeCollector:
             dependencies.update(edges)
         return dependencies
 
+    @property
+    def dependency_graph(self) -> dict[type, set[type]]:
+        "The type dependency graph without the internal type that designates the root of the collection."
+
+        return {typ: references for typ, references in self.graph.items() if typ is not _ROOT}
+
     def __init__(self) -> None:
         self.graph = {_ROOT: set()}
         self._evaluating = set()
diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..fb8e054 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -65,20 +65,24 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
     collector = TypeCollector()
     collector.traverse_all(types)
-    graph = collector.graph
 
     if dependency_fn:
-        new_types: set[type] = set()
-        for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
-            references.update(dependent_types)
-            new_types.update(dependent_types)
-        for new_type in new_types:
-            graph[new_type] = set()
-
-    return topological_sort(graph)
+        # dependencies may have references and dependencies of their own
+        queue = list(collector.dependency_graph)
+        visited = set(queue)
+        while queue:
+            source_type = queue.pop(0)
+            dependent_types = list(dependency_fn(source_type))
+            collector.traverse_all(dependent_types)
+            collector.graph[source_type].update(dependent_types)
+            new_types = [typ for typ in collector.dependency_graph if typ not in visited]
+            queue.extend(new_types)
+            visited.update(new_types)
+
+    return topological_sort(collector.dependency_graph)
-- 
2.43.0


From 364a51c760dd3abf76e218b5e2d659aa50686eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:34 +0000
Subject: [PATCH 29/59] fix: check tuple length and new-style unions in generic
 instance check

---
 strong_typing/inspection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index b7a50f8..53e98f2 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -905,14 +905,14 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
     elif origin_type is tuple:
         if not isinstance(obj, tuple):
             return False
-        return all(
-            is_generic_instance(item, tuple_item_type)
-            for tuple_item_type, item in zip(
-                (tuple_item_type for tuple_item_type in typing.get_args(typ)),
-                (item for item in obj),
-            )
-        )
-    elif origin_type is Union:
+        tuple_item_types = typing.get_args(typ)
+        if len(tuple_item_types) == 2 and tuple_item_types[1] is Ellipsis:
+            # tuple of arbitrary length, i.e. `tuple[T, ...]`
+            return all(is_generic_instance(item, tuple_item_types[0]) for item in obj)
+        if len(tuple_item_types) != len(obj):
+            return False
+        return all(is_generic_instance(item, tuple_item_type) for tuple_item_type, item in zip(tuple_item_types, obj))
+    elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
     elif isinstance(typ, type):
         return isinstance(obj, typ)
-- 
2.43.0


From 65591d0325f3bbbe71589d55447a0641cb1587b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 30/59] fix: apply recursive check to annotated, literal,
 new-style union and IP address members

---
 strong_typing/inspection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 53e98f2..5dd8542 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -8,11 +8,13 @@ Type-safe data interchange for Python data classes.
 
 import dataclasses
 import datetime
+import decimal
 import enum
 import importlib
 import importlib.machinery
 import importlib.util
 import inspect
+import ipaddress
 import re
 import sys
 import types
@@ -947,6 +949,8 @@ class RecursiveChecker:
         :returns: True if all member properties pass the filter predicate.
         """
 
+        typ = unwrap_annotated_type(typ)
+
         # check for well-known types
         if (
             typ is type(None)
@@ -959,7 +963,10 @@ class RecursiveChecker:
             or typ is datetime.date
             or typ is datetime.time
             or typ is datetime.timedelta
+            or typ is decimal.Decimal
             or typ is uuid.UUID
+            or typ is ipaddress.IPv4Address
+            or typ is ipaddress.IPv6Address
         ):
             return self.pred(typing.cast(type, typ), obj)
 
@@ -993,7 +1000,7 @@ class RecursiveChecker:
                     (item for item in obj),
                 )
             )
-        elif origin_type is Union:
+        elif _is_union_like(typ) or origin_type is Literal:
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From 2f096014511b69b5098744ad85cdaaf305a4056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 31/59] fix: skip docstring lines that start with a colon but
 are not declarations

---
 strong_typing/docstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 8871b93..d2f981f 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -278,7 +278,11 @@ def parse_text(text: str) -> Docstring:
         if not chunk:
             continue
 
-        args_chunk, desc_chunk = chunk.lstrip(":").split(":", 1)
+        args_chunk, separator, desc_chunk = chunk.lstrip(":").partition(":")
+        if not separator:
+            # not a metadata declaration, line starts with a colon but there is no closing colon
+            continue
+
         args = args_chunk.split()
         desc = re.sub(r"\s+", " ", desc_chunk.strip())
 
-- 
2.43.0


From 11034ad15e862cf54883e5a1beb7ce70e629a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:31 +0000
Subject: [PATCH 32/59] fix: recognize annotated named tuples and extract
 members of annotated unions

---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 5dd8542..916c393 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -206,11 +206,11 @@ def is_named_tuple_type(typ: Any) -> TypeGuard[type[NamedTuple]]:
     with a member named `_fields` that is a tuple whose items are all strings.
     """
 
+    typ = unwrap_annotated_type(typ)
+
     if not isinstance(typ, type):
         return False
 
-    typ = unwrap_annotated_type(typ)
-
     b = getattr(typ, "__bases__", None)
     if b is None:
         return False
@@ -360,7 +360,7 @@ def unwrap_union_types(typ: object) -> tuple[object, ...]:
     :returns: The inner types `T1`, `T2`, etc.
     """
 
-    return _unwrap_union_types(typ)
+    return _unwrap_union_types(unwrap_annotated_type(typ))
 
 
 def _unwrap_union_types(typ: object) -> tuple[object, ...]:
-- 
2.43.0


From f6b0a4c7f1c833e4911e1d0035156912997bbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 33/59] fix: keep all values of a string enumeration when
 generating a class from a schema

---
 strong_typing/classdef.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..2d1257c 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -142,11 +142,27 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    is_reserved = name == "" or name == "mro"
+    if is_dunder or is_sunder or is_reserved:  # provide an alternative for dunder, sunder and reserved names
         name = f"v{name}"
     return name
 
 
+def enum_safe_names(values: list[str]) -> dict[str, str]:
+    "Assigns a unique member name to each enumeration value."
+
+    names: dict[str, str] = {}
+    for value in values:
+        safe_name = enum_safe_name(value)
+        name = safe_name
+        index = 1
+        while name in names:
+            index += 1
+            name = f"{safe_name}_{index}"
+        names[name] = value
+    return names
+
+
 def enum_values_to_type(
     module: types.ModuleType,
     name: str,
@@ -297,7 +313,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_safe_names(node.enum),
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From 33d7cc6886722dff517d8393bffc541d3b2b7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:06 +0000
Subject: [PATCH 34/59] fix: do not assign a module to standard library types
 used as schema definitions

---
 strong_typing/classdef.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 2d1257c..e7cf6e7 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -196,7 +196,6 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-            type_def.type.__module__ = module.__name__
             setattr(module, type_name, type_def.type)
 
     return node_to_typedef(module, class_name, top_node).type
-- 
2.43.0


From 543a8acab6fdf6197edb122b7f4e8ca6ad3734f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:20 +0000
Subject: [PATCH 35/59] fix: allow schema definitions to refer to one another
 in any order

---
 strong_typing/classdef.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e7cf6e7..0f235e4 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -191,6 +191,10 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
 
     top_node = json_to_object(JsonSchemaTopLevelObject, schema)
     if top_node.definitions is not None:
+        # definitions may refer to themselves or to definitions that come later
+        for type_name in top_node.definitions:
+            setattr(module, type_name, typing.ForwardRef(type_name, module=module.__name__))
+
         for type_name, type_node in top_node.definitions.items():
             type_def = node_to_typedef(module, type_name, type_node)
             if type_def.default is not dataclasses.MISSING:
-- 
2.43.0


From b05158b5bc6eb73a3c0d3917000e4737b3124a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:59 +0000
Subject: [PATCH 36/59] fix: read and write decimal numbers

---
 strong_typing/deserializer.py | 14 ++++++++++++++
 strong_typing/serializer.py   | 12 ++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 2b5e725..9b245ae 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -10,6 +10,7 @@ import abc
 import base64
 import dataclasses
 import datetime
+import decimal
 import enum
 import inspect
 import ipaddress
@@ -245,6 +246,17 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonValueError(f"`timedelta` type cannot represent duration: {data}") from ex
 
 
+class DecimalDeserializer(Deserializer[decimal.Decimal]):
+    "Parses JSON `number` values into Python `decimal.Decimal` type."
+
+    def parse(self, data: JsonType) -> decimal.Decimal:
+        if not isinstance(data, (float, int)) or isinstance(data, bool):
+            raise JsonTypeError(f"`Decimal` type expects data as JSON `number` but instead received: {data}")
+
+        # use the shortest decimal representation for floating-point numbers
+        return decimal.Decimal(data if isinstance(data, int) else repr(float(data)))
+
+
 class UUIDDeserializer(Deserializer[uuid.UUID]):
     "Parses JSON `string` values of UUID strings into Python `uuid.UUID` type."
 
@@ -967,6 +979,8 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         return TimeDeserializer()
     elif typ is datetime.timedelta:
         return TimeDeltaDeserializer()
+    elif typ is decimal.Decimal:
+        return DecimalDeserializer()
     elif typ is uuid.UUID:
         return UUIDDeserializer()
     elif typ is ipaddress.IPv4Address:
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 64988b8..b2cdae0 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -9,6 +9,7 @@ Type-safe data interchange for Python data classes.
 import abc
 import base64
 import datetime
+import decimal
 import enum
 import functools
 import inspect
@@ -150,6 +151,15 @@ class TimeDeltaSerializer(Serializer[datetime.timedelta]):
             return f"T{seconds}{fractional}S"
 
 
+class DecimalSerializer(Serializer[decimal.Decimal]):
+    def generate(self, obj: decimal.Decimal) -> Union[int, float]:
+        if not obj.is_finite():
+            raise JsonValueError(f"number cannot be represented in JSON: {obj}")
+
+        # write whole numbers without a fractional part
+        return int(obj) if obj == obj.to_integral_value() else float(obj)
+
+
 class UUIDSerializer(Serializer[uuid.UUID]):
     def generate(self, obj: uuid.UUID) -> str:
         return str(obj)
@@ -454,6 +464,8 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return TimeSerializer()
     elif typ is datetime.timedelta:
         return TimeDeltaSerializer()
+    elif typ is decimal.Decimal:
+        return DecimalSerializer()
     elif typ is uuid.UUID:
         return UUIDSerializer()
     elif typ is ipaddress.IPv4Address:
-- 
2.43.0


From 5a765b75f7b95b841cc3886db4424ee0f6f78d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:04 +0000
Subject: [PATCH 37/59] fix: always write enumeration keys of an untyped
 dictionary as strings

---
 strong_typing/serializer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index b2cdae0..477896b 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -187,11 +187,9 @@ class UntypedListSerializer(Serializer[list]):
 
 class UntypedDictSerializer(Serializer[dict]):
     def generate(self, obj: dict) -> dict[str, JsonType]:
-        if obj and isinstance(next(iter(obj.keys())), enum.Enum):
-            iterator = ((key.value, object_to_json(value)) for key, value in obj.items())
-        else:
-            iterator = ((str(key), object_to_json(value)) for key, value in obj.items())
-        return dict(iterator)
+        return {
+            str(key.value if isinstance(key, enum.Enum) else key): object_to_json(value) for key, value in obj.items()
+        }
 
 
 class UntypedSetSerializer(Serializer[set]):
-- 
2.43.0


From 7fe74a110e2dd53341140af11fc5341fab4f1002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:29 +0000
Subject: [PATCH 38/59] fix: look up tags of a discriminated union in
 declaration order

---
 strong_typing/deserializer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 9b245ae..af716c2 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -457,15 +457,20 @@ def get_literal_properties(typ: type) -> dict[str, TypeLike]:
     }
 
 
-def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
-    "Returns a set of JSON properties with literal type that are common across all specified classes."
+def get_discriminating_properties(types: tuple[type, ...]) -> list[str]:
+    """
+    Returns JSON properties with literal type that are common across all specified classes.
+
+    Properties are listed in the order in which the first class declares them.
+    """
 
     if not types or not all(isinstance(typ, type) for typ in types):
-        return set()
+        return []
 
-    props = set(get_literal_properties(types[0]))
+    props = list(get_literal_properties(types[0]))
     for typ in types[1:]:
-        props = props & set(get_literal_properties(typ))
+        literal_properties = get_literal_properties(typ)
+        props = [name for name in props if name in literal_properties]
 
     return props
 
@@ -474,7 +479,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
     "De-serializes a JSON value with one or more disambiguating properties into a Python union type."
 
     member_types: tuple[type, ...]
-    disambiguating_properties: set[str]
+    disambiguating_properties: list[str]
     member_parsers: dict[tuple[str, JsonType], Deserializer]
 
     def __init__(self, member_types: tuple[type, ...], options: DeserializerOptions) -> None:
-- 
2.43.0


From 816354639ef586de447ed449f42012fb3e097f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 39/59] fix: resolve forward references in annotated types when
 generating a schema

---
 strong_typing/schema.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 64b189a..0c4faa1 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -17,7 +17,7 @@ import types
 import typing
 import uuid
 from copy import deepcopy
-from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, overload
+from typing import Annotated, Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, overload
 
 import jsonschema
 
@@ -336,6 +336,14 @@ class JsonSchemaGenerator:
             # type is Annotated[T, ...]
             typ = typing.get_args(data_type)[0]
 
+            # forward references wrapped in an annotated type
+            if isinstance(typ, typing.ForwardRef) and self.module is not None:
+                try:
+                    evaluated_type = evaluate_type(typ, self.module)
+                    return self.type_to_schema(Annotated[(evaluated_type, *metadata)], force_expand)
+                except NameError:
+                    pass
+
             schema = self._simple_type_to_schema(typ)
             if schema is not None:
                 # recognize well-known auxiliary types
-- 
2.43.0


From d1d9dba2f7fa455300f946b91f166ced7284ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:06 +0000
Subject: [PATCH 40/59] fix: sort graphs with chains of nodes of any length

---
 strong_typing/topological.py | 42 +++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index fb8e054..83f4fab 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -4,7 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
-from typing import Callable, Iterable, Optional, TypeVar
+from typing import Callable, Iterable, Iterator, Optional, TypeVar
 
 from .inspection import TypeCollector
 
@@ -28,20 +28,32 @@ def topological_sort(graph: dict[T, set[T]]) -> list[T]:
     seen: dict[T, bool] = {}
 
     def _visit(n: T) -> None:
-        status = seen.get(n)
-        if status is not None:
-            if status:  # node has a permanent mark
-                return
-            else:  # node has a temporary mark
-                raise RuntimeError(f"cycle detected in graph for node {n}")
-
-        seen[n] = False  # apply temporary mark
-        for m in graph[n]:  # visit all adjacent nodes
-            if m != n:  # ignore self-referencing nodes
-                _visit(m)
-
-        seen[n] = True  # apply permanent mark
-        ordered.append(n)
+        # use an explicit stack because a chain of nodes may be longer than what the interpreter permits for recursion
+        stack: list[tuple[T, Iterator[T]]] = []
+
+        def _enter(n: T) -> None:
+            seen[n] = False  # apply temporary mark
+            stack.append((n, iter(graph[n])))
+
+        if n not in seen:
+            _enter(n)
+
+        while stack:
+            n, adjacent = stack[-1]
+            for m in adjacent:  # visit all adjacent nodes
+                if m == n:  # ignore self-referencing nodes
+                    continue
+
+                status = seen.get(m)
+                if status is None:
+                    _enter(m)
+                    break
+                elif not status:  # node has a temporary mark
+                    raise RuntimeError(f"cycle detected in graph for node {m}")
+            else:
+                seen[n] = True  # apply permanent mark
+                ordered.append(n)
+                stack.pop()
 
     for n in graph.keys():
         _visit(n)
-- 
2.43.0


From 9e5a01ad466a23e2f92057644a787d4018a1468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:13 +0000
Subject: [PATCH 41/59] fix: print enumeration members in literal types as an
 expression

---
 strong_typing/name.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c52d34c..f01b9c1 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -4,6 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
+import enum
 import sys
 import typing
 from types import ModuleType
@@ -64,6 +65,8 @@ class TypeFormatter:
 
         if self.value_transform is not None:
             return self.value_transform(value)
+        elif isinstance(value, enum.Enum):
+            return f"{type(value).__name__}.{value.name}"
         else:
             return repr(value)
 
-- 
2.43.0


From 912c3acb82b424888e4b6709dacb4d7cf9c30e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:19 +0000
Subject: [PATCH 42/59] fix: print the type of an empty tuple as an expression

---
 strong_typing/name.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index f01b9c1..ac59210 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -155,6 +155,9 @@ class TypeFormatter:
             else:
                 origin_name = origin.__name__
 
+            if origin is tuple and not data_type_args:  # tuple[()]
+                return "tuple[()]"
+
             args = ", ".join(self.python_type_to_str(t) for t in data_type_args)
             return f"{origin_name}[{args}]"
 
-- 
2.43.0


From c3f35cf60e9b91f9c1f27f8eb7fb7922c2eed7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:23 +0000
Subject: [PATCH 43/59] fix: retain order and number of annotations in the name
 of a fixed-width type

---
 strong_typing/name.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index ac59210..0fc3ccd 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -194,7 +194,6 @@ class TypeFormatter:
             arg = typing.get_args(data_type)[0]
 
             # check for auxiliary types with user-defined annotations
-            metaset = set(metatuple)
             for auxiliary_type, auxiliary_name in _auxiliary_types.items():
                 auxiliary_arg = typing.get_args(auxiliary_type)[0]
                 if arg is not auxiliary_arg:
@@ -204,9 +203,10 @@ class TypeFormatter:
                 if auxiliary_metatuple is None:
                     continue
 
-                if metaset.issuperset(auxiliary_metatuple):
-                    # type is an auxiliary type with extra annotations
-                    auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
+                auxiliary_count = len(auxiliary_metatuple)
+                if metatuple[:auxiliary_count] == auxiliary_metatuple:
+                    # type is an auxiliary type followed by extra annotations
+                    auxiliary_args = ", ".join(repr(m) for m in metatuple[auxiliary_count:])
                     return f"Annotated[{auxiliary_name}, {auxiliary_args}]"
 
             # type is an annotated type
-- 
2.43.0


From e4b1ce1fa2ae78a3b123b5aedbd04334ae207b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 44/59] fix: collect types referenced in a tuple of arbitrary
 length

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 916c393..06b0ef7 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -682,7 +682,7 @@ class TypeCollector:
         :returns: Types referenced by the given type or special form.
         """
 
-        if typ is type(None) or typ is Any:
+        if typ is type(None) or typ is Any or typ is Ellipsis:
             return
 
         origin = typing.get_origin(typ)
-- 
2.43.0


From a20085a0f068832f9957c9d518fcf14b3350e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:34 +0000
Subject: [PATCH 45/59] fix: skip blank lines of whitespace that precede the
 short description in a docstring

---
 strong_typing/docstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index d2f981f..97732b4 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -258,7 +258,7 @@ def parse_text(text: str) -> Docstring:
         meta_chunk = ""
 
     # split description text into short and long description
-    parts = desc_chunk.split("\n\n", 1)
+    parts = desc_chunk.strip().split("\n\n", 1)
 
     # ensure short description has no newlines
     short_description = parts[0].strip().replace("\n", " ") or None
-- 
2.43.0


From 6f3dd5e5745af7ea36c8b0de0a6ebed5299f555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 46/59] fix: recognize the auto-generated docstring of a data
 class if it spans several lines

---
 strong_typing/docstring.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 97732b4..ac24d54 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -323,7 +323,15 @@ def has_default_docstring(typ: SupportsDoc) -> bool:
         return False
 
     if is_dataclass_type(typ):
-        return typ.__doc__ is not None and re.match(f"^{re.escape(typ.__name__)}[(].*[)]$", typ.__doc__) is not None
+        if typ.__doc__ is None or not typ.__doc__.startswith(f"{typ.__name__}("):
+            return False
+
+        if re.match(f"^{re.escape(typ.__name__)}[(].*[)]$", typ.__doc__) is not None:
+            return True
+
+        # representation of a default value may span several lines
+        signature = str(inspect.signature(typ)).replace(" -> None", "")
+        return typ.__doc__ == f"{typ.__name__}{signature}"
 
     if is_type_enum(typ):
         return typ.__doc__ is not None and typ.__doc__ == "An enumeration."
-- 
2.43.0


From 060cf11192bb417fbac102c38a046271d1847f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:28 +0000
Subject: [PATCH 47/59] fix: accept None as a type argument when collecting
 types

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 06b0ef7..daeb291 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -682,7 +682,7 @@ class TypeCollector:
         :returns: Types referenced by the given type or special form.
         """
 
-        if typ is type(None) or typ is Any or typ is Ellipsis:
+        if typ is None or typ is type(None) or typ is Any or typ is Ellipsis:
             return
 
         origin = typing.get_origin(typ)
-- 
2.43.0


From 555abe15caa16d2dc00c4afb54c0b3bb28a1f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:44 +0000
Subject: [PATCH 48/59] fix: retain fields that a type annotation class adds to
 those of its base class

---
 strong_typing/auxiliary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index f112c8e..65b5e57 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -70,8 +70,9 @@ def typeannotation(
 
     def wrap(cls: type[T]) -> type[T]:
         cls.__repr__ = _compact_dataclass_repr  # type: ignore[method-assign]
-        if dataclasses.is_dataclass(cls):
-            return typing.cast(type[T], cls)
+        if "__dataclass_fields__" in cls.__dict__:
+            # class (and not one of its base classes) is a data-class
+            return cls
         else:
             return typing.cast(
                 type[T],
-- 
2.43.0


From ba5094cd2312af2d19e399117e1398c630fbaef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:42 +0000
Subject: [PATCH 49/59] fix: refuse to serialize classes with a custom
 metaclass and built-in functions

---
 strong_typing/serializer.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 477896b..b2efa6a 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -18,7 +18,16 @@ import sys
 import types
 import typing
 import uuid
-from types import FunctionType, MethodType, ModuleType
+from types import (
+    BuiltinFunctionType,
+    ClassMethodDescriptorType,
+    FunctionType,
+    MethodDescriptorType,
+    MethodType,
+    MethodWrapperType,
+    ModuleType,
+    WrapperDescriptorType,
+)
 from typing import Any, Callable, Generic, Literal, NamedTuple, Optional, TypeVar, Union
 
 from .core import JsonType
@@ -41,6 +50,19 @@ from .mapping import python_field_to_json_property
 
 T = TypeVar("T")
 
+# types whose instances have no representation in JSON, including classes with a custom metaclass
+EXOTIC_TYPES: tuple[type, ...] = (
+    FunctionType,
+    MethodType,
+    BuiltinFunctionType,
+    MethodWrapperType,
+    WrapperDescriptorType,
+    MethodDescriptorType,
+    ClassMethodDescriptorType,
+    type,
+    ModuleType,
+)
+
 
 class Serializer(abc.ABC, Generic[T]):
     @abc.abstractmethod
@@ -387,7 +409,7 @@ class UntypedClassSerializer(Serializer):
                 continue
 
             # filter instance methods
-            if inspect.ismethod(value):
+            if inspect.ismethod(value) or inspect.isbuiltin(value):
                 continue
 
             object_dict[python_field_to_json_property(name)] = object_to_json(value)
@@ -524,7 +546,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
             return UntypedNamedTupleSerializer(typ)
 
     # fail early if caller passes an object with an exotic type
-    if not isinstance(typ, type) or typ is FunctionType or typ is MethodType or typ is type or typ is ModuleType:
+    if not isinstance(typ, type) or issubclass(typ, EXOTIC_TYPES):
         raise TypeError(f"object of type {typ} cannot be represented in JSON")
 
     if get_resolved_hints(typ):
-- 
2.43.0


From 6a56ec84b48febb472b89e8cdf02869d8029a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:11 +0000
Subject: [PATCH 50/59] fix: refuse to serialize and de-serialize the special
 form Any

---
 strong_typing/deserializer.py | 3 ++-
 strong_typing/serializer.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index af716c2..104ba9e 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -1032,7 +1032,8 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
     elif origin_type is Literal:
         return LiteralDeserializer(typing.get_args(typ), options)
 
-    if not inspect.isclass(typ):
+    # special form `Any` is a class as of Python 3.11
+    if not inspect.isclass(typ) or typ is Any:
         if is_dataclass_instance(typ):
             raise TypeError(f"dataclass type expected but got instance: {typ}")
         else:
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index b2efa6a..1d3cbb6 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -546,7 +546,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
             return UntypedNamedTupleSerializer(typ)
 
     # fail early if caller passes an object with an exotic type
-    if not isinstance(typ, type) or issubclass(typ, EXOTIC_TYPES):
+    if not isinstance(typ, type) or typ is Any or issubclass(typ, EXOTIC_TYPES):
         raise TypeError(f"object of type {typ} cannot be represented in JSON")
 
     if get_resolved_hints(typ):
-- 
2.43.0


From 535e0d8fdbf0a359d73dd92f18719bdb1e33b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:17 +0000
Subject: [PATCH 51/59] fix: treat typing.List, Dict, Set and Tuple without
 item type like the built-in container

---
 strong_typing/deserializer.py | 8 ++++----
 strong_typing/serializer.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 104ba9e..9dec516 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -994,13 +994,13 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         return IPv6Deserializer()
 
     # dynamically-typed collection types
-    if typ is list:
+    if typ is list or typ is typing.List:
         raise TypeError("explicit item type required: use `list[T]` instead of `list`")
-    if typ is dict:
+    if typ is dict or typ is typing.Dict:
         raise TypeError("explicit key and value types required: use `dict[K, V]` instead of `dict`")
-    if typ is set:
+    if typ is set or typ is typing.Set:
         raise TypeError("explicit member type required: use `set[T]` instead of `set`")
-    if typ is tuple:
+    if typ is tuple or typ is typing.Tuple:
         raise TypeError("explicit item type list required: use `tuple[T, ...]` instead of `tuple`")
 
     if sys.version_info >= (3, 10) and isinstance(typ, types.UnionType):
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 1d3cbb6..12705d9 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -494,13 +494,13 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return IPv6Serializer()
 
     # dynamically-typed collection types
-    if typ is list:
+    if typ is list or typ is typing.List:
         return UntypedListSerializer()
-    elif typ is dict:
+    elif typ is dict or typ is typing.Dict:
         return UntypedDictSerializer()
-    elif typ is set:
+    elif typ is set or typ is typing.Set:
         return UntypedSetSerializer()
-    elif typ is tuple:
+    elif typ is tuple or typ is typing.Tuple:
         return UntypedTupleSerializer()
 
     if sys.version_info >= (3, 10) and isinstance(typ, types.UnionType):
-- 
2.43.0


From f18f0d77c9e99cda5ec0811ec40d25028a520e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:48 +0000
Subject: [PATCH 52/59] fix: keep the default value of a constant when
 generating a class from a schema

---
 strong_typing/classdef.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 0f235e4..c8e1a81 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -218,6 +218,11 @@ def json_to_value(target_type: type[T], data: JsonType) -> Any:
         return typing.cast(Any, dataclasses.MISSING)
 
 
+def const_to_typedef(value: Any, default: JsonType) -> TypeDef:
+    const_type: TypeLike = Literal[value]
+    return TypeDef(const_type, json_to_value(typing.cast(type, const_type), default))
+
+
 def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode) -> TypeDef:
     if isinstance(node, JsonSchemaRef):
         match_obj = re.match(r"^#/definitions/(\w+)$", node.ref)
@@ -229,14 +234,14 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return const_to_typedef(node.const, node.default)
 
         default = json_to_value(bool, node.default)
         return TypeDef(bool, default)
 
     elif isinstance(node, JsonSchemaInteger):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return const_to_typedef(node.const, node.default)
 
         integer_type: TypeLike
         if node.format == "int16":
@@ -258,7 +263,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaNumber):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return const_to_typedef(node.const, node.default)
 
         number_type: TypeLike
         if node.format == "float32":
@@ -294,7 +299,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaString):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return const_to_typedef(node.const, node.default)
 
         string_type: TypeLike
         if node.format == "date-time":
-- 
2.43.0


From d842c651d3ab36cb99580c0304ea0d6c18e46f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 53/59] fix: keep the name of a schema definition apart from
 those of types nested in it

---
 strong_typing/classdef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index c8e1a81..ae6f183 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -196,7 +196,9 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
             setattr(module, type_name, typing.ForwardRef(type_name, module=module.__name__))
 
         for type_name, type_node in top_node.definitions.items():
-            type_def = node_to_typedef(module, type_name, type_node)
+            # name of the definition is not available to unnamed types nested in it
+            is_named = isinstance(type_node, (JsonSchemaString, JsonSchemaObject))
+            type_def = node_to_typedef(module, type_name if is_named else f"{type_name}__item", type_node)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-- 
2.43.0


From 14fe4ba3b9cb7410d4a7068ec906705c93f5fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:32 +0000
Subject: [PATCH 54/59] fix: evaluate string references when instances of
 generic types are checked

A reference such as in List["list[int]"] was evaluated among the local
variables of the function, and if it denoted a generic type, no object was
an instance of it.
---
 strong_typing/inspection.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index daeb291..a6b7199 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -873,13 +873,7 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
     """
 
     if isinstance(typ, typing.ForwardRef):
-        fwd: typing.ForwardRef = typ
-        identifier = fwd.__forward_arg__
-        typ = eval(identifier)
-        if isinstance(typ, type):
-            return isinstance(obj, typ)
-        else:
-            return False
+        return is_generic_instance(obj, evaluate_type(typ, sys.modules[__name__]))
 
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
-- 
2.43.0


From bd3e4f51b25e60f60451fc360ba39de1c6687001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 55/59] fix: check every item of a tuple of arbitrary length
 recursively

---
 strong_typing/inspection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index a6b7199..19e4c89 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -987,10 +987,14 @@ class RecursiveChecker:
         elif origin_type is tuple:
             if not isinstance(obj, tuple):
                 raise TypeError(f"expected `tuple` but got: {obj}")
+            tuple_item_types = typing.get_args(typ)
+            if len(tuple_item_types) == 2 and tuple_item_types[1] is Ellipsis:
+                # tuple of arbitrary length, i.e. `tuple[T, ...]`
+                return all(self.check(tuple_item_types[0], item) for item in obj)
             return all(
                 self.check(tuple_item_type, item)
                 for tuple_item_type, item in zip(
-                    (tuple_item_type for tuple_item_type in typing.get_args(typ)),
+                    (tuple_item_type for tuple_item_type in tuple_item_types),
                     (item for item in obj),
                 )
             )
-- 
2.43.0


From d632d33f7ca58542d916f68cf2f5a28b04038c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:25 +0000
Subject: [PATCH 56/59] fix: keep the default value of a data-class field
 looked up by name

---
 strong_typing/inspection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 19e4c89..240ddee 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -187,7 +187,9 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_type(field.type, get_member_module(cls, field.name)))
+            return DataclassField(
+                field.name, evaluate_type(field.type, get_member_module(cls, field.name)), field.default
+            )
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From a43a1ab48594a52b6afeb8178c89e2e41ecb2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 57/59] fix: give types that contain themselves distinct names
 in a JSON schema

---
 strong_typing/schema.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 0c4faa1..5746d04 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -192,6 +192,7 @@ class JsonSchemaGenerator:
     type_catalog: ClassVar[TypeCatalog] = TypeCatalog()
     types_used: dict[str, TypeLike]
     types_expanding: list[TypeLike]
+    names_reserved: set[str]
     module: Optional[types.ModuleType]
     options: SchemaOptions
 
@@ -202,6 +203,7 @@ class JsonSchemaGenerator:
             self.options = options
         self.types_used = {}
         self.types_expanding = []
+        self.names_reserved = set()
         self.module = None
 
     @functools.singledispatchmethod
@@ -327,7 +329,9 @@ class JsonSchemaGenerator:
         if not force_expand and data_type in type_catalog:
             # user-defined type
             identifier = type_catalog.get(data_type).identifier
-            self.types_used.setdefault(identifier, data_type)
+            if self.types_used.setdefault(identifier, data_type) != data_type:
+                # name has been given to a type that is not registered
+                self.names_reserved.add(identifier)
             return {"$ref": f"{self.options.definitions_path}{identifier}"}
 
         # unwrap annotated types
@@ -473,8 +477,8 @@ class JsonSchemaGenerator:
 
         # use a reference for a type that (indirectly) contains itself
         if typ in self.types_expanding:
-            identifier = python_type_to_name(typ)
-            self.types_used.setdefault(identifier, typ)
+            identifier = self._recursive_type_name(typ)
+            self.types_used[identifier] = typ
             return {"$ref": f"{self.options.definitions_path}{identifier}"}
 
         self.types_expanding.append(typ)
@@ -485,6 +489,16 @@ class JsonSchemaGenerator:
             self.module = enclosing_module
             self.types_expanding.pop()
 
+    def _recursive_type_name(self, typ: TypeLike) -> str:
+        "Returns a name for a type that is not registered, which is different from the name of any other type in use."
+
+        name = python_type_to_name(typ)
+        identifier, count = name, 1
+        while identifier in self.names_reserved or self.types_used.get(identifier, typ) is not typ:
+            count += 1
+            identifier = f"{name}{count}"
+        return identifier
+
     def _class_to_schema(self, typ: type) -> Schema:
         """
         Returns the JSON schema associated with a class that has properties.
@@ -600,6 +614,7 @@ class JsonSchemaGenerator:
             raise TypeError(f"expected a type-like object but got: {data_type}")
 
         self.types_used = {}
+        reserved_count = len(self.names_reserved)
         try:
             type_schema = self.type_to_schema(data_type, force_expand=force_expand)
 
@@ -617,8 +632,13 @@ class JsonSchemaGenerator:
                     types_defined[sub_name] = self._type_to_schema_with_lookup(sub_type)
 
             type_definitions = dict(sorted(types_defined.items()))
+
+            if len(self.names_reserved) > reserved_count:
+                # start over, leaving the names of registered types to registered types
+                return self.classdef_to_schema(data_type, force_expand)
         finally:
             self.types_used = {}
+            self.names_reserved = set()
 
         return type_schema, type_definitions
 
-- 
2.43.0


From 11c08fc92ad0bd1fc091438591e12c400fb7480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:30 +0000
Subject: [PATCH 58/59] fix: write members of enumerations of dates, UUIDs and
 the like in JSON form

---
 strong_typing/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 12705d9..8a99285 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -198,8 +198,8 @@ class IPv6Serializer(Serializer[ipaddress.IPv6Address]):
 
 
 class EnumSerializer(Serializer[enum.Enum]):
-    def generate(self, obj: enum.Enum) -> Union[int, str]:
-        return typing.cast(Union[int, str], obj.value)
+    def generate(self, obj: enum.Enum) -> JsonType:
+        return object_to_json(obj.value)
 
 
 class UntypedListSerializer(Serializer[list]):
-- 
2.43.0


From a49706e6f568fcbe5441c42257821602b94be747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:39 +0000
Subject: [PATCH 59/59] fix: read members of enumerations of dates, UUIDs and
 the like from their JSON form

---
 strong_typing/deserializer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 9dec516..b42d168 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -572,7 +572,14 @@ class EnumDeserializer(Deserializer[E]):
         self.enum_type = enum_type
 
     def parse(self, data: JsonType) -> E:
-        member = self.enum_type(data)
+        try:
+            member = self.enum_type(data)
+        except ValueError:
+            # enumeration values such as a date or a UUID are written to JSON as a string
+            for member in self.enum_type:
+                if not isinstance(member.value, (bool, int, float, str)) and object_to_json(member.value) == data:
+                    return member
+            raise
 
         # lookup is based on Python equality, according to which `True == 1 == 1.0`
         if member.value == data and (
-- 
2.43.0

