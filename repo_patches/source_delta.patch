From c1b46b7aa7e6e26eefb2e91dfd13fd2ab081c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 01/32] fix: report alphabet errors at the path of the
 offending value

---
 d42/validation/_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 9724c45..e8a059c 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -224,7 +224,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             for letter in value:
                 if letter not in alphabet:
                     return result.add_error(
-                        AlphabetValidationError(PathHolder(), value, schema.props.alphabet))
+                        AlphabetValidationError(path, value, schema.props.alphabet))
 
         return result
 
-- 
2.43.0


From 40c9c049fadaf32f0d2d31c563249bc6e4c1a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 02/32] fix: compare non-finite and overflowing floats without
 raising, nan equals nan

---
 d42/validation/_validator.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index e8a059c..cffbfe1 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose
+from math import isclose, isfinite, isnan
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -165,13 +165,21 @@ class Validator(SchemaVisitor[ValidationResult]):
             return result.add_error(error)
 
         if schema.props.value is not Nil:
-            if schema.props.precision is Nil:
+            if isnan(value) or isnan(schema.props.value):
+                if not (isnan(value) and isnan(schema.props.value)):
+                    return result.add_error(ValueValidationError(path, value, schema.props.value))
+            elif schema.props.precision is Nil:
                 if not isclose(value, schema.props.value):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
             else:
                 scale_factor = 10 ** schema.props.precision
-                scaled_actual = round(value * scale_factor)
-                scaled_expected = round(schema.props.value * scale_factor)
+                scaled_actual = value * scale_factor
+                scaled_expected = schema.props.value * scale_factor
+                if isfinite(scaled_actual) and isfinite(scaled_expected):
+                    scaled_actual = round(scaled_actual)
+                    scaled_expected = round(scaled_expected)
+                else:
+                    scaled_actual, scaled_expected = value, schema.props.value
                 if not isclose(scaled_expected, scaled_actual, rel_tol=0, abs_tol=0):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
 
-- 
2.43.0


From 0a14ec2f79c5c91781f260b3c121cd447b8191a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 03/32] fix: nan does not lie within declared float min/max

---
 d42/declaration/types/_float_schema.py | 4 ++--
 d42/validation/_validator.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/d42/declaration/types/_float_schema.py b/d42/declaration/types/_float_schema.py
index 607f444..a03ec32 100644
--- a/d42/declaration/types/_float_schema.py
+++ b/d42/declaration/types/_float_schema.py
@@ -67,7 +67,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.min is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value > self.props.value):
+        if (self.props.value is not Nil) and not (value <= self.props.value):
             raise make_incorrect_min_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(min=value))
@@ -79,7 +79,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.max is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value < self.props.value):
+        if (self.props.value is not Nil) and not (value >= self.props.value):
             raise make_incorrect_max_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(max=value))
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index cffbfe1..233fe55 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -184,11 +184,11 @@ class Validator(SchemaVisitor[ValidationResult]):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
-            if value < schema.props.min:
+            if not (value >= schema.props.min):
                 result.add_error(MinValueValidationError(path, value, schema.props.min))
 
         if schema.props.max is not Nil:
-            if value > schema.props.max:
+            if not (value <= schema.props.max):
                 result.add_error(MaxValueValidationError(path, value, schema.props.max))
 
         return result
-- 
2.43.0


From 386a231e0659c61f385c0a43cba5a184c35baac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 04/32] fix: compare schema props structurally, a schema never
 equals a non-schema prop

---
 d42/declaration/_props.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 8a3261a..aae6e6f 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -7,6 +7,25 @@ __all__ = ("Props", "PropsType",)
 PropsType = TypeVar("PropsType", bound="Props")
 
 
+def _is_schema(value: Any) -> bool:
+    return hasattr(type(value), "__accept__")
+
+
+def _is_equal(left: Any, right: Any) -> bool:
+    if left is right:
+        return True
+    # a schema equals only another schema here: `schema == value` means "value is valid"
+    if _is_schema(left) != _is_schema(right):
+        return False
+    if isinstance(left, (list, tuple)) and type(left) is type(right):
+        return len(left) == len(right) and all(map(_is_equal, left, right))
+    if isinstance(left, dict) and type(left) is type(right):
+        return left.keys() == right.keys() and all(_is_equal(left[k], right[k]) for k in left)
+    if isinstance(left, float) and isinstance(right, float) and left != left:
+        return right != right
+    return not (left != right)
+
+
 class Props:
     def __init__(self, registry: Nilable[Mapping[str, Any]] = Nil) -> None:
         self._registry = registry if (registry is not Nil) else {}
@@ -34,12 +53,12 @@ class Props:
 
         for key, val in self._registry.items():
             other_val = other.get(key)
-            if val != other_val:
+            if not _is_equal(val, other_val):
                 return False
 
         for key, other_val in other._registry.items():
             val = self.get(key)
-            if other_val != val:
+            if not _is_equal(other_val, val):
                 return False
 
         return True
-- 
2.43.0


From 5fc4242429048bcd2aac83448c9aec03362626e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 05/32] fix: render errors for values whose repr raises (huge
 ints, deep nesting, opaque objects)

---
 d42/declaration/_safe_repr.py | 11 ++++++++++
 d42/validation/_formatter.py  | 39 ++++++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 14 deletions(-)
 create mode 100644 d42/declaration/_safe_repr.py

diff --git a/d42/declaration/_safe_repr.py b/d42/declaration/_safe_repr.py
new file mode 100644
index 0000000..9b1c117
--- /dev/null
+++ b/d42/declaration/_safe_repr.py
@@ -0,0 +1,11 @@
+from typing import Any
+
+__all__ = ("safe_repr",)
+
+
+def safe_repr(value: Any) -> str:
+    try:
+        return repr(value)
+    except Exception:
+        # e.g. an int exceeding the str conversion limit or a too deeply nested container
+        return hex(value) if isinstance(value, int) else object.__repr__(value)
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 362ed12..1648441 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -2,6 +2,9 @@ from copy import deepcopy
 from typing import Any, Sequence
 
 from th import PathHolder
+from th.operators import ItemAccessor
+
+from d42.declaration._safe_repr import safe_repr
 
 from ._abstract_formatter import AbstractFormatter
 from .errors import (
@@ -35,7 +38,13 @@ class Formatter(AbstractFormatter):
         return self._root
 
     def _format_path(self, path: PathHolder) -> str:
-        return str(path.__class__(self._root, [x for x in path]))
+        operators = [x for x in path]
+        try:
+            return str(path.__class__(self._root, operators))
+        except Exception:
+            return self._root + "".join(
+                f"[{safe_repr(x.operand)}]" if isinstance(x, ItemAccessor) else str(x)
+                for x in operators)
 
     def _at_path(self, path: PathHolder) -> str:
         return " at " + self._format_path(path) if len(path) > 0 else ""
@@ -49,28 +58,29 @@ class Formatter(AbstractFormatter):
     def format_type_error(self, error: TypeValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
-        return (f"Value {error.actual_value!r}{formatted_path} "
+        return (f"Value {safe_repr(error.actual_value)}{formatted_path} "
                 f"must be {error.expected_type}, but {actual_type} given")
 
     def format_value_error(self, error: ValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be equal to {error.expected_value!r}, but {error.actual_value!r} given")
+                f"must be equal to {safe_repr(error.expected_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_min_value_error(self, error: MinValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be greater than or equal to {error.min_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be greater than or equal to {safe_repr(error.min_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_max_value_error(self, error: MaxValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be less than or equal to {error.max_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be less than or equal to {safe_repr(error.max_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def _format_length_error(self, path: PathHolder, actual_value: Any,
                              length: int, accuracy: str) -> str:
@@ -80,7 +90,7 @@ class Formatter(AbstractFormatter):
         options = ("element", "elements")
         return (
             f"Value {actual_type}{formatted_path} "
-            f"must have {accuracy} {length} {self._pluralize(length, options)}, "
+            f"must have {accuracy} {safe_repr(length)} {self._pluralize(length, options)}, "
             f"but it has {actual_len} {self._pluralize(actual_len, options)}"
         )
 
@@ -100,19 +110,19 @@ class Formatter(AbstractFormatter):
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain only {error.alphabet!r}, but {error.actual_value!r} given")
+                f"must contain only {error.alphabet!r}, but {safe_repr(error.actual_value)} given")
 
     def format_substr_error(self, error: SubstrValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain {error.substr!r}, but {error.actual_value!r} given")
+                f"must contain {error.substr!r}, but {safe_repr(error.actual_value)} given")
 
     def format_regex_error(self, error: RegexValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
+                f"must match pattern {error.pattern!r}, but {safe_repr(error.actual_value)} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
         path = deepcopy(error.path)
@@ -130,17 +140,18 @@ class Formatter(AbstractFormatter):
 
     def format_extra_key_error(self, error: ExtraKeyValidationError) -> str:
         formatted_path = self._at_path(error.path)
-        return f"Value{formatted_path} contains extra key {error.extra_key!r}"
+        return f"Value{formatted_path} contains extra key {safe_repr(error.extra_key)}"
 
     def format_schema_missmatch_error(self, error: SchemaMismatchValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match any of {error.expected_schemas!r}, but {error.actual_value!r} given")
+                f"must match any of {safe_repr(error.expected_schemas)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_invalid_uuid_version_error(self, error: InvalidUUIDVersionValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
                 f"must be a UUID version {error.expected_version!r}, "
-                f"but {error.actual_value!r} version {error.actual_version!r} given")
+                f"but {safe_repr(error.actual_value)} version {error.actual_version!r} given")
-- 
2.43.0


From 9c427c83b1acf0aeb3117a79646d80606ca55848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 06/32] fix: keep dict keys of error paths by identity instead
 of deep-copying them

---
 d42/substitution/_validator.py |  6 +++---
 d42/validation/_copy_path.py   | 10 ++++++++++
 d42/validation/_formatter.py   |  6 +++---
 d42/validation/_validator.py   |  8 ++++----
 4 files changed, 20 insertions(+), 10 deletions(-)
 create mode 100644 d42/validation/_copy_path.py

diff --git a/d42/substitution/_validator.py b/d42/substitution/_validator.py
index 20cb90e..5ac5f70 100644
--- a/d42/substitution/_validator.py
+++ b/d42/substitution/_validator.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any
 
 from niltype import Nil, Nilable
@@ -7,6 +6,7 @@ from th import PathHolder
 from d42.declaration.types import DictSchema, ListSchema
 from d42.utils import is_ellipsis
 from d42.validation import ValidationResult, Validator
+from d42.validation._copy_path import copy_path
 from d42.validation.errors import (
     ExtraKeyValidationError,
     LengthValidationError,
@@ -48,7 +48,7 @@ class SubstitutorValidator(Validator):
             for index, elem in enumerate(value):
                 if is_ellipsis(elem) and (index == 0 or index == len(value) - 1):
                     continue
-                nested_path = deepcopy(path)[index]
+                nested_path = copy_path(path)[index]
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -74,7 +74,7 @@ class SubstitutorValidator(Validator):
             if key in value:
                 if is_ellipsis(value[key]):
                     continue
-                nested_path = deepcopy(path)[key]
+                nested_path = copy_path(path)[key]
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
 
diff --git a/d42/validation/_copy_path.py b/d42/validation/_copy_path.py
new file mode 100644
index 0000000..ee3a46f
--- /dev/null
+++ b/d42/validation/_copy_path.py
@@ -0,0 +1,10 @@
+from copy import deepcopy
+
+from th import PathHolder
+
+__all__ = ("copy_path",)
+
+
+def copy_path(path: PathHolder) -> PathHolder:
+    # operators are immutable and may hold keys that can't be copied or are compared by identity
+    return deepcopy(path, {id(operator): operator for operator in path})
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 1648441..3a84a73 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any, Sequence
 
 from th import PathHolder
@@ -7,6 +6,7 @@ from th.operators import ItemAccessor
 from d42.declaration._safe_repr import safe_repr
 
 from ._abstract_formatter import AbstractFormatter
+from ._copy_path import copy_path
 from .errors import (
     AlphabetValidationError,
     ExtraElementValidationError,
@@ -125,7 +125,7 @@ class Formatter(AbstractFormatter):
                 f"must match pattern {error.pattern!r}, but {safe_repr(error.actual_value)} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
-        path = deepcopy(error.path)
+        path = copy_path(error.path)
         formatted_path = self._format_path(path[error.index])
         return f"Element {formatted_path} does not exist"
 
@@ -134,7 +134,7 @@ class Formatter(AbstractFormatter):
         return f"Value{formatted_path} contains extra element at index {error.index!r}"
 
     def format_missing_key_error(self, error: MissingKeyValidationError) -> str:
-        path = deepcopy(error.path)
+        path = copy_path(error.path)
         formatted_path = self._format_path(path[error.missing_key])
         return f"Key {formatted_path} does not exist"
 
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 233fe55..a55bff5 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,5 +1,4 @@
 import re
-from copy import deepcopy
 from datetime import date, datetime
 from math import isclose, isfinite, isnan
 from typing import Any, Callable, List, Optional, Type, cast
@@ -27,6 +26,7 @@ from d42.declaration.types import (
 )
 from d42.utils import is_ellipsis
 
+from ._copy_path import copy_path
 from ._validation_result import ValidationResult
 from .errors import (
     AlphabetValidationError,
@@ -91,7 +91,7 @@ class Validator(SchemaVisitor[ValidationResult]):
                 errors.append(MissingElementValidationError(path, value, real_index))
                 break
             else:
-                nested_path = deepcopy(path)[real_index]
+                nested_path = copy_path(path)[real_index]
                 res = element_schema.__accept__(self, value=val, path=nested_path, **kwargs)
                 errors += res.get_errors()
         return errors
@@ -264,7 +264,7 @@ class Validator(SchemaVisitor[ValidationResult]):
         if schema.props.type is not Nil:
             type_schema = schema.props.type
             for index, elem in enumerate(value):
-                nested_path = deepcopy(path)[index]
+                nested_path = copy_path(path)[index]
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -320,7 +320,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             if is_ellipsis(key):
                 continue
             if key in value:
-                nested_path = deepcopy(path)[key]
+                nested_path = copy_path(path)[key]
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             else:
-- 
2.43.0


From 8514d63531cbe51877fc158ec9d1e65cd0c2ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 07/32] fix: represent inf, nan and huge ints as evaluable
 literals

---
 d42/representation/_representor.py | 31 +++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f9cd100..03fa8bc 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -1,3 +1,4 @@
+from math import isinf, isnan
 from typing import Any, cast
 
 from niltype import Nil
@@ -32,6 +33,20 @@ class Representor(SchemaVisitor[str]):
     def name(self) -> str:
         return self._name
 
+    def _represent_value(self, value: Any) -> str:
+        if isinstance(value, float):
+            # `inf` and `nan` are not Python literals, but an overflowing literal evaluates to inf
+            if isinf(value):
+                return "1e309" if value > 0 else "-1e309"
+            if isnan(value):
+                return "(1e309-1e309)"
+        try:
+            return repr(value)
+        except ValueError:
+            if isinstance(value, int):  # exceeds the int to str conversion limit
+                return hex(value)
+            raise
+
     def visit(self, schema: GenericSchema, *, indent: int = 0, **kwargs: Any) -> str:
         if represent_method := getattr(schema, "__d42_represent__", None):
             return cast(str, represent_method(self, indent=indent, **kwargs))
@@ -51,13 +66,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.int"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._represent_value(schema.props.max)})"
 
         return r
 
@@ -65,13 +80,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.float"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._represent_value(schema.props.max)})"
 
         if schema.props.precision is not Nil:
             r += f".precision({schema.props.precision!r})"
@@ -150,7 +165,9 @@ class Representor(SchemaVisitor[str]):
             if is_ellipsis(key):
                 key_repr = val_repr = "..."
             else:
-                key_repr = f"optional({key!r})" if is_optional else repr(key)
+                key_repr = self._represent_value(key)
+                if is_optional:
+                    key_repr = f"optional({key_repr})"
                 val_repr = val.__accept__(self, indent=indent + self._indent, **kwargs)
             pairs.append("{indent}{key}: {val}".format(
                 indent=" " * (indent + self._indent),
-- 
2.43.0


From c2c397ebb9e3912a05c2c18473f11d46ea4e0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 08/32] fix: generate numbers within declared bounds beyond the
 defaults, off the precision grid or non-finite

---
 d42/generation/_generator.py |  8 ++++++--
 d42/generation/_random.py    | 33 ++++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index ac1b55b..d133701 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -69,7 +69,9 @@ class Generator(SchemaVisitor[Any]):
             return schema.props.value
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
-        max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        max_value = schema.props.max if (schema.props.max is not Nil) else max(INT_MAX, min_value)
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         return self._random.random_int(min_value, max_value)
 
     def visit_float(self, schema: FloatSchema, **kwargs: Any) -> float:
@@ -77,7 +79,9 @@ class Generator(SchemaVisitor[Any]):
             return schema.props.value
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
-        max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        max_value = schema.props.max if (schema.props.max is not Nil) else max(FLOAT_MAX, min_value)
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
 
         if precision is not Nil:
diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index aeb3873..2d23d0a 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,4 +1,7 @@
 import random
+import sys
+from fractions import Fraction
+from math import ceil, floor
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -20,15 +23,27 @@ class Random:
         if start > end:
             raise ValueError("random_float: start must be <= end")
 
-        if precision is Nil:
-            return random.uniform(start, end)
-
-        scale_factor = 10 ** precision
-        left_number = int(start * scale_factor)
-        right_number = int(end * scale_factor)
-
-        result = cast(float, self.random_int(left_number, right_number) / scale_factor)
-        return round(result, precision)
+        if start == end:
+            return start
+        left, right = max(start, -sys.float_info.max), min(end, sys.float_info.max)
+
+        if precision is not Nil:
+            scale_factor = 10 ** precision
+            left_number = floor(Fraction(left) * scale_factor)
+            if left_number / scale_factor < left:
+                left_number += 1
+            right_number = ceil(Fraction(right) * scale_factor)
+            if right_number / scale_factor > right:
+                right_number -= 1
+            if left_number <= right_number:
+                number = self.random_int(left_number, right_number)
+                return round(cast(float, number / scale_factor), precision)
+
+        if right - left <= sys.float_info.max:
+            result = random.uniform(left, right)
+        else:
+            result = random.uniform(left / 2, right / 2) * 2
+        return min(max(result, left), right)
 
     def random_str(self, length: int, alphabet: str) -> str:
         return "".join(random.choice(alphabet) for _ in range(length))
-- 
2.43.0


From 735e92c4be369f065e896497d68ecf856afe70fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 09/32] fix: generate strings and lists whose min len exceeds
 the default, or with an empty alphabet

---
 d42/generation/_generator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index d133701..4e8df71 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -100,7 +100,12 @@ class Generator(SchemaVisitor[Any]):
             length = schema.props.len
         else:
             min_length = schema.props.min_len if (schema.props.min_len is not Nil) else STR_LEN_MIN
-            max_length = schema.props.max_len if (schema.props.max_len is not Nil) else STR_LEN_MAX
+            if schema.props.max_len is not Nil:
+                max_length = schema.props.max_len
+            else:
+                max_length = max(STR_LEN_MAX, min_length)
+            if schema.props.alphabet == "":
+                max_length = max(min_length, 0)
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
@@ -137,7 +142,7 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.min_len is not Nil:
                 min_length = schema.props.min_len
                 is_length_specified = True
-            max_length = LIST_LEN_MAX
+            max_length = max(LIST_LEN_MAX, min_length)
             if schema.props.max_len is not Nil:
                 max_length = schema.props.max_len
                 is_length_specified = True
-- 
2.43.0


From 34fffc2d2f35b4897b86a747a4f10357c02ff7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 10/32] fix: pad generated list elements around ... up to the
 declared len

---
 d42/generation/_generator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 4e8df71..eb09f57 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -131,6 +131,14 @@ class Generator(SchemaVisitor[Any]):
                 if is_ellipsis(elem):
                     continue
                 elements.append(elem.__accept__(self, **kwargs))
+            if len(elements) < len(schema.props.elements):  # has `...`, so any elements may follow
+                length = schema.props.len if (schema.props.len is not Nil) else schema.props.min_len
+                padding: List[Any] = []
+                if length is not Nil:
+                    padding = [[] for _ in range(length - len(elements))]
+                if is_ellipsis(schema.props.elements[-1]):
+                    return elements + padding
+                return padding + elements
             return elements
 
         is_length_specified = False
-- 
2.43.0


From ec12d57988013cd6dccd9dddac2cbff0647c41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 11/32] fix: treat only MAXREPEAT as an open-ended regex
 quantifier

---
 d42/generation/_regex_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 428c229..cec2b25 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -111,7 +111,7 @@ class RegexGenerator:
 
     def _generate_max_repeat(self, value: Tuple[int, int, List[Any]]) -> str:
         min_count, max_count, val = value
-        if max_count in (MAX_REPEAT, MAXREPEAT):
+        if max_count == MAXREPEAT:
             max_count = max(self._max_repeat, min_count)
         count = self._random.random_int(min_count, max_count)
         return "".join(self._generate_pattern(val) for _ in range(count))
-- 
2.43.0


From a221cc55a9d789cba29737198fe560b3d7650e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 12/32] fix: negated character classes do not depend on the
 hash seed and may exclude the whole alphabet

---
 d42/generation/_regex_generator.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index cec2b25..7c50276 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -40,7 +40,7 @@ else:
         SUBPATTERN,
     )
 
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Dict, List, Optional, Set, Tuple
 
 from ._random import Random
 
@@ -104,7 +104,23 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
-        return self._random.random_choice(letters)
+        if not letters:
+            return self._get_letter_not_in(value, set(exclude_letters))
+        # the order of a set depends on hash randomization, so use the chosen position only
+        position = letters.index(self._random.random_choice(letters))
+        return sorted(letters)[position]
+
+    def _get_letter_not_in(self, value: List[Any], exclude_letters: Set[str]) -> str:
+        categories = [val for opcode, val in value if opcode == CATEGORY]
+        for letter in map(chr, range(sys.maxunicode + 1)):
+            if letter in exclude_letters:
+                continue
+            if (CATEGORY_DIGIT in categories) and letter.isdecimal():
+                continue
+            if (CATEGORY_WORD in categories) and (letter.isalnum() or letter == "_"):
+                continue
+            return letter
+        raise ValueError("Negated character class excludes every character")
 
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
-- 
2.43.0


From 360f10527896083373f01c6832f4fea16f41cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 13/32] fix: a pattern that can't be compiled is always a
 DeclarationError

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 637cb17..cbc98ea 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except re.error as e:
+        except (re.error, OverflowError, RecursionError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 6d71e48cabc6055ed9b43a5da15db522f6e110be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 14/32] fix: reject a fixed uuid4 value of another version

---
 d42/declaration/types/_uuid4_schema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d42/declaration/types/_uuid4_schema.py b/d42/declaration/types/_uuid4_schema.py
index c0a30a0..81188e3 100644
--- a/d42/declaration/types/_uuid4_schema.py
+++ b/d42/declaration/types/_uuid4_schema.py
@@ -6,7 +6,7 @@ from niltype import Nil, Nilable
 from .._props import Props
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
-from ..errors import make_already_declared_error, make_invalid_type_error
+from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
 from ._schema import Schema
 
 __all__ = ("UUID4Schema", "UUID4Props",)
@@ -29,4 +29,7 @@ class UUID4Schema(Schema[UUID4Props]):
         if self.props.value is not Nil:
             raise make_already_declared_error(self)
 
+        if value.version != 4:
+            raise DeclarationError(f"`{self!r}` value must be a UUID version 4, {value!r} given")
+
         return self.__class__(self.props.update(value=value))
-- 
2.43.0


From 21dfe4d7f7486cdbc635d885d2f460edaea1a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 15/32] fix: declaration errors about values whose repr raises
 stay DeclarationError

---
 d42/declaration/errors/__init__.py    | 31 ++++++++++++++++-----------
 d42/declaration/types/_dict_schema.py |  5 +++--
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/d42/declaration/errors/__init__.py b/d42/declaration/errors/__init__.py
index 1dceac9..9d0bd49 100644
--- a/d42/declaration/errors/__init__.py
+++ b/d42/declaration/errors/__init__.py
@@ -1,5 +1,7 @@
 from typing import TYPE_CHECKING, Any, Sized, Tuple, Type
 
+from .._safe_repr import safe_repr
+
 if TYPE_CHECKING:
     from ..types import GenericSchema
 
@@ -24,53 +26,56 @@ def make_invalid_type_error(schema: "GenericSchema", value: Any,
 
     types_ = tuple(map(_get_type_name, types))
     if len(types) == 1:
-        message = (f"`{schema!r}` value must be an instance of '{_get_type_name(types[0])}', "
-                   f"instance of {value_type_name!r} {value!r} given")
+        message = (f"`{safe_repr(schema)}` value must be an instance of "
+                   f"'{_get_type_name(types[0])}', "
+                   f"instance of {value_type_name!r} {safe_repr(value)} given")
     else:
-        message = (f"`{schema!r}` value must be an instance of {types_!r}, "
+        message = (f"`{safe_repr(schema)}` value must be an instance of {types_!r}, "
                    f"instance of {value_type_name!r} given")
     return DeclarationError(message)
 
 
 def make_already_declared_error(schema: "GenericSchema") -> DeclarationError:
-    message = f"`{schema!r}` is already declared"
+    message = f"`{safe_repr(schema)}` is already declared"
     return DeclarationError(message)
 
 
 def make_incorrect_min_error(schema: "GenericSchema",
                              value: Any, min_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` min value must be less than or equal to {value}, {min_value} given"
+    message = (f"`{safe_repr(schema)}` min value must be less than or equal to "
+               f"{safe_repr(value)}, {safe_repr(min_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_error(schema: "GenericSchema",
                              value: Any, max_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` max value must be greater than or equal to {value}, {max_value} given"
+    message = (f"`{safe_repr(schema)}` max value must be greater than or equal to "
+               f"{safe_repr(value)}, {safe_repr(max_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_len_error(schema: "GenericSchema",
                              value: Sized, length: int) -> DeclarationError:
-    message = f"`{schema!r}` len must be equal to {len(value)}, {length} given"
+    message = f"`{safe_repr(schema)}` len must be equal to {len(value)}, {safe_repr(length)} given"
     return DeclarationError(message)
 
 
 def make_incorrect_min_len_error(schema: "GenericSchema",
                                  value: Sized, min_length: int) -> DeclarationError:
-    message = (f"`{schema!r}` min len must be less than or equal to {len(value)}, "
-               f"{min_length} given")
+    message = (f"`{safe_repr(schema)}` min len must be less than or equal to {len(value)}, "
+               f"{safe_repr(min_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_len_error(schema: "GenericSchema",
                                  value: Sized, max_length: int) -> DeclarationError:
-    message = (f"`{schema!r}` max len must be greater than or equal to {len(value)}, "
-               f"{max_length} given")
+    message = (f"`{safe_repr(schema)}` max len must be greater than or equal to {len(value)}, "
+               f"{safe_repr(max_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_precision_error(schema: "GenericSchema",
                                    precision: int, max_precision: int) -> DeclarationError:
-    message = (f"`{schema!r}` precision must be greater than 0 or less than {max_precision}, "
-               f"{precision} given")
+    message = (f"`{safe_repr(schema)}` precision must be greater than 0 or "
+               f"less than {max_precision}, {safe_repr(precision)} given")
     return DeclarationError(message)
diff --git a/d42/declaration/types/_dict_schema.py b/d42/declaration/types/_dict_schema.py
index e3e458c..2f28379 100644
--- a/d42/declaration/types/_dict_schema.py
+++ b/d42/declaration/types/_dict_schema.py
@@ -5,6 +5,7 @@ from niltype import Nil, Nilable
 
 from .._is_ellipsis import TypeOrEllipsis, is_ellipsis
 from .._props import Props
+from .._safe_repr import safe_repr
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
 from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
@@ -43,10 +44,10 @@ class DictSchema(Schema[DictProps]):
         for key, val in keys.items():
             if is_ellipsis(key) or is_ellipsis(val):
                 if not is_ellipsis(key):
-                    message = f"Inappropriate type of key {key!r} ({type(key)!r})"
+                    message = f"Inappropriate type of key {safe_repr(key)} ({type(key)!r})"
                     raise DeclarationError(message)
                 if not is_ellipsis(val):
-                    message = f"Inappropriate type of value {val!r} ({type(val)!r})"
+                    message = f"Inappropriate type of value {safe_repr(val)} ({type(val)!r})"
                     raise DeclarationError(message)
             else:
                 if not isinstance(val, Schema):
-- 
2.43.0


From 714c39c5913284d1c6fde9f91d198c1f84b55819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 16/32] fix: regex is rejected after a declared max len

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index cbc98ea..990fd4e 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -179,7 +179,7 @@ class StrSchema(Schema[StrProps]):
 
         if (self.props.pattern is not Nil) or (self.props.alphabet is not Nil) or \
            (self.props.len is not Nil) or (self.props.min_len is not Nil) or \
-           (self.props.len is not Nil) or (self.props.substr is not Nil):
+           (self.props.max_len is not Nil) or (self.props.substr is not Nil):
             raise make_already_declared_error(self)
 
         try:
-- 
2.43.0


From 640914240e3885b6fea830c96609eab9b61ccdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 17/32] fix: a list schema does not share its elements with the
 list passed by the caller

---
 d42/declaration/types/_list_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_list_schema.py b/d42/declaration/types/_list_schema.py
index 0a98931..c13761b 100644
--- a/d42/declaration/types/_list_schema.py
+++ b/d42/declaration/types/_list_schema.py
@@ -84,7 +84,7 @@ class ListSchema(Schema[ListProps]):
            is_ellipsis(elements_or_type[0]) and is_ellipsis(elements_or_type[-1]):
             raise DeclarationError("`...` must be first or last element")
 
-        return self.__class__(self.props.update(elements=elements_or_type))
+        return self.__class__(self.props.update(elements=list(elements_or_type)))
 
     def __declare_len(self, props: ListProps, length: Any) -> ListProps:
         if not isinstance(length, int):
-- 
2.43.0


From 26499376f6d042f97fa50b3db47a77a12c7558e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 18/32] fix: substitution errors about values whose repr raises
 stay SubstitutionError

---
 d42/substitution/_substitutor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 93f4c15..1851d9b 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, List, Optional, cast
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -47,7 +48,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         try:
             return from_native(value)
         except ValueError:
-            raise SubstitutionError(f"Can't convert {value!r} to schema")
+            raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
@@ -184,7 +185,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     keys[key] = (val, is_optional)
             for key, val in value.items():
                 if key not in schema.props.keys:
-                    raise SubstitutionError(f"Unknown key {key!r}")
+                    raise SubstitutionError(f"Unknown key {safe_repr(key)}")
 
         return schema.__class__(schema.props.update(keys=keys))
 
-- 
2.43.0


From 20dee4a563cd742496b44a224c9ce39927c23b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 19/32] fix: misplaced ... placeholders in a substituted value
 do not yield an unusable schema

---
 d42/substitution/_substitutor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 1851d9b..5e717c9 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -115,6 +115,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         if len(value) > 0 and all(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute all ...")
 
+        if any(is_ellipsis(x) for x in value[1:-1]):
+            raise SubstitutionError("`...` must be first or last element")
+
         if (schema.props.elements is Nil) and (schema.props.type is Nil):
             elements = []
             for val in value:
@@ -169,7 +172,13 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         keys: Dict[Any, Any] = {}
         if schema.props.keys is Nil or (len(schema.props.keys) == 1 and ... in schema.props.keys):
             for key, val in value.items():
-                keys[key] = (... if is_ellipsis(val) else self._from_native(val), False)
+                if is_ellipsis(key):
+                    if not is_ellipsis(val):
+                        raise SubstitutionError("Expected both key and value to be ellipsis")
+                    keys[key] = (val, False)
+                else:
+                    val = AnySchema() if is_ellipsis(val) else self._from_native(val)
+                    keys[key] = (val, False)
             if (schema.props.keys is not Nil) and (... in schema.props.keys):
                 keys[...] = (..., False)
         else:
-- 
2.43.0


From ef6e666ad5487f5f5c1926a8699e2b182efdac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 20/32] fix: substitution into a contains-list raises
 SubstitutionError when no window fits

---
 d42/substitution/_substitutor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 5e717c9..73dd4a9 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -148,6 +148,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     return schema.__class__(schema.props.update(elements=substituted))
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into any position")
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
-- 
2.43.0


From 094a23dba512408b506f6c8542f37547bb5f1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 21/32] fix: substitution raises SubstitutionError when no
 alternative of any is left

---
 d42/substitution/_substitutor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 73dd4a9..9aa80fc 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -215,6 +215,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     types.append(substituted)
+            if len(types) == 0:
+                raise SubstitutionError(
+                    f"Can't substitute {safe_repr(value)} into any alternative")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
-- 
2.43.0


From 9aa34b31631840008a930936097272167ec74497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 22/32] fix: from_native refuses ... and optional keys and
 self-containing values with ValueError

---
 d42/utils/_from_native.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index b281e5f..c79f330 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -2,6 +2,7 @@ from datetime import date, datetime
 from typing import Any
 from uuid import UUID
 
+from d42.declaration._is_ellipsis import is_ellipsis
 from d42.declaration.types import (
     BoolSchema,
     BytesSchema,
@@ -15,12 +16,13 @@ from d42.declaration.types import (
     NoneSchema,
     StrSchema,
     UUID4Schema,
+    optional,
 )
 
 __all__ = ("from_native",)
 
 
-def from_native(value: Any) -> GenericSchema:
+def _from_native(value: Any) -> GenericSchema:
     if value is None:
         return NoneSchema()
     elif isinstance(value, bool):
@@ -32,9 +34,11 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, str):
         return StrSchema()(value)
     elif isinstance(value, list):
-        return ListSchema()([from_native(x) for x in value])
+        return ListSchema()([_from_native(x) for x in value])
     elif isinstance(value, dict):
-        return DictSchema()({key: from_native(val) for key, val in value.items()})
+        if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
+            raise ValueError(value)
+        return DictSchema()({key: _from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
     elif isinstance(value, UUID) and (value.version == 4):
@@ -45,3 +49,10 @@ def from_native(value: Any) -> GenericSchema:
         return DateSchema()(value)
     else:
         raise ValueError(value)
+
+
+def from_native(value: Any) -> GenericSchema:
+    try:
+        return _from_native(value)
+    except RecursionError:  # e.g. a container that contains itself
+        raise ValueError(value) from None
-- 
2.43.0


From 62a6a4652a3a9e8456a70ed89908e3af7daf5a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 23/32] fix: substitution does not shift the fixed value of a
 float schema

---
 d42/substitution/_substitutor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 9aa80fc..17f19d5 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -78,6 +78,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         result = schema.__accept__(self._validator, value=value)
         if result.has_errors():
             raise make_substitution_error(result, self._formatter)
+        if (schema.props.value is not Nil) and (schema.props.precision is Nil):
+            # values are compared with a tolerance, another center would widen the schema
+            return schema.__class__(schema.props)
         return schema.__class__(schema.props.update(value=value))
 
     def visit_str(self, schema: StrSchema, *, value: Any = Nil, **kwargs: Any) -> StrSchema:
-- 
2.43.0


From f7aabc3c156290b5839ccf13881637a008e559ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 24/32] fix: rollout does not modify nested dicts of the caller

---
 d42/utils/_rollout.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/utils/_rollout.py b/d42/utils/_rollout.py
index e441b74..a71b623 100644
--- a/d42/utils/_rollout.py
+++ b/d42/utils/_rollout.py
@@ -29,6 +29,8 @@ def rollout(keys: KeysType, *, separator: str = ".") -> KeysType:
         parts = comp_key.split(separator)
         key = parts[0]
         if len(parts) == 1:
+            # nested keys may be merged into it below, so do not touch the caller's dict
+            val = dict(val) if isinstance(val, dict) else val
             updated[optional(key) if is_optional else key] = val
         else:
             if key not in updated:
-- 
2.43.0


From 87a8ea47692beddfe59c5d8aced0e21b601a1e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 25/32] fix: migration replaces only the import statement
 itself, keeps local names and their order

---
 d42/migration/migrate_v1_to_v2.py | 72 +++++++++++++++++++------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 65560f5..5292f36 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -1,8 +1,9 @@
 #!/usr/bin/env python3
 import ast
 import os
+import re
 from collections import defaultdict
-from typing import Dict, Tuple, Union
+from typing import Dict, List, Set, Tuple, Union, cast
 
 __all__ = ("migrate_v1_to_v2",)
 
@@ -135,8 +136,18 @@ mapping = {
 MappingType = Dict[str, Dict[str, Tuple[str, str]]]
 
 
+def _format_imports(new_imports: Dict[str, List[str]],
+                    module: Union[str, None], unmapped_names: List[str]) -> List[str]:
+    statements = [f"from {new_module} import {', '.join(names)}"
+                  for new_module, names in new_imports.items()]
+    if unmapped_names:
+        statements.append(f"from {module} import {', '.join(unmapped_names)}")
+    return statements
+
+
 def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
-    lines = source_code.splitlines(keepends=True)
+    # Only these line boundaries are recognized by `ast`, unlike `str.splitlines`
+    lines = [x.encode() for x in re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", source_code)]
     tree = ast.parse(source_code)
     replacements = []
 
@@ -145,48 +156,53 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
             module = node.module
             if node.level > 0:
                 continue  # Skip relative imports like 'from .module import ...'
+            if not any(alias.name in mapping.get(str(module), {}) for alias in node.names):
+                continue  # Nothing to rewrite
 
-            new_imports = defaultdict(list)
-            unmapped_names = []
+            statements: List[str] = []
+            new_imports: Dict[str, List[str]] = defaultdict(list)
+            unmapped_names: List[str] = []
+            local_names: Set[str] = set()
 
             for alias in node.names:
                 name = alias.name
                 asname = alias.asname
+                local_name = asname or name
+                if local_name in local_names:
+                    # The last import of the same local name must stay the last one
+                    statements += _format_imports(new_imports, module, unmapped_names)
+                    new_imports, unmapped_names, local_names = defaultdict(list), [], set()
+                local_names.add(local_name)
                 if module in mapping and name in mapping[module]:
                     new_module, new_name = mapping[module][name]
-                    import_name = f"{new_name} as {asname}" if asname else new_name
-                    new_imports[new_module].append(import_name)
+                    if asname or (new_name != name):
+                        new_imports[new_module].append(f"{new_name} as {local_name}")
+                    else:
+                        new_imports[new_module].append(new_name)
                 else:
-                    import_name = f"{name} as {asname}" if asname else name
-                    unmapped_names.append(import_name)
-
-            # Build replacement lines
-            replacement_lines = []
-            for new_module, names in new_imports.items():
-                names_str = ', '.join(names)
-                replacement_lines.append(f'from {new_module} import {names_str}\n')
-            if unmapped_names:
-                names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}\n')
-
-            # Get line numbers
-            start_line = node.lineno - 1  # Convert to 0-based index
-            end_line = getattr(node, 'end_lineno', node.lineno) - 1
-            replacements.append((start_line, end_line, replacement_lines))
+                    unmapped_names.append(f"{name} as {asname}" if asname else name)
+            statements += _format_imports(new_imports, module, unmapped_names)
+
+            replacements.append((node, "\n".join(statements)))
 
     if len(replacements) == 0:
         return None
 
-    # Apply replacements in reverse order to maintain line indices
-    for start_line, end_line, replacement_lines in reversed(replacements):
-        lines[start_line:end_line+1] = replacement_lines
+    # Apply replacements in reverse order to maintain line indices and offsets
+    for node, replacement in reversed(replacements):
+        start_line = node.lineno - 1  # Convert to 0-based index
+        end_line = cast(int, node.end_lineno) - 1
+        # The statement may share its lines with other statements or comments
+        before = lines[start_line][:node.col_offset]
+        after = lines[end_line][node.end_col_offset:]
+        lines[start_line:end_line + 1] = [before + replacement.encode() + after]
 
-    return ''.join(lines)
+    return b''.join(lines).decode()
 
 
 def process_file(filepath: str, mapping: MappingType) -> None:
     try:
-        with open(filepath, 'r', encoding='utf-8') as file:
+        with open(filepath, 'r', encoding='utf-8', newline='') as file:
             source_code = file.read()
 
         # Rewrite imports in the source code
@@ -194,7 +210,7 @@ def process_file(filepath: str, mapping: MappingType) -> None:
 
         if modified_code:
             # Write the modified code back to the file
-            with open(filepath, 'w', encoding='utf-8') as file:
+            with open(filepath, 'w', encoding='utf-8', newline='') as file:
                 file.write(modified_code)
             print(f"Processed: {filepath}")
     except Exception as e:
-- 
2.43.0


From 7d310d663c601464b2767626fceba9578bfc6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 26/32] fix: substitution into a contains-list prefers the
 position where the value is valid

---
 d42/substitution/_substitutor.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 17f19d5..a107214 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -35,6 +35,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                  formatter: Optional[Formatter] = None) -> None:
         self._validator = validator or SubstitutorValidator()
         self._formatter = formatter or Formatter()
+        self._strict_validator = Validator()
 
     @property
     def validator(self) -> Validator:
@@ -50,6 +51,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         except ValueError:
             raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
+    def _is_valid(self, schema: GenericSchema, value: Any) -> bool:
+        return not schema.__accept__(self._strict_validator, value=value).has_errors()
+
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
             return cast(GenericSchema, substitute_method(self, value=value, **kwargs))
@@ -144,14 +148,21 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         # body
         if (len(elements) > 2) and is_ellipsis(elements[0]) and is_ellipsis(elements[-1]):
+            candidates = []
             for index, val in enumerate(value):
                 try:
                     substituted = self._substitute_elements(value, elements[1:-1], index, **kwargs)
                 except SubstitutionError:
                     pass
                 else:
-                    return schema.__class__(schema.props.update(elements=substituted))
-            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into any position")
+                    candidate = schema.__class__(schema.props.update(elements=substituted))
+                    if self._is_valid(candidate, value):
+                        return candidate
+                    candidates.append(candidate)
+            # a position where only a part of the value fits, unless the whole value fits elsewhere
+            if len(candidates) == 0 or self._is_valid(schema, value):
+                raise SubstitutionError(f"Can't substitute {safe_repr(value)} into any position")
+            return candidates[0]
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
-- 
2.43.0


From d297b7af98e635fd3bdf5c12c5b0155bd98fdcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 27/32] fix: substitution into any does not drop the only
 alternative the value is valid for

---
 d42/substitution/_substitutor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index a107214..32850b0 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -232,7 +232,11 @@ class Substitutor(SchemaVisitor[GenericSchema]):
             if len(types) == 0:
                 raise SubstitutionError(
                     f"Can't substitute {safe_repr(value)} into any alternative")
-        return schema.__class__(schema.props.update(types=tuple(types)))
+        res = schema.__class__(schema.props.update(types=tuple(types)))
+        if self._is_valid(schema, value) and not self._is_valid(res, value):
+            raise SubstitutionError(
+                f"Can't substitute {safe_repr(value)} into the alternative it is valid for")
+        return res
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
         result = schema.__accept__(self._validator, value=value)
-- 
2.43.0


From 5714fbabfb8d472c7f527e21fef08e4bcc9d9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 28/32] fix: represent the declared len of an empty list schema

---
 d42/representation/_representor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index 03fa8bc..41ea0ab 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -125,8 +125,6 @@ class Representor(SchemaVisitor[str]):
         if schema.props.type is not Nil:
             r += "({})".format(schema.props.type.__accept__(self, indent=indent, **kwargs))
         elif schema.props.elements is not Nil:
-            if len(schema.props.elements) == 0:
-                return r + "([])"
             elems = []
             for element in schema.props.elements:
                 if is_ellipsis(element):
@@ -134,9 +132,12 @@ class Representor(SchemaVisitor[str]):
                 else:
                     elem = element.__accept__(self, indent=indent + self._indent, **kwargs)
                 elems.append(" " * (indent + self._indent) + elem)
-            r += "([\n"
-            r += ",\n".join(elems)
-            r += "\n" + " " * indent + "])"
+            if len(elems) == 0:
+                r += "([])"
+            else:
+                r += "([\n"
+                r += ",\n".join(elems)
+                r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
             r += f".len({schema.props.len!r})"
-- 
2.43.0


From 91e4243a1d6e860b36aa17e251c44df37af4907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 29/32] fix: refuse patterns with incompatible flags with
 DeclarationError

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 990fd4e..6b92dbc 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except (re.error, OverflowError, RecursionError) as e:
+        except (re.error, ValueError, OverflowError, RecursionError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 69bc3fff07a6bba0506d2e7258004449d64946b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 30/32] fix: represent huge lengths

---
 d42/representation/_representor.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index 41ea0ab..cf2c5a8 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -109,13 +109,14 @@ class Representor(SchemaVisitor[str]):
             r += f".regex({schema.props.pattern!r})"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({self._represent_value(schema.props.min_len)}, "
+            r += f"{self._represent_value(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._represent_value(schema.props.max_len)})"
 
         return r
 
@@ -140,13 +141,14 @@ class Representor(SchemaVisitor[str]):
                 r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({self._represent_value(schema.props.min_len)}, "
+            r += f"{self._represent_value(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._represent_value(schema.props.max_len)})"
 
         return r
 
-- 
2.43.0


From 278cddb43b45a7983c101e4de1470a10857b4040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 31/32] fix: refuse constraints of str schemas that cannot be
 represented with DeclarationError

---
 d42/declaration/types/_str_schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 6b92dbc..7ddc5ef 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -6,6 +6,7 @@ from niltype import Nil, Nilable
 
 from .._is_ellipsis import TypeOrEllipsis, is_ellipsis
 from .._props import Props
+from .._safe_repr import safe_repr
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
 from ..errors import (
@@ -150,7 +151,7 @@ class StrSchema(Schema[StrProps]):
         if self.props.value is not Nil:
             missing_letters = {x for x in self.props.value if x not in letters}
             if len(missing_letters) > 0:
-                message = f"`{self!r}` alphabet is missing letters: "
+                message = f"`{safe_repr(self)}` alphabet is missing letters: "
                 message += repr("".join(sorted(missing_letters)))
                 raise DeclarationError(message)
 
@@ -168,7 +169,7 @@ class StrSchema(Schema[StrProps]):
 
         if self.props.value is not Nil:
             if substr not in self.props.value:
-                message = f"`{self!r}` does not contain {substr!r}"
+                message = f"`{safe_repr(self)}` does not contain {substr!r}"
                 raise DeclarationError(message)
 
         return self.__class__(self.props.update(substr=substr))
@@ -190,7 +191,7 @@ class StrSchema(Schema[StrProps]):
 
         if self.props.value is not Nil:
             if re.search(pattern, self.props.value) is None:
-                message = f"`{self!r}` does not match {pattern!r}"
+                message = f"`{safe_repr(self)}` does not match {pattern!r}"
                 raise DeclarationError(message)
 
         return self.__class__(self.props.update(pattern=pattern))
-- 
2.43.0


From cf4e78c11ab4768a3f93e35f75dbfd3a15a4187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 32/32] fix: compare each declared property once

comparing in both directions at every level took time exponential in depth
---
 d42/declaration/_props.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index aae6e6f..d8985cd 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -57,6 +57,8 @@ class Props:
                 return False
 
         for key, other_val in other._registry.items():
+            if key in self._registry:  # already compared
+                continue
             val = self.get(key)
             if not _is_equal(other_val, val):
                 return False
-- 
2.43.0

