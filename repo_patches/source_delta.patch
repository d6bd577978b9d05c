From 8041c1d846073276298d7c0034a61de0da374ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 01/39] fix: ListConfig.insert with a negative or out of range
 index

A negative index lost an element (and a failing insert deleted one), an index
beyond the end failed and left the placeholder behind.
---
 omegaconf/listconfig.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 20a8f81..ea5901f 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -1,5 +1,6 @@
 import copy
 import itertools
+import operator
 from typing import (
     Any,
     Callable,
@@ -322,8 +323,15 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot insert into missing ListConfig")
 
+            assert isinstance(self.__dict__["_content"], list)
+            # normalize the index like list.insert() does
+            index = operator.index(index)
+            if index < 0:
+                index = max(0, len(self.__dict__["_content"]) + index)
+            else:
+                index = min(index, len(self.__dict__["_content"]))
+
             try:
-                assert isinstance(self.__dict__["_content"], list)
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
                 is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-- 
2.43.0


From 26b8b83894062e35b0bcb7521cb132f23723b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 02/39] fix: ListConfig slices follow list slicing for all
 start, stop and step values

---
 omegaconf/listconfig.py | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index ea5901f..62d9dfc 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -1,5 +1,4 @@
 import copy
-import itertools
 import operator
 from typing import (
     Any,
@@ -201,16 +200,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert isinstance(self.__dict__["_content"], list)
             if isinstance(index, slice):
                 result = []
-                start, stop, step = self._correct_index_params(index)
-                for slice_idx in itertools.islice(
-                    range(0, len(self)), start, stop, step
-                ):
+                for slice_idx in range(*index.indices(len(self))):
                     val = self._resolve_with_default(
                         key=slice_idx, value=self.__dict__["_content"][slice_idx]
                     )
                     result.append(val)
-                if index.step and index.step < 0:
-                    result.reverse()
                 return result
             else:
                 return self._resolve_with_default(
@@ -219,31 +213,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         except Exception as e:
             self._format_and_raise(key=index, value=None, cause=e)
 
-    def _correct_index_params(self, index: slice) -> Tuple[int, int, int]:
-        start = index.start
-        stop = index.stop
-        step = index.step
-        if index.start and index.start < 0:
-            start = self.__len__() + index.start
-        if index.stop and index.stop < 0:
-            stop = self.__len__() + index.stop
-        if index.step and index.step < 0:
-            step = abs(step)
-            if start and stop:
-                if start > stop:
-                    start, stop = stop + 1, start + 1
-                else:
-                    start = stop = 0
-            elif not start and stop:
-                start = list(range(self.__len__() - 1, stop, -step))[0]
-                stop = None
-            elif start and not stop:
-                stop = start + 1
-                start = (stop - 1) % step
-            else:
-                start = (self.__len__() - 1) % step
-        return start, stop, step
-
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
         self._set_item_impl(index, value)
 
-- 
2.43.0


From 7e7393d4c35a99199c0aeed48f9c225aecbb06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 03/39] fix: ListConfig.sort updates the keys of the moved
 elements

---
 omegaconf/listconfig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 62d9dfc..3ce061b 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -482,6 +482,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
             assert isinstance(self.__dict__["_content"], list)
             self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            self._update_keys()
 
         except Exception as e:
             self._format_and_raise(key=None, value=None, cause=e)
-- 
2.43.0


From cb1213ba7b96a26f57de9a0cd3c616b735227e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 04/39] fix: an integer too large for a float raises
 ValidationError in FloatNode

---
 omegaconf/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/nodes.py b/omegaconf/nodes.py
index c3f7ba6..462d1f5 100644
--- a/omegaconf/nodes.py
+++ b/omegaconf/nodes.py
@@ -340,7 +340,7 @@ class FloatNode(ValueNode):
                 return float(value)
             else:
                 raise ValueError()
-        except ValueError:
+        except (ValueError, OverflowError):
             raise ValidationError(
                 "Value '$VALUE' of type '$VALUE_TYPE' could not be converted to Float"
             )
-- 
2.43.0


From 1080d8f1a5c2a010a2e052b294d1413e43cafc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 05/39] fix: changing a flag above a union node invalidates the
 flags cache of its content

---
 omegaconf/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 39667d9..43a773d 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -918,6 +918,12 @@ class UnionNode(Box):
                     f"Value '$VALUE' of type '$VALUE_TYPE' is incompatible with type hint '{type_str(type_hint)}'"
                 )
 
+    def _invalidate_flags_cache(self) -> None:
+        super()._invalidate_flags_cache()
+        content = self.__dict__["_content"]
+        if isinstance(content, Node):
+            content._invalidate_flags_cache()
+
     def _is_optional(self) -> bool:
         return self.__dict__["_metadata"].optional is True
 
-- 
2.43.0


From 34cf47391487f78723bacdbfdd128f0f3ac8ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 06/39] fix: merging None, an interpolation or a list respects
 the read-only flag of the target

---
 omegaconf/basecontainer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 14e8667..0ea3104 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -315,6 +315,8 @@ class BaseContainer(Container, ABC):
         #  - None => set the destination DictConfig to None
         #  - an interpolation => set the destination DictConfig to be the same interpolation
         if src._is_none() or src._is_interpolation():
+            if dest._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot merge into read-only node")
             dest._set_value(src._value())
             _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
             return
@@ -322,6 +324,8 @@ class BaseContainer(Container, ABC):
         dest._validate_merge(value=src)
 
         def expand(node: Container) -> None:
+            if node._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot merge into read-only node")
             rt = node._metadata.ref_type
             val: Any
             if rt is not Any:
@@ -451,6 +455,9 @@ class BaseContainer(Container, ABC):
         assert isinstance(dest, ListConfig)
         assert isinstance(src, ListConfig)
 
+        if not src._is_missing() and dest._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot merge into read-only node")
+
         if src._is_none():
             dest._set_value(None)
         elif src._is_missing():
-- 
2.43.0


From d9d367dff28bf24117866b3859627b547e6234d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 07/39] fix: OmegaConf.resolve does not modify read-only
 containers

---
 omegaconf/_impl.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 49be303..5f17d3d 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,7 +1,11 @@
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
-from omegaconf.errors import ConfigTypeError, InterpolationToMissingValueError
+from omegaconf.errors import (
+    ConfigTypeError,
+    InterpolationToMissingValueError,
+    ReadonlyConfigError,
+)
 from omegaconf.nodes import InterpolationResultNode
 
 from ._utils import (
@@ -13,6 +17,16 @@ from ._utils import (
 )
 
 
+def _set_resolved_value(node: Node, value: Any) -> None:
+    if isinstance(node, Container) and node._get_flag("readonly"):
+        node._format_and_raise(
+            key=None,
+            value=value,
+            cause=ReadonlyConfigError("Cannot resolve read-only config node"),
+        )
+    node._set_value(value)
+
+
 def _resolve_container_value(cfg: Container, key: Any) -> None:
     node = cfg._get_child(key)
     assert isinstance(node, Node)
@@ -20,7 +34,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
         try:
             resolved = node._dereference_node()
         except InterpolationToMissingValueError:
-            node._set_value(MISSING)
+            _set_resolved_value(node, MISSING)
         else:
             if isinstance(resolved, Container):
                 _resolve(resolved)
@@ -33,7 +47,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
             if isinstance(resolved, Container) and isinstance(node, ValueNode):
                 cfg[key] = resolved
             else:
-                node._set_value(_get_value(resolved))
+                _set_resolved_value(node, _get_value(resolved))
     else:
         _resolve(node)
 
@@ -44,9 +58,9 @@ def _resolve(cfg: Node) -> Node:
         try:
             resolved = cfg._dereference_node()
         except InterpolationToMissingValueError:
-            cfg._set_value(MISSING)
+            _set_resolved_value(cfg, MISSING)
         else:
-            cfg._set_value(resolved._value())
+            _set_resolved_value(cfg, resolved._value())
 
     if isinstance(cfg, DictConfig):
         for k in cfg.keys():
-- 
2.43.0


From c638d8009258072115910a48d4819720f9c8e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 08/39] fix: quote all strings that the YAML loader would read
 as floats

'1._e3' was dumped unquoted and came back as 1000.0.
---
 omegaconf/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 57d0ef4..4728b19 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -117,7 +117,10 @@ class OmegaConfDumper(BaseDumper):  # type: ignore
 
     @staticmethod
     def str_representer(dumper: yaml.Dumper, data: str) -> yaml.ScalarNode:
-        with_quotes = yaml_is_bool(data) or is_int(data) or is_float(data)
+        # the loader ignores underscores in floats, also where python does not
+        with_quotes = (
+            yaml_is_bool(data) or is_int(data) or is_float(data.replace("_", ""))
+        )
         return dumper.represent_scalar(
             yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG,
             data,
-- 
2.43.0


From 369855d8387e0ba67166bc70664cf4a69d68a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 09/39] fix: full key of a container held by a list

_get_full_key(None) gave 'l0' for the container at l[0].
---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 0ea3104..347731c 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -803,7 +803,7 @@ class BaseContainer(Container, ABC):
             cur = self
             if cur._key() is None:
                 return ""
-            full_key = self._key()
+            full_key = prepand("", type(cur._get_parent()), type(cur), cur._key())
 
         assert cur is not None
         memo = {id(cur)}  # remember already visited nodes so as to detect cycles
-- 
2.43.0


From 5c2d4ec1208d50ebb8eccf40821e99054ba8edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 10/39] fix: ListConfig.insert of a node does not modify that
 node

The key and parent of the inserted node itself were overwritten, which
detached a node that was part of a config from its place.
---
 omegaconf/listconfig.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 3ce061b..393e2b0 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -304,13 +304,15 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 # insert place holder
                 self.__dict__["_content"].insert(index, None)
                 is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-                node = _maybe_wrap(
-                    ref_type=ref_type,
-                    key=index,
-                    value=item,
-                    is_optional=is_optional,
-                    parent=self,
-                )
+                node = item
+                if not isinstance(item, Node):
+                    node = _maybe_wrap(
+                        ref_type=ref_type,
+                        key=index,
+                        value=item,
+                        is_optional=is_optional,
+                        parent=self,
+                    )
                 self._validate_set(key=index, value=node)
                 self._set_at_index(index, node)
                 self._update_keys()
-- 
2.43.0


From d4a6fccc9bffda8e6fddc0da1dfe65a860fc0caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 11/39] fix: assigning to a negative list index gives the
 element the right key

---
 omegaconf/listconfig.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 393e2b0..f1252e6 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -214,6 +214,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=index, value=None, cause=e)
 
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
+        if isinstance(index, int) and -len(self) <= index < 0:
+            # the key of the element is its position
+            index += len(self)
         self._set_item_impl(index, value)
 
     def __setitem__(self, index: Union[int, slice], value: Any) -> None:
-- 
2.43.0


From 33f5f6ff8e7caa169c628066fb1019341834ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 12/39] fix: extending a None or missing list in a merge

---
 omegaconf/basecontainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 347731c..4d186ee 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -482,6 +482,10 @@ class BaseContainer(Container, ABC):
                 for item in src._iter_ex(resolve=False):
                     temp_target.append(item)
 
+            if not isinstance(dest.__dict__["_content"], list):
+                # None or missing: there is nothing to extend.
+                list_merge_mode = ListMergeMode.REPLACE
+
             if list_merge_mode == ListMergeMode.EXTEND:
                 dest.__dict__["_content"].extend(temp_target.__dict__["_content"])
             elif list_merge_mode == ListMergeMode.EXTEND_UNIQUE:
-- 
2.43.0


From 588926c4386cb9bb72e9c4e8ac5e5a70f00b4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 13/39] fix: elements added by an extending list merge get the
 right keys

---
 omegaconf/basecontainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 4d186ee..e6bffe0 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -494,6 +494,7 @@ class BaseContainer(Container, ABC):
                         dest.__dict__["_content"].append(entry)
             else:  # REPLACE (default)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
+            dest._update_keys()
 
         # explicit flags on the source config are replacing the flag values in the destination
         flags = src._metadata.flags
-- 
2.43.0


From 6f25ceb325423e093fbc583662c16fdad5da577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 14/39] fix: merging a list into an untyped ListConfig that is
 None

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index e6bffe0..5e6239a 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -338,7 +338,7 @@ class BaseContainer(Container, ABC):
             elif isinstance(node, DictConfig):
                 val = {}
             else:
-                assert False
+                val = []
 
             node._set_value(val)
 
-- 
2.43.0


From 97aad6a28b63c97b8c1cd9139da0df1289dcb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 15/39] fix: extending a ListConfig by itself does not loop
 forever

---
 omegaconf/listconfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index f1252e6..52be3d1 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -329,7 +329,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def extend(self, lst: Iterable[Any]) -> None:
         assert isinstance(lst, (tuple, list, ListConfig))
-        for x in lst:
+        # iterate over a copy, lst may be self
+        for x in list(lst):
             self.append(x)
 
     def remove(self, x: Any) -> None:
-- 
2.43.0


From c18c7694427951ed85df173c1fa3fd1e656bc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 16/39] fix: a config container is not accepted as a new
 element of a primitive or union type

Appending or merging a DictConfig or ListConfig to List[int] or Dict[str, int]
was accepted without validation.
---
 omegaconf/basecontainer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 5e6239a..90e936c 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -28,6 +28,7 @@ from ._utils import (
     is_structured_config,
     is_tuple_annotation,
     is_union_annotation,
+    type_str,
 )
 from .base import (
     Box,
@@ -649,6 +650,11 @@ class BaseContainer(Container, ABC):
                     or is_union_annotation(target_ref_type)
                 ):
                     value = _get_value(value)
+                    if isinstance(value, Container):
+                        raise ValidationError(
+                            "Cannot assign container '$VALUE' of type '$VALUE_TYPE'"
+                            f" to {type_str(target_type_hint)}"
+                        )
                     self._wrap_value_and_set(key, value, target_type_hint)
                 else:
                     assign(key, value)
-- 
2.43.0


From 7714a0cf34545c0ca400c081a1a2a510c8052b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 17/39] fix: a bool node is not accepted as an element of type
 int

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 90e936c..c37e548 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -928,7 +928,9 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
     elif vk == ValueKind.VALUE:
         if is_primitive_type_annotation(ref_type) and isinstance(node, ValueNode):
             value = node._value()
-            if not isinstance(value, ref_type):
+            if not isinstance(value, ref_type) or (
+                ref_type is int and isinstance(value, bool)
+            ):
                 raise ValidationError(
                     f"Value {value!r} ({type(value).__name__})"
                     + f" is incompatible with type hint '{ref_type.__name__}'"
-- 
2.43.0


From dcddce3af898a9d80d470bac5b3653bf2c425a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 18/39] fix: elements of an untyped config assigned to a typed
 container stay typed

The elements remained AnyNodes, later assignments to them were not validated.
---
 omegaconf/basecontainer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index c37e548..07fc161 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -896,6 +896,8 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
 
 def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) -> None:
     """Get node[key] and ensure it is compatible with value_type_hint, mutating if necessary."""
+    from omegaconf import AnyNode
+
     subnode = node._get_node(key)
     assert isinstance(subnode, Node)
     if _is_special(subnode):
@@ -905,6 +907,9 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
         subnode = node._get_node(key)
         assert isinstance(subnode, Node)
     _deep_update_type_hint(subnode, value_type_hint)
+    if isinstance(subnode, AnyNode) and value_type_hint is not Any:
+        # An AnyNode would accept values of any type in later assignments.
+        node._wrap_value_and_set(key, subnode._value(), value_type_hint)
 
 
 def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
-- 
2.43.0


From 697504ce8e08e7d15c7a58524e9bd9b28a1fd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:04 +0000
Subject: [PATCH 19/39] fix: an untyped or other DictConfig is not accepted as
 a new element of a structured config type

---
 omegaconf/basecontainer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 07fc161..fbe9129 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -941,7 +941,12 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
-            return
+            object_type = node._metadata.object_type
+            if not (isinstance(object_type, type) and issubclass(object_type, ref_type)):
+                raise ValidationError(
+                    f"Invalid type assigned: {type_str(object_type)} is not a "
+                    f"subclass of {type_str(ref_type)}. value: {node}"
+                )
         elif is_dict_annotation(ref_type) and isinstance(node, DictConfig):
             return
         elif is_list_annotation(ref_type) and isinstance(node, ListConfig):
-- 
2.43.0


From f387fb801229fe0bfbb5c3ba21c19336c0e4b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 20/39] fix: containers with union typed elements can be
 assigned to places of the same type

---
 omegaconf/basecontainer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index fbe9129..99778d3 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -900,10 +900,13 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
 
     subnode = node._get_node(key)
     assert isinstance(subnode, Node)
-    if _is_special(subnode):
-        # Ensure special values are wrapped in a Node subclass that
-        # is compatible with the type hint.
-        node._wrap_value_and_set(key, subnode._value(), value_type_hint)
+    _, ref_type = _resolve_optional(value_type_hint)
+    if _is_special(subnode) or (
+        is_union_annotation(ref_type) and not isinstance(subnode, Container)
+    ):
+        # Ensure special values and values of union type are wrapped in a Node
+        # subclass that is compatible with the type hint.
+        node._wrap_value_and_set(key, _get_value(subnode), value_type_hint)
         subnode = node._get_node(key)
         assert isinstance(subnode, Node)
     _deep_update_type_hint(subnode, value_type_hint)
@@ -947,6 +950,12 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     f"Invalid type assigned: {type_str(object_type)} is not a "
                     f"subclass of {type_str(ref_type)}. value: {node}"
                 )
+        elif (
+            is_union_annotation(ref_type)
+            and isinstance(node, UnionNode)
+            and node._metadata.ref_type == ref_type
+        ):
+            return
         elif is_dict_annotation(ref_type) and isinstance(node, DictConfig):
             return
         elif is_list_annotation(ref_type) and isinstance(node, ListConfig):
-- 
2.43.0


From 595db69f96ece8b10065dd46d3d0ec6ebd3e0e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 21/39] fix: merging into a None mapping, as done by
 OmegaConf.update

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 99778d3..9cd4307 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -356,7 +356,9 @@ class BaseContainer(Container, ABC):
                 ref_type=src_ref_type, object_type=src_type
             )
 
-        if (dest._is_interpolation() or dest._is_missing()) and not src._is_missing():
+        if (
+            dest._is_none() or dest._is_interpolation() or dest._is_missing()
+        ) and not src._is_missing():
             expand(dest)
 
         src_items = list(src) if not src._is_missing() else []
-- 
2.43.0


From 6b5a6a3e8cd1144ea6f69081a110ded484efcdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 22/39] fix: a missing value in a merge leaves an interpolation
 to a container untouched

The interpolation was replaced by a copy of the container it refers to.
---
 omegaconf/basecontainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 9cd4307..8b608b9 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -383,7 +383,11 @@ class BaseContainer(Container, ABC):
             ):
                 expand(dest_node)
 
-            if dest_node is not None and dest_node._is_interpolation():
+            if (
+                dest_node is not None
+                and dest_node._is_interpolation()
+                and not src_node_missing
+            ):
                 target_node = dest_node._maybe_dereference_node()
                 if isinstance(target_node, Container):
                     dest[key] = target_node
-- 
2.43.0


From 75124f1c25ea34deebd15d0342333940aaf9fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 23/39] fix: selecting below a missing container

OmegaConf.select(cfg, 'inner.x') raised AttributeError when inner is a missing
DictConfig; now the default (or None) is returned, as for any absent path.
---
 omegaconf/omegaconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index db65eca..b5b9dab 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -1132,7 +1132,7 @@ def _select_one(
 
     ret_key: Union[str, int] = key
     assert isinstance(c, Container), f"Unexpected type: {c}"
-    if c._is_none():
+    if c._is_none() or c._is_missing():
         return None, ret_key
 
     if isinstance(c, DictConfig):
-- 
2.43.0


From 11367cc258717a1ea802651ae0c3d3c46ed6cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 24/39] fix: iterating a list with a union element type yields
 the values

The internal UnionNode objects were returned instead.
---
 omegaconf/listconfig.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 52be3d1..b2253ff 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -16,6 +16,7 @@ from typing import (
 
 from ._utils import (
     ValueKind,
+    _get_value,
     _is_missing_literal,
     _is_none,
     _resolve_optional,
@@ -26,7 +27,7 @@ from ._utils import (
     is_structured_config,
     type_str,
 )
-from .base import Box, ContainerMetadata, Node
+from .base import Box, ContainerMetadata, Node, UnionNode
 from .basecontainer import BaseContainer
 from .errors import (
     ConfigAttributeError,
@@ -535,6 +536,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self.index = self.index + 1
             if isinstance(x, self.ValueNode):
                 return x._value()
+            elif self.resolve and isinstance(x, UnionNode):
+                return _get_value(x)
             else:
                 # Must be omegaconf.Container. not checking for perf reasons.
                 if x._is_none():
-- 
2.43.0


From 39e76643cdbbf464f7954ab548a2bafc1b1e0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 25/39] fix: sorting lists of unions, and a failing
 ListConfig.sort leaves the list as it was

---
 omegaconf/listconfig.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index b2253ff..340845d 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -477,18 +477,26 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot sort a missing ListConfig")
 
+            def node_value(x: Any) -> Any:
+                x = x._value()
+                # the value of a UnionNode is a node
+                return x._value() if isinstance(x, Node) else x
+
             if key is None:
 
                 def key1(x: Any) -> Any:
-                    return x._value()
+                    return node_value(x)
 
             else:
 
                 def key1(x: Any) -> Any:
-                    return key(x._value())
+                    return key(node_value(x))
 
             assert isinstance(self.__dict__["_content"], list)
-            self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            # sort a copy: list.sort can leave the list modified when it raises
+            self.__dict__["_content"] = sorted(
+                self.__dict__["_content"], key=key1, reverse=reverse
+            )
             self._update_keys()
 
         except Exception as e:
-- 
2.43.0


From 0416bf0ccee2f1e18c4ba18b34492180a89c5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 26/39] fix: ListConfig.reverse of a list that holds containers

---
 omegaconf/listconfig.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 340845d..b50c0d1 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -503,6 +503,25 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=None, value=None, cause=e)
             assert False
 
+    def reverse(self) -> None:
+        # not inherited: MutableSequence.reverse swaps elements by assignment, which
+        # modifies container elements in place
+        try:
+            if self._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot reverse a read-only ListConfig")
+            if self._is_none():
+                raise TypeError("Cannot reverse a ListConfig object representing None")
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot reverse a missing ListConfig")
+
+            assert isinstance(self.__dict__["_content"], list)
+            self.__dict__["_content"].reverse()
+            self._update_keys()
+
+        except Exception as e:
+            self._format_and_raise(key=None, value=None, cause=e)
+            assert False
+
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, (list, tuple)) or other is None:
             other = ListConfig(other, flags={"allow_objects": True})
-- 
2.43.0


From 5e4bee9a27b3d243518fef340809818d1d9c230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 27/39] fix: malformed interpolations accepted by the fast path
 of the grammar

---
 omegaconf/grammar_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index 423a1ae..458f839 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -24,13 +24,14 @@ _config_key = r"[$\w]+"  # foo, $0, $bar, $foo_$bar123$
 _key_maybe_brackets = f"{_config_key}|\\[{_config_key}\\]"  # foo, [foo], [$bar]
 _node_access = f"\\.{_key_maybe_brackets}"  # .foo, [foo], [$bar]
 _node_path = f"(\\.)*({_key_maybe_brackets})({_node_access})*"  # [foo].bar, .foo[bar]
-_node_inter = f"\\${{\\s*{_node_path}\\s*}}"  # node interpolation ${foo.bar}
+_ws = "[ \\t]*"  # optional whitespace (only spaces and tabs, as in the grammar)
+_node_inter = f"\\${{{_ws}{_node_path}{_ws}}}"  # node interpolation ${foo.bar}
 _id = "[a-zA-Z_][\\w\\-]*"  # foo, foo_bar, foo-bar, abc123
-_resolver_name = f"({_id}(\\.{_id})*)?"  # foo, ns.bar3, ns_1.ns_2.b0z
+_resolver_name = f"{_id}(\\.{_id})*"  # foo, ns.bar3, ns_1.ns_2.b0z
 _arg = r"[a-zA-Z_0-9/\-\+.$%*@?|]+"  # string representing a resolver argument
-_args = f"{_arg}(\\s*,\\s*{_arg})*"  # list of resolver arguments  # noqa: E231
+_args = f"{_arg}({_ws},{_ws}{_arg})*"  # list of resolver arguments  # noqa: E231
 _resolver_inter = (
-    f"\\${{\\s*{_resolver_name}\\s*:\\s*{_args}?\\s*}}"  # ${foo:bar}  # noqa: E231
+    f"\\${{{_ws}{_resolver_name}{_ws}:{_ws}{_args}?{_ws}}}"  # ${foo:bar}  # noqa: E231
 )
 _inter = f"({_node_inter}|{_resolver_inter})"  # any kind of interpolation
 _outer = "([^$]|\\$(?!{))+"  # any character except $ (unless not followed by {)
-- 
2.43.0


From 47a884b1d8531cb151521ed06884abc3ce3444e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 28/39] fix: a missing ListConfig is not equal to an empty one

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index b50c0d1..4ca7a94 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -686,6 +686,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         assert isinstance(l2, ListConfig)
         if len(l1) != len(l2):
             return False
+        if l1._is_missing() or l2._is_missing():
+            return l1._is_missing() is l2._is_missing()
         for i in range(len(l1)):
             if not BaseContainer._item_eq(l1, i, l2, i):
                 return False
-- 
2.43.0


From d77b6fd24305a3f0af702b94f21b6d36ba61590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 29/39] fix: resolving an interpolation to a tuple

---
 omegaconf/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 4728b19..0cb3b7b 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -958,7 +958,7 @@ def _ensure_container(target: Any, flags: Optional[Dict[str, bool]] = None) -> A
     from omegaconf import OmegaConf
 
     if is_primitive_container(target):
-        assert isinstance(target, (list, dict))
+        assert isinstance(target, (list, tuple, dict))
         target = OmegaConf.create(target, flags=flags)
     elif is_structured_config(target):
         target = OmegaConf.structured(target, flags=flags)
-- 
2.43.0


From 046a530571a4769fe0dfe4fbd3acd2b01a62fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 30/39] fix: the value of a read-only union node cannot be
 changed

As for value nodes, assigning to a union node that is read-only itself raises
ReadonlyConfigError.
---
 omegaconf/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 43a773d..2e65525 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -29,6 +29,7 @@ from .errors import (
     InterpolationToMissingValueError,
     InterpolationValidationError,
     MissingMandatoryValue,
+    ReadonlyConfigError,
     UnsupportedInterpolationType,
     ValidationError,
 )
@@ -811,6 +812,8 @@ class UnionNode(Box):
         key: Any = None,
         parent: Optional[Box] = None,
     ) -> None:
+        from omegaconf import read_write
+
         try:
             if not is_union_annotation(ref_type):  # pragma: no cover
                 msg = (
@@ -830,7 +833,8 @@ class UnionNode(Box):
                     flags={"convert": False},
                 ),
             )
-            self._set_value(content)
+            with read_write(self):
+                self._set_value(content)
         except Exception as ex:
             format_and_raise(node=None, key=key, value=content, msg=str(ex), cause=ex)
 
@@ -870,6 +874,9 @@ class UnionNode(Box):
         return content
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        if self._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot set value of read-only config node")
+
         previous_content = self.__dict__["_content"]
         previous_metadata = self.__dict__["_metadata"]
         try:
-- 
2.43.0


From ae11b290906365e46fb604ef81ed6d5c3e2ee231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 31/39] fix: a failing assignment of a config restores flags
 and object type

DictConfig._set_value and ListConfig._set_value restored the content only when
the new value was rejected half way through.
---
 omegaconf/dictconfig.py | 7 ++++++-
 omegaconf/listconfig.py | 9 ++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 11b2e70..8d46c89 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -637,11 +637,16 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         self._metadata.object_type = object_type
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        previous_object_type = self._metadata.object_type
+        previous_flags = self._metadata.flags
         try:
-            previous_content = self.__dict__["_content"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
+            self._metadata.object_type = previous_object_type
+            self._metadata.flags = previous_flags
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 4ca7a94..81ba581 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -622,13 +622,16 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         return False
 
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
+        previous_content = self.__dict__["_content"]
+        previous_object_type = self._metadata.object_type
+        previous_flags = self._metadata.flags
         try:
-            previous_content = self.__dict__["_content"]
-            previous_metadata = self.__dict__["_metadata"]
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
-            self.__dict__["_metadata"] = previous_metadata
+            self._metadata.object_type = previous_object_type
+            self._metadata.flags = previous_flags
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
-- 
2.43.0


From 34f425eeb5a9823399ea0a0c9ff0150ae237aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 32/39] fix: stale flags below a container after a failing
 assignment

The flags cache of the restored elements was not invalidated with the one of
their container, later flag changes above did not reach them.
---
 omegaconf/dictconfig.py | 1 +
 omegaconf/listconfig.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 8d46c89..95afc54 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -640,6 +640,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         previous_content = self.__dict__["_content"]
         previous_object_type = self._metadata.object_type
         previous_flags = self._metadata.flags
+        self._invalidate_flags_cache()
         try:
             self._set_value_impl(value, flags)
         except Exception as e:
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 81ba581..2ef07ae 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -625,6 +625,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         previous_content = self.__dict__["_content"]
         previous_object_type = self._metadata.object_type
         previous_flags = self._metadata.flags
+        self._invalidate_flags_cache()
         try:
             self._set_value_impl(value, flags)
         except Exception as e:
-- 
2.43.0


From 504570486cf7a6851c1d4aae6a6a241770e94616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 33/39] fix: configs do not share the flags table they are
 created with

Two configs created with the same flags argument, or a missing structured config
and its copy, shared one table: changing a flag of one changed the other.
---
 omegaconf/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 2e65525..8c96502 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -64,8 +64,8 @@ class Metadata:
     resolver_cache: Dict[str, Any] = field(default_factory=lambda: defaultdict(dict))
 
     def __post_init__(self) -> None:
-        if self.flags is None:
-            self.flags = {}
+        # the flags are modified in place, do not share them with the caller
+        self.flags = {} if self.flags is None else dict(self.flags)
 
     @property
     def type_hint(self) -> Union[Type[Any], Any]:
@@ -94,8 +94,8 @@ class ContainerMetadata(Metadata):
                     f"Unsupported value type: '{type_str(self.element_type, include_module_name=True)}'"
                 )
 
-        if self.flags is None:
-            self.flags = {}
+        # the flags are modified in place, do not share them with the caller
+        self.flags = {} if self.flags is None else dict(self.flags)
 
 
 class Node(ABC):
-- 
2.43.0


From 926e7bdf3b63c84503aa2b80057642d941e33357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 34/39] fix: merging a missing typed list checks the elements
 of the target and keeps read-only targets as they are

---
 omegaconf/basecontainer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 8b608b9..2a19fe0 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -469,8 +469,12 @@ class BaseContainer(Container, ABC):
             dest._set_value(None)
         elif src._is_missing():
             # do not change dest if src is MISSING.
-            if dest._metadata.element_type is Any:
-                dest._metadata.element_type = src._metadata.element_type
+            element_type = src._metadata.element_type
+            if dest._metadata.element_type is Any and not dest._get_flag("readonly"):
+                if element_type is not Any:
+                    for i in range(len(dest)):
+                        _deep_update_subnode(dest, i, element_type)
+                dest._metadata.element_type = element_type
         elif src._is_interpolation():
             dest._set_value(src._value())
         else:
-- 
2.43.0


From 8ff40877e22683883fc9bdc263640f0a9020d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 35/39] fix: merging a structured config does not change the
 types of a read-only config

---
 omegaconf/basecontainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 2a19fe0..1b86a27 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -442,7 +442,8 @@ class BaseContainer(Container, ABC):
                 else:
                     dest[key] = src._get_node(key)
 
-        _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
+        if not dest._get_flag("readonly"):
+            _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
 
         # explicit flags on the source config are replacing the flag values in the destination
         flags = src._metadata.flags
-- 
2.43.0


From 945a97e827b6b4115c0de4647545113589213ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 36/39] fix: merging plain data into a config with
 allow_objects no longer sets the flag on the node itself

---
 omegaconf/basecontainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 1b86a27..fb15a66 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -548,7 +548,10 @@ class BaseContainer(Container, ABC):
             my_flags = {}
             if self._get_flag("allow_objects") is True:
                 my_flags = {"allow_objects": True}
-            other = _ensure_container(other, flags=my_flags)
+            if not isinstance(other, BaseContainer):
+                other = _ensure_container(other, flags=my_flags)
+                # the flag is for creating the config, it is not to be merged
+                other._set_flag("allow_objects", None)
 
             if isinstance(self, DictConfig) and isinstance(other, DictConfig):
                 BaseContainer._map_merge(
-- 
2.43.0


From 46e33cbd555471b496e1c1b47b3a847493e4ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 37/39] fix: a config with a broken interpolation is not equal
 to one with a null value

---
 omegaconf/basecontainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index fb15a66..027f4bc 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -740,6 +740,9 @@ class BaseContainer(Container, ABC):
             assert isinstance(ret, bool)
             return ret
         else:
+            # a broken interpolation has no value
+            if dv1 is None or dv2 is None:
+                return False
             dv1 = _get_value(dv1)
             dv2 = _get_value(dv2)
             ret = dv1 == dv2
-- 
2.43.0


From cad341240ac76d555584b48cc13113f03226b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 38/39] fix: an unresolvable interpolation of a typed container
 compared equal to any other one

---
 omegaconf/basecontainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 027f4bc..6b8111d 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -724,7 +724,8 @@ class BaseContainer(Container, ABC):
 
         if v1_inter and v2_inter:
             if dv1 is None or dv2 is None:
-                return v1 == v2
+                # unresolvable: equal only to the same expression
+                return bool(v1._value() == v2._value())
             else:
                 # both are not none, if both are containers compare as container
                 if isinstance(dv1, Container) and isinstance(dv2, Container):
-- 
2.43.0


From ba74d72a237146f040558d1c843efbd93359ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:13 +0000
Subject: [PATCH 39/39] fix: interpolations of a null list and a null mapping
 resolve to equal values

---
 omegaconf/basecontainer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 6b8111d..055072d 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -727,10 +727,6 @@ class BaseContainer(Container, ABC):
                 # unresolvable: equal only to the same expression
                 return bool(v1._value() == v2._value())
             else:
-                # both are not none, if both are containers compare as container
-                if isinstance(dv1, Container) and isinstance(dv2, Container):
-                    if dv1 != dv2:
-                        return False
                 dv1 = _get_value(dv1)
                 dv2 = _get_value(dv2)
                 return dv1 == dv2
-- 
2.43.0

