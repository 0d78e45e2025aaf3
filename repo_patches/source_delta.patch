From ecc1f21a70b8ab8c0734a3168598eefa813c9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 01/23] fix: as-map comparison no longer crashes on lists with
 non-object members

---
 src/koreo/resource_function/reconcile/validate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 221fe67..e11330a 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -104,9 +104,16 @@ def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
 ) -> dict[str, dict] | None:
+    if not isinstance(obj_list, (list, tuple)):
+        return obj_list
+
     if not obj_list:
         return None
 
+    if not all(isinstance(obj, dict) for obj in obj_list):
+        # Can not be keyed; let the comparator report the type mismatch.
+        return obj_list
+
     return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
 
 
-- 
2.43.0


From a773bf9d40d634b4759c98d47386bad5207d3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 02/23] fix: unusable last-applied annotation is treated as
 absent instead of crashing

---
 src/koreo/resource_function/reconcile/__init__.py | 11 ++++++++++-
 src/koreo/resource_function/reconcile/validate.py |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 8c0039f..d9d9121 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -835,7 +835,16 @@ def _extract_last_applied(resource: dict) -> dict | None:
     if not last_applied:
         return None
 
-    return json.loads(last_applied)
+    try:
+        last_applied_value = json.loads(last_applied)
+    except (TypeError, ValueError):
+        # Another actor may have changed it; treat it as absent.
+        return None
+
+    if not isinstance(last_applied_value, dict):
+        return None
+
+    return last_applied_value
 
 
 def _prepare_for_api(obj: dict) -> dict:
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index e11330a..25427ad 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -136,7 +136,7 @@ def _validate_dict_match(
         if key
     }
 
-    if not last_applied_value:
+    if not last_applied_value or not isinstance(last_applied_value, dict):
         last_applied_value = {}
 
     for target_key in target_keys:
@@ -210,6 +210,9 @@ def _validate_list_match(
             ],
         )
 
+    if not isinstance(last_applied_value, (list, tuple)):
+        last_applied_value = None
+
     if last_applied_value:
         last_applied_len = len(last_applied_value)
     else:
-- 
2.43.0


From 721ed3d77445357d800613bd022ee4aa1713f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 03/23] fix: as-set comparison distinguishes booleans from
 numbers

---
 src/koreo/resource_function/reconcile/validate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 25427ad..7b55c33 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -250,8 +250,9 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
         )
 
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        # Python treats `True == 1` and `False == 0`, these are different values.
+        target_set = {(isinstance(value, bool), value) for value in target}
+        actual_set = {(isinstance(value, bool), value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -275,10 +276,10 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
     if not (missing_values or unexpected_values):
         return ResourceMatch(match=True, differences=())
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         return ResourceMatch(match=False, differences=(f"<missing '{missing_value}'>",))
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         return ResourceMatch(
             match=False, differences=(f"<unexpectedly found '{unexpected_value}'>",)
         )
-- 
2.43.0


From dafb09021ba357ac464dcf12d72005eaa8127b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 04/23] fix: absent field meets a null target, avoiding an
 endless patch loop

---
 src/koreo/resource_function/reconcile/validate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 7b55c33..ec67cc2 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -155,6 +155,10 @@ def _validate_dict_match(
 
         else:
             if target_key not in actual:
+                # Merge-patching `null` removes the field, so absence meets it.
+                if target[target_key] is None:
+                    continue
+
                 return ResourceMatch(
                     match=False, differences=[f"<missing '{target_key}' in resource>"]
                 )
-- 
2.43.0


From 4c1c4aaf0d8b54e7916be61442976a6bcbf5df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 05/23] fix: ownerReferences outside metadata are compared like
 any other field

---
 .../resource_function/reconcile/validate.py   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index ec67cc2..806a6a7 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -13,6 +13,7 @@ def validate_match(
     actual,
     last_applied_value=None,
     compare_list_as_set: bool = False,
+    path: tuple[int | str, ...] = (),
 ) -> ResourceMatch:
     """Compare the specified (`target`) state against the actual (`actual`)
     reosurce state. We compare all target fields and ignore anything extra so
@@ -23,7 +24,7 @@ def validate_match(
     match (target, actual):
         # Objects need a special comparator
         case dict(), dict():
-            return _validate_dict_match(target, actual, last_applied_value)
+            return _validate_dict_match(target, actual, last_applied_value, path)
         case dict(), _:
             return ResourceMatch(
                 match=False,
@@ -42,7 +43,7 @@ def validate_match(
                 # already the compare value.
                 return _validate_set_match(target, actual)
 
-            return _validate_list_match(target, actual, last_applied_value)
+            return _validate_list_match(target, actual, last_applied_value, path)
 
         case (list() | tuple(), _):
             return ResourceMatch(
@@ -118,7 +119,10 @@ def _list_to_object(
 
 
 def _validate_dict_match(
-    target: dict, actual: dict, last_applied_value: dict | None = None
+    target: dict,
+    actual: dict,
+    last_applied_value: dict | None = None,
+    path: tuple[int | str, ...] = (),
 ) -> ResourceMatch:
     target_keys = set(target.keys()) - KOREO_DIRECTIVE_KEYS
 
@@ -140,10 +144,9 @@ def _validate_dict_match(
         last_applied_value = {}
 
     for target_key in target_keys:
-        # TODO: At some point, this will appear outside metadata and eventually
-        # cause a problem. Perhaps `_extract_last_applied` should instead
-        # mutate the object for compare?
-        if target_key == "ownerReferences":
+        # Owner references are managed separately; the key is not special
+        # anywhere but within the object's metadata.
+        if target_key == "ownerReferences" and path in ((), ("metadata",)):
             continue
 
         # NOTE: I'm not sure this is correct.
@@ -173,6 +176,7 @@ def _validate_dict_match(
                 last_applied_value=_list_to_object(
                     last_applied_value[target_key], map_keys
                 ),
+                path=(*path, target_key),
             )
         else:
             key_match = validate_match(
@@ -180,6 +184,7 @@ def _validate_dict_match(
                 actual=compare_value,
                 last_applied_value=last_applied_value[target_key],
                 compare_list_as_set=(target_key in compare_list_as_set_keys),
+                path=(*path, target_key),
             )
 
         if not key_match.match:
@@ -194,6 +199,7 @@ def _validate_list_match(
     target: list | tuple,
     actual: list | tuple,
     last_applied_value: list | tuple | None = None,
+    path: tuple[int | str, ...] = (),
 ) -> ResourceMatch:
     if not target and not actual:
         return ResourceMatch(match=True, differences=())
@@ -232,6 +238,7 @@ def _validate_list_match(
             target=target_value,
             actual=actual_value,
             last_applied_value=last_applied_item_value,
+            path=(*path, idx),
         )
         if not item_match.match:
             differences = [f"at index '{idx}'"]
-- 
2.43.0


From 9cef50d99b8afb651e0f1ce809f4a9735fe2a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 06/23] fix: a last-applied annotation in the target is neither
 compared nor recorded

---
 src/koreo/resource_function/reconcile/__init__.py | 5 +++++
 src/koreo/resource_function/reconcile/validate.py | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index d9d9121..22cf7b4 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -850,6 +850,11 @@ def _extract_last_applied(resource: dict) -> dict | None:
 def _prepare_for_api(obj: dict) -> dict:
     prepared = _strip_koreo_directives(obj)
 
+    match prepared:
+        case {"metadata": {"annotations": dict() as annotations}}:
+            # The target may carry one, for instance if copied from a cluster.
+            annotations.pop(LAST_APPLIED_ANNOTATION, None)
+
     dumped = json.dumps(prepared)
 
     if "metadata" not in prepared:
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 806a6a7..173dc26 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -1,6 +1,6 @@
 from typing import NamedTuple, Sequence
 
-from koreo.constants import KOREO_DIRECTIVE_KEYS
+from koreo.constants import KOREO_DIRECTIVE_KEYS, LAST_APPLIED_ANNOTATION
 
 
 class ResourceMatch(NamedTuple):
@@ -149,6 +149,13 @@ def _validate_dict_match(
         if target_key == "ownerReferences" and path in ((), ("metadata",)):
             continue
 
+        # Always computed from the payload, so never part of the target.
+        if target_key == LAST_APPLIED_ANNOTATION and path == (
+            "metadata",
+            "annotations",
+        ):
+            continue
+
         # NOTE: I'm not sure this is correct.
         if target_key not in last_applied_value:
             last_applied_value[target_key] = None
-- 
2.43.0


From 80354af9d1696c2ef435591a9b64eb204250bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 07/23] fix: patching a target with ownerReferences keeps the
 references already present

---
 .../resource_function/reconcile/__init__.py   | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 22cf7b4..67ec9b6 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -355,8 +355,20 @@ async def reconcile_krm_resource(
             )
 
         case structure.UpdatePatch(delay=delay):
+            if "ownerReferences" in converted_resource["metadata"]:
+                converted_resource["metadata"]["ownerReferences"] = _merged_owner_refs(
+                    resource_view=api_resource.raw, target_view=converted_resource
+                )
+
             if should_own and not owner_reffed:
-                owner_refs = _updated_owner_refs(api_resource.raw, owner_ref)
+                owner_refs = _updated_owner_refs(
+                    (
+                        converted_resource
+                        if "ownerReferences" in converted_resource["metadata"]
+                        else api_resource.raw
+                    ),
+                    owner_ref,
+                )
                 if not is_unwrapped_ok(owner_refs):
                     return ReconcileResult(result=owner_refs, resource_id=resource_id)
 
@@ -780,6 +792,23 @@ def _updated_owner_refs(resource_view: dict, owner_ref: dict):
     return updated_owners
 
 
+def _merged_owner_refs(resource_view: dict, target_view: dict) -> list:
+    """A merge-patch replaces the list, so the present references are included."""
+    merged = list(resource_view["metadata"].get("ownerReferences") or ())
+    present_uids = [current_ref.get("uid") for current_ref in merged]
+
+    target_refs = target_view["metadata"].get("ownerReferences")
+    if isinstance(target_refs, (list, tuple)):
+        merged.extend(
+            target_ref
+            for target_ref in target_refs
+            if isinstance(target_ref, dict)
+            and target_ref.get("uid") not in present_uids
+        )
+
+    return merged
+
+
 def _validate_owner_reffed(resource_view: dict, owner_ref: dict):
     match resource_view:
         case {"metadata": metadata}:
-- 
2.43.0


From bc5d373d339db1793d339b40c0a4096184bcc587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 08/23] fix: a timed-out or crashed step is not reported by a
 Ready condition

---
 src/koreo/workflow/reconcile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 70513b2..6a0b78c 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -164,7 +164,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=timeout_outcome,
+                    outcome=timeout_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
@@ -182,7 +182,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=error_outcome,
+                    outcome=error_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
-- 
2.43.0


From 1206dad6fea7e7bef95b11f966c87b70ae6198da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 09/23] fix: a failing expression which cannot be rendered is
 still a PermFail

---
 src/koreo/cel/evaluation.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index c9b4cee..e63d6b5 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -13,6 +13,16 @@ from koreo.result import NonOkOutcome, PermFail
 from koreo.cel.prepare import Index, Overlay
 
 
+def _dump_tree(tree) -> str:
+    # tree_dump is unable to render some expressions; notably those containing
+    # an empty list or map. It is only used to describe the failure.
+    try:
+        return tree_dump(tree) if tree else ""
+    except Exception:
+        logger.debug("Unable to render the failing expression.")
+        return ""
+
+
 def evaluate(
     expression: celpy.Runner | None, inputs: dict[str, celtypes.Value], location: str
 ) -> None | celtypes.Value | PermFail:
@@ -28,7 +38,7 @@ def evaluate(
         return expression_value
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -61,7 +71,7 @@ def evaluate_predicates(
         return predicate_to_koreo_result(raw_result, location=location)
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -96,7 +106,7 @@ def evaluate_overlay(
             )
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _dump_tree(err.tree)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -141,7 +151,7 @@ def check_for_celevalerror(
 ) -> None | PermFail:
     match value:
         case celpy.CELEvalError(tree=error_tree):
-            tree = tree_dump(error_tree) if error_tree else ""
+            tree = _dump_tree(error_tree)
             return PermFail(
                 message=f"Error evaluating `{location}` (at {tree}) {value.args}",
                 location=tree,
-- 
2.43.0


From 54b8145c0568a4775032133ccb9fe90c3543e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 10/23] fix: literal text in definitions evaluates to exactly
 that text

Backslashes and line breaks were interpreted (or dropped) by CEL, quotes in keys
were not escaped, and text which merely looks numeric to Python (inf, nan,
1_000, surrounding blanks, non-ASCII digits) was spliced in as a number.
---
 src/koreo/cel/encoder.py | 49 +++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/koreo/cel/encoder.py b/src/koreo/cel/encoder.py
index 98d9727..edb5550 100644
--- a/src/koreo/cel/encoder.py
+++ b/src/koreo/cel/encoder.py
@@ -1,10 +1,17 @@
 from typing import Any
 import base64
+import math
+import re
 
 from celpy import celtypes
 
 CEL_PREFIX = "="
 
+_DECIMAL_NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
+
+_CEL_INT_MIN = -(2**63)
+_CEL_INT_MAX = 2**63 - 1
+
 ConvertedType = (
     list["ConvertedType"]
     | dict["ConvertedType", "ConvertedType"]
@@ -58,7 +65,7 @@ def convert_bools(
 def encode_cel(value: Any) -> str:
     if isinstance(value, dict):
         return f"{{{ ",".join(
-            f'"{f"{key}".replace('"', '\"')}":{encode_cel(value)}'
+            f'{_encode_text(f"{key}")}:{encode_cel(value)}'
             for key, value in value.items()
         ) }}}"
 
@@ -74,35 +81,35 @@ def encode_cel(value: Any) -> str:
     if _encode_plain(value):
         return f"{value}"
 
-    if not value:
-        return '""'
-
     if not value.startswith(CEL_PREFIX):
-        if "\n" in value:
-            return f'r"""{ value.replace('"', '\"') }"""'  # fmt: skip
+        return _encode_text(value)
 
-        if '"' in value:
-            return f'"""{ value.replace('"', r'\"') }"""'  # fmt: skip
+    return value.lstrip(CEL_PREFIX)
 
-        return f'"{value}"'  # fmt: skip
 
-    return value.lstrip(CEL_PREFIX)
+def _encode_text(text: str) -> str:
+    """CEL string literal which evaluates to exactly `text`."""
+    escaped = text.replace("\\", r"\\").replace("\n", r"\n").replace("\r", r"\r")
+
+    if '"' in escaped:
+        return f'"""{ escaped.replace('"', r'\"') }"""'  # fmt: skip
+
+    return f'"{escaped}"'  # fmt: skip
 
 
 def _encode_plain(maybe_number) -> bool:
     if not isinstance(maybe_number, str):
         return True
 
-    try:
-        int(maybe_number)
-        return True
-    except ValueError:
-        pass
+    numeral = _DECIMAL_NUMERAL.fullmatch(maybe_number)
+    if not numeral:
+        return False
 
-    try:
-        float(maybe_number)
-        return True
-    except ValueError:
-        pass
+    if any(numeral.groups()):
+        return math.isfinite(float(maybe_number))
 
-    return False
+    # CEL is not able to represent larger integers, they are kept as text.
+    return (
+        len(maybe_number) < 4000
+        and _CEL_INT_MIN <= int(maybe_number) <= _CEL_INT_MAX
+    )
-- 
2.43.0


From a0ba8621582aa6e4a08cc7d7e155190294cac732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 11/23] fix: prepare no longer fails on members of computed
 values; recognise raw, parenthesised and absolute references

The structure extractor raised for members of list/map literals, calls and
parenthesised expressions, took the quotes of raw string indexes as part of
the name and missed names behind parentheses or a leading dot.
---
 src/koreo/cel/structure_extractor.py | 87 +++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 3a8d394..21269fc 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -1,16 +1,28 @@
+from celpy.evaluation import celstr
 from lark import Tree, Token
 
 
+class _NotStatic(Exception):
+    """Member of a computed value, such as `[1, 2][0]` or `inputs[key].name`.
+
+    It does not name anything itself, but the expressions it is computed from
+    are processed as subtrees of their own.
+    """
+
+
 def extract_argument_structure(compiled: Tree) -> set[str]:
     var_map: set[str] = set()
     for thing in compiled.iter_subtrees():
-        if thing.data == "member_dot":
-            member_dot: str = _process_member_dot(thing)
-            var_map.add(member_dot)
+        try:
+            if thing.data == "member_dot":
+                member_dot: str = _process_member_dot(thing)
+                var_map.add(member_dot)
 
-        if thing.data == "member_index":
-            member_index: str = _process_member_index(thing)
-            var_map.add(member_index)
+            if thing.data == "member_index":
+                member_index: str = _process_member_index(thing)
+                var_map.add(member_index)
+        except _NotStatic:
+            continue
 
     return var_map
 
@@ -18,7 +30,7 @@ def extract_argument_structure(compiled: Tree) -> set[str]:
 def _process_member_dot(tree: Tree):
     if len(tree.children) != 2:
         # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
+        raise _NotStatic(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
 
     # print(f"{len(tree.children)}: {tree.children[0]}")
 
@@ -39,13 +51,13 @@ def _process_member_dot(tree: Tree):
         return f"{_process_primary(root)}.{terminal}"
 
     # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
+    raise _NotStatic(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
 
 
 def _process_member_dot_arg(tree: Tree):
     if len(tree.children) != 3:
         # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
+        raise _NotStatic(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
 
     # print(f"{len(tree.children)}: {tree.children[0]}")
 
@@ -66,13 +78,13 @@ def _process_member_dot_arg(tree: Tree):
         return f"{_process_primary(root)}.{terminal}"
 
     # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
+    raise _NotStatic(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
 
 
 def _process_member_index(tree: Tree):
     if len(tree.children) != 2:
         # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
+        raise _NotStatic(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
 
     # print(f"{len(tree.children)}: {tree.children[0]}")
 
@@ -83,18 +95,21 @@ def _process_member_index(tree: Tree):
 
     elif terminal.data == "expr":
         terminal_value = None
-        while terminal and terminal.children:
-            if terminal.data == "primary":
+        while terminal and len(terminal.children) == 1:
+            if terminal.data == "primary" and terminal.children[0].data == "literal":
                 terminal_value = _process_primary(terminal)
                 break
 
             terminal: Tree = terminal.children[0]
 
+            if not isinstance(terminal, Tree):
+                break
+
         if not terminal_value:
-            raise Exception(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
+            raise _NotStatic(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
 
     else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
+        raise _NotStatic(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
 
     root: Tree = tree.children[0].children[0]
 
@@ -107,26 +122,54 @@ def _process_member_index(tree: Tree):
     elif root.data == "primary":
         root_value: str = _process_primary(root)
     else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
+        raise _NotStatic(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
 
     return f"{root_value}.{terminal_value}"
 
 
 def _process_primary(tree: Tree) -> str:
     if len(tree.children) != 1:
-        raise Exception(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
+        raise _NotStatic(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
 
     primary: Tree = tree.children[0]
 
     # print(f"{len(tree.children)}: {primary}")
 
-    if primary.data == "ident":
+    if primary.data == "ident" or primary.data == "dot_ident":
         return f"{primary.children[0]}"
 
     if primary.data == "literal":
         literal: Token = primary.children[0]
-        if literal.type == "INT_LIT":
-            return literal.value
-        return literal.strip(literal[0])
+        if literal.type == "STRING_LIT" or literal.type == "MLSTRING_LIT":
+            try:
+                return f"{celstr(literal)}"
+            except ValueError as err:
+                raise _NotStatic(f"INVALID STRING LITERAL! {literal}") from err
+        return literal.value
+
+    if primary.data == "paren_expr":
+        return _process_paren_expr(primary)
+
+    raise _NotStatic(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+
+
+def _process_paren_expr(tree: Tree) -> str:
+    nested: Tree = tree.children[0]
+    while nested.data != "member":
+        if len(nested.children) != 1 or not isinstance(nested.children[0], Tree):
+            raise _NotStatic(f"COMPUTED VALUE: {nested}")
+
+        nested = nested.children[0]
+
+    root: Tree = nested.children[0]
+
+    if root.data == "member_dot":
+        return _process_member_dot(root)
+
+    if root.data == "member_index":
+        return _process_member_index(root)
+
+    if root.data == "primary":
+        return _process_primary(root)
 
-    raise Exception(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+    raise _NotStatic(f"COMPUTED VALUE: {root}")
-- 
2.43.0


From b7af682ecbc8c4363175a56d76ce9648eb85b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 12/23] fix: a malformed expression which crashes the CEL
 parser is a PermFail, not an exception

---
 src/koreo/cel/prepare.py       |  5 +++++
 src/koreo/predicate_helpers.py | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/koreo/cel/prepare.py b/src/koreo/cel/prepare.py
index a67572f..d0f2178 100644
--- a/src/koreo/cel/prepare.py
+++ b/src/koreo/cel/prepare.py
@@ -27,6 +27,11 @@ def prepare_expression(
         return PermFail(
             message=f"Parsing error at line {err.line}, column {err.column}. '{err}' in {location} ('{encoded}')",
         )
+    except Exception as err:
+        # Some malformed expressions make the parser itself fail.
+        return PermFail(
+            message=f"Parsing error '{err}' in {location} ('{encoded}')",
+        )
 
     value.logger.setLevel(logging.WARNING)
 
diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 784435b..dc737ce 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -20,7 +20,13 @@ def predicate_extractor(
     if not isinstance(predicate_spec, (list, tuple)):
         return result.PermFail(message="Malformed conditions, expected a list")
 
-    predicates = encode_cel(predicate_spec)
+    try:
+        predicates = encode_cel(predicate_spec)
+    except Exception as err:
+        return result.PermFail(
+            message=f"Structural error, while building predicates '{err}'.",
+        )
+
     conditions = f"{predicates}.filter(predicate, !predicate.assert)"
 
     try:
@@ -32,6 +38,11 @@ def predicate_extractor(
             message=f"Parsing error at line {err.line}, column {err.column}. "
             f"'{err}' in '{predicates}'",
         )
+    except Exception as err:
+        # Some malformed expressions make the parser itself fail.
+        return result.PermFail(
+            message=f"Parsing error '{err}' in '{predicates}'",
+        )
 
     program.logger.setLevel(logging.WARNING)
     return program
-- 
2.43.0


From a37c68b75778d0682bcbc2a16b3b4af444da3038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 13/23] fix: accept an integral delay written with a fraction
 (5.0) in retry conditions

---
 src/koreo/predicate_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index dc737ce..7c7c879 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -68,7 +68,7 @@ def predicate_to_koreo_result(
             case {"assert": _, "retry": {"message": message, "delay": delay}}:
                 return result.Retry(
                     message=f"{message}",
-                    delay=int(f"{delay}"),
+                    delay=int(delay),
                     location=location,
                 )
 
-- 
2.43.0


From 066b365e5c620aba80d121f4d9803f6fa9f30883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 14/23] fix: only variables named steps, parent or inputs are
 read as references to them

---
 src/koreo/resource_function/prepare.py | 2 +-
 src/koreo/workflow/prepare.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index f23b63c..05aecc2 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -277,7 +277,7 @@ def _prepare_resource_template(
             )
 
 
-INPUTS_NAME_PATTERN = re.compile(r"inputs.(?P<name>[^.[]+)?\[?.*")
+INPUTS_NAME_PATTERN = re.compile(r"inputs\.(?P<name>[^.[]+)")
 
 
 def _prepare_overlays(
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 6a3ccbe..4693194 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -99,8 +99,8 @@ def _build_crd_ref(crd_ref_spec: dict) -> structure.ConfigCRDRef | None:
     return structure.ConfigCRDRef(api_group=api_group, version=version, kind=kind)
 
 
-PARENT_NAME_PATTERN = re.compile(r"parent.(?P<name>.*)")
-STEPS_NAME_PATTERN = re.compile(r"steps.(?P<name>[^.[]+)?\[?.*")
+PARENT_NAME_PATTERN = re.compile(r"parent\.(?P<name>.*)")
+STEPS_NAME_PATTERN = re.compile(r"steps\.(?P<name>[^.[]+)")
 
 
 LogicRegistryResource = registry.Resource[
-- 
2.43.0


From 5847b73f284cc37aca7dd8e6647a663c362ac527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 15/23] fix: Logic of unusable steps, switch cases and overlays
 is watched too

---
 src/koreo/resource_function/prepare.py | 11 +++---
 src/koreo/workflow/prepare.py          | 46 +++++++++++++++-----------
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 05aecc2..25a9292 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -300,6 +300,13 @@ def _prepare_overlays(
     used_value_functions: set[registry.Resource[ValueFunction]] = set()
 
     for idx, overlay_spec in enumerate(spec):
+        match overlay_spec:
+            case {"overlayRef": {"name": overlay_name}}:
+                # Watched even if the overlay turns out not to be usable.
+                used_value_functions.add(
+                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
+                )
+
         skip_if_spec = overlay_spec.pop("skipIf", None)
 
         match prepare_expression(
@@ -352,10 +359,6 @@ def _prepare_overlays(
                         )
 
             case {"overlayRef": {"name": overlay_name}, **extras}:
-                used_value_functions.add(
-                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
-                )
-
                 inputs_spec = extras.pop("inputs", None)
                 if extras:
                     extra_keys = ", ".join(f"{key}" for key in extras.keys())
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 4693194..b69ada3 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -129,6 +129,11 @@ def _load_steps(
     for step_spec in steps_spec:
         step_label: str = step_spec.get("label", "<missing label>")
         if step_label in known_steps:
+            # The Logic is still watched.
+            step_resources, _, _ = _load_step(cel_env, step_spec, known_steps)
+            if step_resources:
+                resources.update(step_resources)
+
             step_outcomes.append(
                 structure.ErrorStep(
                     label=step_label,
@@ -552,41 +557,47 @@ def _load_logic_switch(
 ) -> tuple[set[LogicRegistryResource] | None, PermFail | Retry | structure.LogicSwitch]:
     dynamic_input_keys: set[str] = set()
 
+    cases_spec = logic_switch.get("cases")
+    if not cases_spec:
+        return None, PermFail(
+            message=f"Must specify at least one case in `{location}.cases`, can not prepare Workflow.",
+            location=f"{location}.cases",
+        )
+
+    # Every case is watched, even if the switch itself is not usable.
+    case_logics = []
+    resources = set[LogicRegistryResource]()
+    for idx, case_spec in enumerate(cases_spec):
+        logic_resources, logic = _load_logic(
+            logic_ref=case_spec, location=f"{location}[{idx}]"
+        )
+        case_logics.append(logic)
+        if logic_resources:
+            resources.update(logic_resources)
+
     switch_on_spec = logic_switch.get("switchOn")
     match prepare_expression(cel_env=cel_env, spec=switch_on_spec, location=location):
         case None:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Missing `{location}.switchOn`, can not prepare Workflow.",
                 location=f"{location}.switchOn",
             )
         case PermFail() as err:
-            return None, err
+            return resources, err
         case celpy.Runner() as switch_on:
             dynamic_input_keys.update(extract_argument_structure(switch_on.ast))
 
-    cases_spec = logic_switch.get("cases")
-    if not cases_spec:
-        return None, PermFail(
-            message=f"Must specify at least one case in `{location}.cases`, can not prepare Workflow.",
-            location=f"{location}.cases",
-        )
-
     default_logic = None
     logic_map = {}
-    resources = set[LogicRegistryResource]()
-    for idx, case_spec in enumerate(cases_spec):
+    for idx, (case_spec, logic) in enumerate(zip(cases_spec, case_logics)):
         case = case_spec.get("case")
         is_default = case_spec.get("default")
         if is_default and default_logic:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Only one case in `{location}.cases` may be default, can not prepare Workflow.",
                 location=f"{location}.cases[{idx}].default",
             )
 
-        logic_resources, logic = _load_logic(
-            logic_ref=case_spec, location=f"{location}[{idx}]"
-        )
-
         logic_map[case] = logic
 
         if is_unwrapped_ok(logic):
@@ -600,9 +611,6 @@ def _load_logic_switch(
         if is_default:
             default_logic = logic
 
-        if logic_resources:
-            resources.update(logic_resources)
-
     functions_ready = unwrapped_combine(logic_map.values())
     if is_error(functions_ready):
         return resources, functions_ready
-- 
2.43.0


From 36b98459766408c043bf30a2000042ab82f97028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 16/23] fix: a resource deleted and offered again keeps being
 watched

The monitor task of a deleted resource stayed registered until its
cancellation was processed, so a resource offered again before then was
not monitored, and its registration was removed by the old task's callback.
A monitor that has ended is replaced too.
---
 src/koreo/cache.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cb99871..223b7b8 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -134,9 +134,10 @@ async def delete_from_cache(
     queue = registry.kill_resource(resource=resource)
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
-    # This shouldn't happen, just an extra check
-    if resource in _REPREPARE_TASKS:
-        _REPREPARE_TASKS[resource].cancel()
+    # Forget it now, so that the resource may be watched again straight away.
+    reprepare_task = _REPREPARE_TASKS.pop(resource, None)
+    if reprepare_task:
+        reprepare_task.cancel()
 
     match queue:
         case None:
@@ -175,7 +176,8 @@ async def _handle_notifications(
     registry.notify_subscribers(notifier=resource, event_time=prepare_finished_at)
 
     # If this resource watches other resources, setup the monitor to reprepare
-    if subscriptions and preparer and resource not in _REPREPARE_TASKS:
+    current_task = _REPREPARE_TASKS.get(resource)
+    if subscriptions and preparer and (not current_task or current_task.done()):
         task_name = f"{resource.resource_type.__qualname__}:{resource.name}"
         resource_task = asyncio.create_task(
             _monitor_and_reprepare(
@@ -271,8 +273,14 @@ _REPREPARE_TASKS: dict[registry.Resource, asyncio.Task] = {}
 
 def _deletor(resource):
     def do_delete(task: asyncio.Task):
-        del _REPREPARE_TASKS[resource]
-        registry.deregister(resource, time.monotonic())
+        # If this is not the current task, the resource was deleted and may have
+        # been offered again. It must not be deregistered.
+        if _REPREPARE_TASKS.get(resource) is task:
+            del _REPREPARE_TASKS[resource]
+            registry.deregister(resource, time.monotonic())
+
+        if task.cancelled():
+            return
 
         task_exception = task.exception()
         if task_exception:
-- 
2.43.0


From b66bd8596396fda812395a4baf4656513b20af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 17/23] fix: repreparing does not overwrite a version cached in
 the meantime

---
 src/koreo/cache.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 223b7b8..05f923b 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -237,13 +237,18 @@ async def _reprepare_and_update_cache(
 ) -> None:
     resource_key = registry.Resource(resource_type=resource_class, name=cache_key)
 
-    cached = __CACHE.get(resource_key)
-    if not cached:
-        return
+    while True:
+        cached = __CACHE.get(resource_key)
+        if not cached:
+            return
 
-    prepare_started_at = time.monotonic()
-    preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
-    prepare_finished_at = time.monotonic()
+        prepare_started_at = time.monotonic()
+        preparer_outcome = await preparer(cache_key, copy.deepcopy(cached.spec))
+        prepare_finished_at = time.monotonic()
+
+        # A version cached in the meantime must not be overwritten.
+        if __CACHE.get(resource_key) is cached:
+            break
 
     if is_unwrapped_ok(preparer_outcome):
         prepared_resource, subscriptions = preparer_outcome
-- 
2.43.0


From b36a375c592cfbb741c852bcf80a9893bce7a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 18/23] fix: a subscriber with a shut down queue does not keep
 the others from being notified

---
 src/koreo/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 1c4f2f8..992637b 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -102,7 +102,7 @@ def notify_subscribers(notifier: Resource, event_time: float):
             subscriber.put_nowait(
                 ResourceEvent(resource=notifier, event_time=event_time)
             )
-        except asyncio.QueueFull:
+        except (asyncio.QueueFull, asyncio.QueueShutDown):
             pass
             # TODO: I think there is a way to monitor for stalled subscribers
             # then notify a house-keeper process to deal with it.
-- 
2.43.0


From a034a1d74a20ce996e9a09ced632272adee4b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:14 +0000
Subject: [PATCH 19/23] fix: a ResourceTemplate without CEL equivalent fails
 preparation instead of raising

---
 src/koreo/resource_template/prepare.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_template/prepare.py b/src/koreo/resource_template/prepare.py
index 35936e3..5bf70e9 100644
--- a/src/koreo/resource_template/prepare.py
+++ b/src/koreo/resource_template/prepare.py
@@ -25,7 +25,16 @@ async def prepare_resource_template(
         )
 
     template_spec = spec.get("template", {})
-    template = celpy.json_to_cel(template_spec)
+    try:
+        template = celpy.json_to_cel(template_spec)
+        context = celpy.json_to_cel(spec.get("context", {}))
+    except Exception as err:
+        # There is JSON which has no CEL equivalent, such as integers over 64 bits.
+        return PermFail(
+            message=f"ResourceTemplate '{cache_key}' can not be converted to CEL ('{err}').",
+            location=f"prepare:ResourceTemplate:{cache_key}",
+        )
+
     if not template_spec:
         return PermFail(
             message=f"Missing `spec.template` for ResourceTemplate '{cache_key}'.",
@@ -49,7 +58,6 @@ async def prepare_resource_template(
             location=f"prepare:ResourceTemplate:{cache_key}",
         )
 
-    context = celpy.json_to_cel(spec.get("context", {}))
     if not isinstance(context, celtypes.MapType):
         return PermFail(
             message=f"ResourceTemplate '{cache_key}' `spec.context` ('{context}') must be an object.",
-- 
2.43.0


From b440df26158d308e933530fb11a71d897e500356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:14 +0000
Subject: [PATCH 20/23] fix: an unusable apiVersion or kind fails preparation
 instead of raising

---
 src/koreo/resource_function/prepare.py | 38 ++++++++++++++++++--------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 25a9292..eed4611 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -191,6 +191,15 @@ def _prepare_api_config(
             message="`apiVersion`, `kind`, and `name` are required in `spec.apiConfig`"
         )
 
+    if api_version.count("/") > 1 or "/" in kind:
+        # kr8s would fail for every Function prepared while such a class exists.
+        return PermFail(
+            message=(
+                f"Invalid `apiVersion` ('{api_version}') or `kind` ('{kind}') in "
+                "`spec.apiConfig`, expected `group/version` and a plain kind"
+            )
+        )
+
     plural = spec.get("plural")
     if not plural:
         plural = constants.PLURAL_LOOKUP_NEEDED
@@ -222,18 +231,23 @@ def _prepare_api_config(
             pass
 
     try:
-        resource_api = kr8s.objects.get_class(
-            version=api_version,
-            kind=kind,
-            _asyncio=True,
-        )
-    except KeyError:
-        resource_api = kr8s.objects.new_class(
-            version=api_version,
-            kind=kind,
-            plural=plural,
-            namespaced=namespaced,
-            asyncio=True,
+        try:
+            resource_api = kr8s.objects.get_class(
+                version=api_version,
+                kind=kind,
+                _asyncio=True,
+            )
+        except KeyError:
+            resource_api = kr8s.objects.new_class(
+                version=api_version,
+                kind=kind,
+                plural=plural,
+                namespaced=namespaced,
+                asyncio=True,
+            )
+    except (TypeError, ValueError) as err:
+        return PermFail(
+            message=f"Unusable `apiVersion` ('{api_version}') or `kind` ('{kind}') in `spec.apiConfig`, '{err}'"
         )
     return (resource_api, resource_id, owned, readonly, delete_if_exists)
 
-- 
2.43.0


From 2568ef9410ed974c51cb944fd3c377bc12a9d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:14 +0000
Subject: [PATCH 21/23] fix: overlong member expressions do not overflow the
 structure extractor

---
 src/koreo/cel/structure_extractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 21269fc..3e32125 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -23,6 +23,9 @@ def extract_argument_structure(compiled: Tree) -> set[str]:
                 var_map.add(member_index)
         except _NotStatic:
             continue
+        except RecursionError:
+            # Too long to process, but its leading parts are subtrees as well.
+            continue
 
     return var_map
 
-- 
2.43.0


From 94b56e96cf0e9515f426764994a734f0cd8e1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:14 +0000
Subject: [PATCH 22/23] fix: a malformed forEach condition fails preparation
 instead of raising

---
 src/koreo/workflow/prepare.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index b69ada3..5cbacf7 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -459,6 +459,14 @@ def _prepare_for_each(
     condition_spec = spec.get("condition")
     if not condition_spec:
         condition = None
+    elif not isinstance(condition_spec, dict):
+        return structure.ErrorStep(
+            label=step_label,
+            outcome=PermFail(
+                message=f"Malformed `{step_label}.forEach.condition`, expected a mapping, can not prepare Workflow."
+            ),
+            condition=None,
+        )
     else:
         condition = structure.StepConditionSpec(
             type_=condition_spec.get("type"),
-- 
2.43.0


From 8d257b1bcec5f5e84ed76383ddbffecf18e642b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 23/23] fix: members of a map-directed list are keyed
 unambiguously

Key values were joined as text, so members with different keys (80 and "80",
("a$b", "c") and ("a", "b$c")) replaced each other and drift in one of them was
not seen.
---
 src/koreo/resource_function/reconcile/validate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 173dc26..e3c12de 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -98,13 +98,17 @@ def validate_match(
         )
 
 
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+def _obj_to_key(
+    obj: dict, fields: Sequence[int | str]
+) -> tuple[tuple[bool, str], ...]:
+    # Must be unambiguous; members with different keys are different members.
+    values = (obj.get(field) for field in fields)
+    return tuple((isinstance(value, str), f"{value}") for value in values)
 
 
 def _list_to_object(
     obj_list: Sequence[dict], key_fields: Sequence[int | str]
-) -> dict[str, dict] | None:
+) -> dict[tuple, dict] | None:
     if not isinstance(obj_list, (list, tuple)):
         return obj_list
 
-- 
2.43.0

