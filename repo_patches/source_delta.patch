From fc7110940cdcae37e6357a82863ec20f095191d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 01/30] fix: LazyTypeHintLive works on the current interface
 instead of the one read at creation

An instance kept the .pyi content it read when created, so it dropped the
classes that other instances registered later, and it was unusable after reset.
---
 lazy_type_hint/generators/lazy_type_hint_live.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 83848e3..107ab03 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -71,10 +71,13 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
+        self.this_file_pyi = self._load_this_file_pyi()
+
+    def _load_this_file_pyi(self) -> PyFileModifier:
+        """Get the current interface, as other instances might have modified (or reset) it in the meantime."""
         if not self._this_file_pyi_path.exists():
-            self.this_file_pyi = self._generate_this_file_pyi()
-        else:
-            self.this_file_pyi = PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
+            return self._generate_this_file_pyi()
+        return PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
 
     def _get_classes_added(self) -> Mapping[str, Path]:
         to_find = "classes_created"
@@ -121,6 +124,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
+        self.this_file_pyi = self._load_this_file_pyi()
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
             string_representation = cast(
-- 
2.43.0


From e81048f92718bc1cc09505b29cd006e3441fbc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 02/30] fix: LazyTypeHintLive updates each generated file
 atomically and the .pyi only once

The .pyi was truncated and rewritten four times per class, so an error or a
crash in between left a broken or half updated interface behind for every class.
---
 .../generators/lazy_type_hint_live.py         | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 107ab03..e4bf054 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,6 +1,8 @@
 import os
 import re
 import shutil
+import threading
+from contextlib import suppress
 from pathlib import Path
 from typing import (
     Any,
@@ -168,7 +170,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-        content = Path(__file__).read_text()
+        content = Path(__file__).read_text(encoding="utf-8")
 
         file_handler = PyFileModifier(content)
         file_handler.remove_all_method_bodies()
@@ -180,8 +182,20 @@ class LazyTypeHintLive(LazyTypeHintABC):
         if not self._custom_class_dir_path.exists():
             os.makedirs(self._custom_class_dir_path)
 
-        path = self._custom_class_dir_path / f"{class_name}.py"
-        path.write_text(string)
+        self._write_atomically(self._custom_class_dir_path / f"{class_name}.py", string)
+
+    @classmethod
+    def _write_atomically(cls, path: Path, content: str) -> None:
+        """Write the file so that its content is always either the old one or the new one, even after a failure."""
+        # Different suffix than `.py` and `.pyi`. Any file left by a process that was killed is removed in `reset`
+        temporary_path = cls._custom_class_dir_path / f"{os.getpid()}_{threading.get_ident()}.tmp"
+        try:
+            temporary_path.write_text(content, encoding="utf-8")
+            os.replace(temporary_path, path)
+        except BaseException:
+            with suppress(OSError):
+                os.remove(temporary_path)
+            raise
 
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
@@ -189,6 +203,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self._add_import_to_this_file_pyi(new_class)
         for method_name in self._methods_to_be_overloaded:
             self._add_overload_to_this_file_pyi(new_class=new_class, method_name=method_name)
+        self._update_this_file_pyi()
 
     @final
     def _add_import_to_this_file_pyi(self, new_class: str) -> None:
@@ -197,7 +212,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
             import_statement,
             in_type_checking_block=False,
         )
-        self._update_this_file_pyi()
 
     @final
     def _add_overload_to_this_file_pyi(
@@ -231,7 +245,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
         idx = self.this_file_pyi.search_method(method_name=method_name, return_index_above_decorator=True)[-1]
         self.this_file_pyi.add_line(idx, signature)
-        self._update_this_file_pyi()
 
     @final
     def _add_class_created_to_this_file_pyi(self, new_class: str) -> None:
@@ -248,8 +261,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             value = value.replace("], Any]", f', "{new_class}"], Any]')
 
         self.this_file_pyi.replace_assignement(label, value)
-        self._update_this_file_pyi()
 
     @final
     def _update_this_file_pyi(self) -> None:
-        self._this_file_pyi_path.write_text(str(self.this_file_pyi))
+        self._write_atomically(self._this_file_pyi_path, str(self.this_file_pyi))
-- 
2.43.0


From 4b4ae5fcc53f30ed01f924cb736f62f6be4be120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 03/30] fix: LazyTypeHintLive.reset removes the interface
 before the classes it refers to

An interrupted reset left an interface whose classes did not exist any more:
every later call raised until the .pyi was removed by hand.
---
 lazy_type_hint/generators/lazy_type_hint_live.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index e4bf054..cafeda6 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -163,10 +163,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @classmethod
     def reset(cls) -> None:
         """Remove all existing type hints generated by this class."""
-        if cls._custom_class_dir_path.exists():
-            shutil.rmtree(cls._custom_class_dir_path)
+        # The interface refers to the custom classes: It must be removed first in case of any failure.
         if cls._this_file_pyi_path.exists():
             os.remove(cls._this_file_pyi_path)
+        if cls._custom_class_dir_path.exists():
+            shutil.rmtree(cls._custom_class_dir_path)
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-- 
2.43.0


From 4564ebde9a9abd7ff604837a36c36d2a9ce8321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 04/30] fix: threads can use LazyTypeHintLive concurrently
 without losing classes

The read-modify-write of the interface was not serialized, so classes
registered by concurrent threads were lost or the calls crashed.
---
 .../generators/lazy_type_hint_live.py         | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index cafeda6..bf5377c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -63,6 +63,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
     """Path to the .pyi file associated to this same module."""
     _custom_class_dir_path: Final = _this_file_pyi_path.parent / "build"
     """Path where the new classes will be generated.c"""
+    _lock: Final = threading.RLock()
+    """All instances share the same interface and custom classes: Only one thread can work on them at a time."""
 
     @final
     def __init__(
@@ -73,7 +75,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
-        self.this_file_pyi = self._load_this_file_pyi()
+        with self._lock:
+            self.this_file_pyi = self._load_this_file_pyi()
 
     def _load_this_file_pyi(self) -> PyFileModifier:
         """Get the current interface, as other instances might have modified (or reset) it in the meantime."""
@@ -125,13 +128,18 @@ class LazyTypeHintLive(LazyTypeHintABC):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
+        string_representation = cast(
+            DataTypeTree, super().from_data(data=data, class_name=class_name)
+        ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
+        with self._lock:
+            self._register_class(string_representation, class_name)
+        return data
+
+    def _register_class(self, string_representation: str, class_name: str) -> None:
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
         self.this_file_pyi = self._load_this_file_pyi()
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
-            string_representation = cast(
-                DataTypeTree, super().from_data(data=data, class_name=class_name)
-            ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
             if self._remove_docstrings(string_representation) != self._remove_docstrings(
                 custom_class_file_path.read_text(encoding="utf-8")
             ):
@@ -139,16 +147,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
                     f"Error in validation: Existing type hints were found for `{class_name}` and this one does not "
                     "match the inner structure of the input data given."
                 )
-        else:
-            string_representation = cast(
-                DataTypeTree, super().from_data(data=data, class_name=class_name)
-            ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
 
         self._create_custom_class_py(string_representation, class_name)
         if class_name in self._get_classes_added():
-            return data
+            return
         self._add_new_class_to_loader_pyi(new_class=class_name)
-        return data
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
@@ -163,11 +166,12 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @classmethod
     def reset(cls) -> None:
         """Remove all existing type hints generated by this class."""
-        # The interface refers to the custom classes: It must be removed first in case of any failure.
-        if cls._this_file_pyi_path.exists():
-            os.remove(cls._this_file_pyi_path)
-        if cls._custom_class_dir_path.exists():
-            shutil.rmtree(cls._custom_class_dir_path)
+        with cls._lock:
+            # The interface refers to the custom classes: It must be removed first in case of any failure.
+            if cls._this_file_pyi_path.exists():
+                os.remove(cls._this_file_pyi_path)
+            if cls._custom_class_dir_path.exists():
+                shutil.rmtree(cls._custom_class_dir_path)
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
@@ -180,9 +184,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         return file_handler
 
     def _create_custom_class_py(self, string: str, class_name: str) -> None:
-        if not self._custom_class_dir_path.exists():
-            os.makedirs(self._custom_class_dir_path)
-
+        os.makedirs(self._custom_class_dir_path, exist_ok=True)
         self._write_atomically(self._custom_class_dir_path / f"{class_name}.py", string)
 
     @classmethod
-- 
2.43.0


From bc84591ffe8b10419aabf551a6dddc137396bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:15 +0000
Subject: [PATCH 05/30] fix: LazyTypeHintLive.from_yaml_file returns the data
 of the file without hidden keys

It returned the data of the internal temporary file, which has an additional
'___docstring_hidden_key_*' key for each comment found in the YAML file.
---
 lazy_type_hint/generators/lazy_type_hint_live.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index bf5377c..052e44f 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -9,6 +9,7 @@ from typing import (
     Callable,
     Dict,
     Final,
+    List,
     Literal,
     Mapping,
     Optional,
@@ -115,7 +116,15 @@ class LazyTypeHintLive(LazyTypeHintABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> ObjectT:
-        return super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)  # type: ignore
+        loaded_data: List[ObjectT] = []
+
+        def loader_(path: PathT) -> ObjectT:
+            loaded_data.append(loader(path))
+            return loaded_data[-1]
+
+        super().from_yaml_file(loader=loader_, path=path, class_name=class_name, comments_are=comments_are)
+        # The first one is the data from the given file. The next one (if any) has additional keys with the comments.
+        return loaded_data[0]
 
     @override
     def from_data(
-- 
2.43.0


From 6e90589523876eb73015887f758f1fac0e6cc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:59 +0000
Subject: [PATCH 06/30] fix: each YAML parsing uses its own temporary file and
 removes it

The temporary file was shared by all YAML files with the same name, so
concurrent parsings mixed their contents, and it was never removed.
---
 .../file_modifiers/yaml_file_modifier.py           | 14 ++++++++++++--
 lazy_type_hint/generators/lazy_type_hint_abc.py    | 12 +++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 208c386..ff5337d 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -1,5 +1,6 @@
 """Tool that allows to read comments from yaml files and re-introduce them as part of the dictionary."""
 
+import os
 import re
 import tempfile
 from collections import defaultdict
@@ -419,6 +420,8 @@ class YamlFileModifier:
     def create_temporary_file_with_comments_as_keys(self) -> Path:
         """Create a new YAML file with new keys containing the documentation.
 
+        Each call creates a different file. The caller is responsible for removing it.
+
         This method creates a new YAML file by converting the comments in the original file into keys in the new file.
         The comments are extracted from the original file and added as keys in the new file.
 
@@ -426,6 +429,13 @@ class YamlFileModifier:
             Path: The path to the newly created YAML file.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        path = Path(tempfile.gettempdir()) / f"_{self.path.name}"
-        path.write_text(string)
+        descriptor, name = tempfile.mkstemp(prefix="_", suffix=f"_{self.path.name}")
+        path = Path(name)
+        try:
+            os.close(descriptor)
+            path.write_text(string)
+        except BaseException:
+            with suppress(OSError):
+                os.remove(path)
+            raise
         return path
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index b143cf5..f4a5004 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -1,5 +1,6 @@
 import os
 from abc import ABC
+from contextlib import suppress
 from dataclasses import dataclass
 from pathlib import Path
 from typing import (
@@ -69,9 +70,14 @@ class LazyTypeHintABC(ABC):
         yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
         original_data = loader(path)
         try:
-            new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys())
-            potentially_modified_data = loader(new_path)
-            return self.from_data(potentially_modified_data, class_name=class_name)
+            temporary_path = yaml_file_modifier.create_temporary_file_with_comments_as_keys()
+            try:
+                new_path: PathT = type(path)(temporary_path)
+                potentially_modified_data = loader(new_path)
+                return self.from_data(potentially_modified_data, class_name=class_name)
+            finally:
+                with suppress(OSError):
+                    os.remove(temporary_path)
         except Exception:  # noqa: BLE001
             return self.from_data(original_data, class_name=class_name)
 
-- 
2.43.0


From 438326c206cf0c864acb6e8736b9ad8ccbaabde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 07/30] fix: a tree can be rendered with and without imports in
 any order

The cached strings ignored the input arguments, so to_string() and to_file()
had no imports if to_string(include_imports=False) was called before.
---
 lazy_type_hint/data_type_tree/data_type_tree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 01de10d..45def19 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -206,14 +206,11 @@ class DataTypeTree(ABC):
         )
 
     @final
-    @cache_returned_value_per_instance
     def get_strs_all_nodes_unformatted(
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
-        strings: OrderedSet[str] = OrderedSet()
-        self._get_strs_all_nodes_unformatted(types=strings)
-        strings_lst = strings.as_list()
+        strings_lst = list(self._get_strs_all_nodes_without_imports())
         if not strings_lst:
             raise DataTypeTreeError("No type hints could be built")
 
@@ -225,6 +222,13 @@ class DataTypeTree(ABC):
             strings_lst.append(f"class {old_name}(_{old_name}):\n{TAB}...")
         return tuple(strings_lst)
 
+    @final
+    @cache_returned_value_per_instance
+    def _get_strs_all_nodes_without_imports(self) -> Tuple[str, ...]:
+        strings: OrderedSet[str] = OrderedSet()
+        self._get_strs_all_nodes_unformatted(types=strings)
+        return strings.as_tuple()
+
     @staticmethod
     def rename_declaration(declaration: str, new_name: str) -> Tuple[str, str]:
         if "=" in declaration:
-- 
2.43.0


From 965e398efb8d59c1bc5640a37f921d2ba28d3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 08/30] fix: the type hints do not depend on the hash seed of
 the process

The children of lists, sets and series were kept in a set, so the order of the
type hints (and the fields of merged TypedDicts) changed among executions and
the 'validate' mode rejected data that had not changed.
---
 .../set_and_sequence_operations.py            | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2e027bf..108f710 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -38,9 +38,9 @@ class SetAndSequenceOperations:
         If `allow_repeated_children` is set to True, all children will be returned even if they are repeated.
         """
         if allow_repeated_children:
-            children: Union[Set[DataTypeTree], List[DataTypeTree]] = []
+            children: Union[Dict[DataTypeTree, None], List[DataTypeTree]] = []
         else:
-            children = set()
+            children = {}  # Used as an ordered set: The output must not depend on the hashes
         names_added: Dict[DataTypeTree, str] = {}  # Used to generate new and unique cnames in a quicker way.
 
         child: DataTypeTree
@@ -74,15 +74,15 @@ class SetAndSequenceOperations:
                 names_added[child] = child.name
             else:
                 # List and Set cases
-                children = cast("Set[DataTypeTree]", children)
+                children = cast("Dict[DataTypeTree, None]", children)
                 if child in children and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
                     self._update_existing_typed_dict_child_from_another_equal_child(children, child)
                 if child not in children:
-                    children.add(child)
+                    children[child] = None
                     names_added[child] = name
 
         return self._merge_similar_typed_dicts(
-            children,
+            tuple(children),
             merge_if_similarity_above=self.data_type_tree.strategies.merge_different_typed_dicts_if_similarity_above,
             allow_repeated_children=allow_repeated_children,
         )
@@ -131,12 +131,12 @@ class SetAndSequenceOperations:
                     children[idx] = merged_child
             return tuple(children)
         else:
-            children = cast("Set[DataTypeTree]", children)
-            for child in children.copy():
+            other_children: List[DataTypeTree] = []
+            for child in children:
                 if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children.remove(child)
                     dict_data_type_trees.append(child)
+                else:
+                    other_children.append(child)
 
             merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            children.add(merged_child) if isinstance(children, list) else children.add(merged_child)
-            return tuple(children)
+            return (*other_children, merged_child)
-- 
2.43.0


From be040ab08a773d525cdd8fc1fed86fea2148c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 09/30] fix: validate mode ignores differences that are only in
 the docstrings

Only the lines with triple quotes were ignored, so changes in multi-line
docstrings or in the number of docstrings were reported as type mismatches.
---
 .../generators/lazy_type_hint_live.py         | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 052e44f..8dce61b 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,3 +1,4 @@
+import ast
 import os
 import re
 import shutil
@@ -164,13 +165,23 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        if '"""' not in string:
+        """Get a representation of the given code that does not depend on its docstrings."""
+        try:
+            tree = ast.parse(string)
+        except (SyntaxError, ValueError):
             return string
-
-        strings = string.splitlines()
-        for idx, string in enumerate(strings):
-            strings[idx] = "" if '"""' in string else string
-        return "\n".join(strings)
+        for node in ast.walk(tree):
+            if isinstance(node, (ast.Module, ast.ClassDef)):
+                node.body = [
+                    statement
+                    for statement in node.body
+                    if not (
+                        isinstance(statement, ast.Expr)
+                        and isinstance(statement.value, ast.Constant)
+                        and isinstance(statement.value.value, str)
+                    )
+                ]
+        return ast.dump(tree)
 
     @classmethod
     def reset(cls) -> None:
-- 
2.43.0


From 869b433a54f97132c0ae892688d6f48fe0a9f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 10/30] fix: keywords and other invalid identifiers are
 rejected as class names

Names such as 'class' or 'None' were registered, which left a .pyi with
invalid syntax for all the classes.
---
 lazy_type_hint/generators/lazy_type_hint_abc.py  | 4 ++--
 lazy_type_hint/generators/lazy_type_hint_live.py | 4 ++--
 lazy_type_hint/utils/__init__.py                 | 1 +
 lazy_type_hint/utils/utils.py                    | 6 ++++++
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index f4a5004..68d5819 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -16,7 +16,7 @@ from lazy_type_hint.data_type_tree import data_type_tree_factory
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
 from lazy_type_hint.file_modifiers.yaml_file_modifier import YAML_COMMENTS_POSITION, YamlFileModifier
 from lazy_type_hint.strategies import ParsingStrategies
-from lazy_type_hint.utils import is_string_python_keyword_compatible
+from lazy_type_hint.utils import is_valid_class_name
 
 
 class LazyTypeHintError(Exception):
@@ -88,7 +88,7 @@ class LazyTypeHintABC(ABC):
         class_name: str,
         **kwargs: Any,
     ) -> Any:
-        if not is_string_python_keyword_compatible(class_name):
+        if not is_valid_class_name(class_name):
             raise LazyTypeHintError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 8dce61b..93a2fa4 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -31,7 +31,7 @@ from lazy_type_hint.generators.lazy_type_hint_abc import LazyTypeHintABC
 from lazy_type_hint.strategies import ParsingStrategies
 from lazy_type_hint.utils import (
     TAB,
-    is_string_python_keyword_compatible,
+    is_valid_class_name,
 )
 
 THIS_DIR = Path(__file__).parent
@@ -134,7 +134,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         class_name: str,
         **kwargs: Any,
     ) -> ObjectT:
-        if not is_string_python_keyword_compatible(class_name):
+        if not is_valid_class_name(class_name):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
diff --git a/lazy_type_hint/utils/__init__.py b/lazy_type_hint/utils/__init__.py
index c3d152d..2f643bd 100644
--- a/lazy_type_hint/utils/__init__.py
+++ b/lazy_type_hint/utils/__init__.py
@@ -13,4 +13,5 @@ from lazy_type_hint.utils.utils import (
 )
 from lazy_type_hint.utils.utils import (
     is_string_python_keyword_compatible as is_string_python_keyword_compatible,
+    is_valid_class_name as is_valid_class_name,
 )
diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index ad0946a..517aaf4 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import subprocess
 from itertools import zip_longest
@@ -20,6 +21,11 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
 
 
+def is_valid_class_name(string: str) -> bool:
+    """Checks if a string can be used as the name of a class. Reserved keywords such as `class` or `None` cannot."""
+    return is_string_python_keyword_compatible(string) and string.isidentifier() and not keyword.iskeyword(string)
+
+
 def compare_ast(
     node1: Union[ast.expr, List[ast.expr], ast.Module],
     node2: Union[ast.expr, List[ast.expr], ast.Module],
-- 
2.43.0


From a6b745a38686d08d922b15c4ffa7c5aebde0dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 11/30] fix: files are read and written as UTF-8 regardless of
 the locale

Python source files and YAML ones are UTF-8. With any other locale encoding the
generated files were unreadable or could not be written.
---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 4 ++--
 lazy_type_hint/generators/lazy_type_hint.py         | 2 +-
 lazy_type_hint/generators/lazy_type_hint_abc.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index ff5337d..6763b17 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -81,7 +81,7 @@ class YamlFileModifier:
         self.path = Path(path)
         if not self.path.suffix.endswith((".yaml", ".yml")):
             raise YamlFileModifierError(f"Only `.yaml` or `.yml` are allowed. File given is: {self.path}")
-        self.lines = tuple(Path(path).read_text().splitlines())
+        self.lines = tuple(Path(path).read_text(encoding="utf-8", errors="surrogateescape").splitlines())
         comments_are = (comments_are,) if isinstance(comments_are, str) else tuple(comments_are)
         self.comments_are = comments_are
 
@@ -433,7 +433,7 @@ class YamlFileModifier:
         path = Path(name)
         try:
             os.close(descriptor)
-            path.write_text(string)
+            path.write_text(string, encoding="utf-8", errors="surrogateescape")
         except BaseException:
             with suppress(OSError):
                 os.remove(path)
diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 0e3e295..2caa569 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -39,7 +39,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHint(LazyTypeHintABC):
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index 68d5819..a935ebf 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -42,7 +42,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHintABC(ABC):
-- 
2.43.0


From 09d821acc01302d85afd316b84cbe3a65dae4735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 12/30] fix: no element beyond
 check_max_n_elements_within_container is requested

One more element was pulled from the container (and dropped), so iterators lost
it or blocked waiting for it.
---
 .../generic_type/set_and_sequence_operations.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 108f710..b438893 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -5,6 +5,7 @@ hinting they are quite similar.
 """
 
 from dataclasses import dataclass
+from itertools import islice
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -45,9 +46,8 @@ class SetAndSequenceOperations:
 
         child: DataTypeTree
         n_elements_to_check = self.data_type_tree.strategies.check_max_n_elements_within_container
-        for idx, element in enumerate(data):
-            if n_elements_to_check and idx >= n_elements_to_check:
-                break
+        # `islice` does not request any element beyond the limit, as this one could be lost or never arrive (iterators)
+        for element in islice(data, n_elements_to_check or None):
             name = f"{self.data_type_tree.name}{type(element).__name__.capitalize()}"
             # Generate new name in case this one was already added
             if name in names_added.values():
-- 
2.43.0


From 4f8f23918bb2f1b9af40fbc11edeeda27c6457d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 13/30] fix: Mypy.scan_file can be used in POSIX systems

The whole command was given as the name of the executable, which only works in
Windows.
---
 lazy_type_hint/utils/mypy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/utils/mypy.py b/lazy_type_hint/utils/mypy.py
index 3629797..99f96d1 100644
--- a/lazy_type_hint/utils/mypy.py
+++ b/lazy_type_hint/utils/mypy.py
@@ -111,9 +111,10 @@ class Mypy:
         command = ["mypy"]
         if strict:
             command.append("--strict")
-        command.append(f"--python-version {python_version}")
+        command.append("--python-version")
+        command.append(python_version)
         command.append(str(file))
-        result = subprocess.run(" ".join(command), capture_output=True, text=True)
+        result = subprocess.run(command, capture_output=True, text=True)
 
         if result.stderr:
             raise ValueError(f"Mypy could not run: {result.stderr}")
-- 
2.43.0


From 74cddec346e6beec6ba793e40b41fd6f199ff571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 14/30] fix: Mypy results are not successful if mypy crashed,
 was killed or hides the error codes

An empty output was considered to be a successful scan without checking the
exit code.
---
 lazy_type_hint/utils/mypy.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/utils/mypy.py b/lazy_type_hint/utils/mypy.py
index 99f96d1..89b2689 100644
--- a/lazy_type_hint/utils/mypy.py
+++ b/lazy_type_hint/utils/mypy.py
@@ -71,13 +71,16 @@ class Mypy:
         command.append("-c")
         command.append(string)
         result = subprocess.run(command, capture_output=True)
-        if result.stderr:
-            return self.Result(success=False, errors=[str(result.stderr)], scanned=string)
+        # Exit code is 0 if no issues were found and 1 in case of type errors. Otherwise Mypy crashed or was killed
+        if result.stderr or result.returncode not in (0, 1):
+            return self.Result(success=False, errors=[str(result.stderr or result)], scanned=string)
         stdout = str(result.stdout)
         errors: List[str] = []
-        lines = stdout.split("error: ")
+        lines = stdout.split("error: ")[1:]
+        if result.returncode and not lines:
+            return self.Result(success=False, errors=[stdout], scanned=string)
         for error in lines:
-            error_str = error[: error.rfind("]") + 1]
+            error_str = error[: error.rfind("]") + 1] or error  # The error code within brackets can be disabled
             if error_str:
                 if ignore_errors:
                     if all(keyword not in error_str for keyword in ignore_errors):
@@ -120,6 +123,10 @@ class Mypy:
             raise ValueError(f"Mypy could not run: {result.stderr}")
 
         error_lst = [line for line in result.stdout.splitlines() if "error: " in line]
+        # Exit code is 0 if no issues were found and 1 in case of type errors. Otherwise Mypy crashed or was killed
+        if result.returncode not in (0, 1) or (result.returncode and not error_lst):
+            raise ValueError(f"Mypy could not run: {result}")
+
         if ignore_errors:
             error_lst = [line for line in error_lst if not all(ignore_error in line for ignore_error in ignore_errors)]
         # Filter out to only get the errors from the file
-- 
2.43.0


From e9649798b0cd6a65b24ef43f2242933603d9f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 15/30] fix: a tree can be iterated and rendered by multiple
 threads at the same time

The position of the iteration was stored in the tree, so simultaneous
iterations skipped children and produced wrong type hints.
---
 .../data_type_tree/data_type_tree.py          | 13 +++---------
 .../generic_type/mapping_data_type_tree.py    | 19 +++---------------
 .../pandas_series_data_type_tree.py           | 20 ++++---------------
 .../generic_type/sequence_data_type_tree.py   | 20 ++++---------------
 .../generic_type/set_data_type_tree.py        | 20 ++++---------------
 .../simple_data_type_tree.py                  | 13 ++++--------
 6 files changed, 22 insertions(+), 83 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 45def19..4b7eac3 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -7,11 +7,11 @@ from __future__ import annotations
 import re
 from abc import ABC, abstractmethod
 from typing import (
-    TYPE_CHECKING,
     Any,
     ClassVar,
     FrozenSet,
     Hashable,
+    Iterator,
     Mapping,
     Optional,
     Sequence,
@@ -31,9 +31,6 @@ from lazy_type_hint.utils import (
 )
 from lazy_type_hint.utils.utils import TAB
 
-if TYPE_CHECKING:
-    from typing_extensions import Self
-
 
 class DataTypeTreeError(Exception):
     ...
@@ -297,8 +294,8 @@ class DataTypeTree(ABC):
         return f"{type(self).__name__}-{self.name}"
 
     @abstractmethod
-    def __iter__(self) -> Self:
-        """Get an iterator to iterate over the children of the tree."""
+    def __iter__(self) -> Iterator[DataTypeTree]:
+        """Get a new iterator to iterate over the children of the tree."""
 
     @final
     def __len__(self) -> int:
@@ -307,10 +304,6 @@ class DataTypeTree(ABC):
             return 0
         return len(self.children)
 
-    @abstractmethod
-    def __next__(self) -> DataTypeTree:
-        """Iterate over the children of the tree."""
-
     @final
     def print_all_children(self, *, recursive: bool = True) -> None:
         print("    " * self.depth + repr(self))
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 73b46aa..1d5c28a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -2,7 +2,7 @@ import re
 from collections import defaultdict
 from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
 
-from typing_extensions import Self, override
+from typing_extensions import override
 
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
@@ -14,10 +14,6 @@ class MappingDataTypeTree(GenericDataTypeTree):
     children: Mapping[Hashable, DataTypeTree]
     hidden_keys_prefix: Final = YamlFileModifier.prefix
 
-    # Iterable-protocol related
-    _keys: Iterator[Hashable]
-    _iterator: Iterator[Hashable]
-
     @override
     def _instantiate_children(self, data: Mapping[Hashable, object]) -> Mapping[Hashable, DataTypeTree]:  # type: ignore
         children: Dict[Hashable, DataTypeTree] = {}
@@ -130,14 +126,5 @@ class MappingDataTypeTree(GenericDataTypeTree):
         return frozenset(hashes)
 
     @override
-    def __iter__(self) -> "Self":
-        self._iterator = iter(self.children.keys())
-        return self
-
-    @override
-    def __next__(self) -> DataTypeTree:
-        key = next(self._iterator, None)
-        if key is not None:
-            return self.children[key]
-        else:
-            raise StopIteration
+    def __iter__(self) -> Iterator[DataTypeTree]:
+        return iter(tuple(self.children.values()))
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 6c3f858..eaf5ae5 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -1,7 +1,7 @@
-from typing import Any, Hashable, Sequence, Set, Tuple
+from typing import Any, Hashable, Iterator, Sequence, Set, Tuple
 
 import pandas as pd
-from typing_extensions import Self, override
+from typing_extensions import override
 
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
 from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import GenericDataTypeTree
@@ -13,8 +13,6 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
     children: Sequence[DataTypeTree]
     operations: SetAndSequenceOperations
 
-    _iterator: int
-
     @override
     def __pre_child_instantiation__(self) -> None:
         self.operations = SetAndSequenceOperations(self)
@@ -36,15 +34,5 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
         return frozenset(hashes)
 
     @override
-    def __iter__(self) -> "Self":
-        self._iterator = 0  # Reset the index to zero when starting a new iteration
-        return self
-
-    @override
-    def __next__(self) -> "DataTypeTree":
-        if self._iterator < len(self.children):
-            element = list(self.children)[self._iterator]
-            self._iterator += 1
-            return element
-        else:
-            raise StopIteration
+    def __iter__(self) -> "Iterator[DataTypeTree]":
+        return iter(tuple(self.children))
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index 3141c18..d997569 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -1,6 +1,6 @@
-from typing import TYPE_CHECKING, Hashable, List
+from typing import TYPE_CHECKING, Hashable, Iterator, List
 
-from typing_extensions import Self, override
+from typing_extensions import override
 
 from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import (
     GenericDataTypeTree,
@@ -14,8 +14,6 @@ if TYPE_CHECKING:
 class SequenceDataTypeTree(GenericDataTypeTree):
     operations: SetAndSequenceOperations
 
-    _iterator: int
-
     @override
     def __pre_child_instantiation__(self) -> None:
         self.operations = SetAndSequenceOperations(self)
@@ -28,15 +26,5 @@ class SequenceDataTypeTree(GenericDataTypeTree):
         return frozenset(hashes)
 
     @override
-    def __iter__(self) -> "Self":
-        self._iterator = 0  # Reset the index to zero when starting a new iteration
-        return self
-
-    @override
-    def __next__(self) -> "DataTypeTree":
-        if self._iterator < len(self.children):
-            element = list(self.children)[self._iterator]
-            self._iterator += 1
-            return element  # type: ignore
-        else:
-            raise StopIteration
+    def __iter__(self) -> "Iterator[DataTypeTree]":
+        return iter(tuple(self.children))  # type: ignore
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 5159989..f724633 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -1,6 +1,6 @@
-from typing import Any, Hashable, Literal, Sequence, Set, Tuple
+from typing import Any, Hashable, Iterator, Literal, Sequence, Set, Tuple
 
-from typing_extensions import Self, override
+from typing_extensions import override
 
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
 from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import (
@@ -14,8 +14,6 @@ class SetDataTypeTree(GenericDataTypeTree):
     children: Sequence[DataTypeTree]
     operations: SetAndSequenceOperations
 
-    _iterator: int
-
     @override
     def __pre_child_instantiation__(self) -> None:
         self.operations = SetAndSequenceOperations(self)
@@ -41,15 +39,5 @@ class SetDataTypeTree(GenericDataTypeTree):
         return frozenset(hashes)
 
     @override
-    def __iter__(self) -> "Self":
-        self._iterator = 0  # Reset the index to zero when starting a new iteration
-        return self
-
-    @override
-    def __next__(self) -> "DataTypeTree":
-        if self._iterator < len(self.children):
-            element = list(self.children)[self._iterator]
-            self._iterator += 1
-            return element
-        else:
-            raise StopIteration
+    def __iter__(self) -> "Iterator[DataTypeTree]":
+        return iter(tuple(self.children))
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py
index e85b00d..8af9b34 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py
@@ -1,6 +1,6 @@
-from typing import Hashable, Union, final
+from typing import Hashable, Iterator, Union, final
 
-from typing_extensions import Self, override
+from typing_extensions import override
 
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
 
@@ -17,13 +17,8 @@ class SimpleDataTypeTree(DataTypeTree):
 
     @final
     @override
-    def __iter__(self) -> "Self":
-        return self
-
-    @final
-    @override
-    def __next__(self) -> DataTypeTree:
-        raise StopIteration
+    def __iter__(self) -> Iterator[DataTypeTree]:
+        return iter(())
 
     @override
     def _get_hash(self) -> Hashable:
-- 
2.43.0


From e71eab0c9bd34e0dfc13653e5fa1ca4991bb6921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 16/30] fix: to_file does not fail if the folder is created by
 another thread or process

---
 lazy_type_hint/generators/lazy_type_hint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 2caa569..d71f846 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -38,7 +38,7 @@ class Tree:
                     "The given directory does not exist and permissions to create the folder "
                     "(create_non_existing_dir input argument) were not set"
                 )
-            os.makedirs(path_to_py.parent)
+            os.makedirs(path_to_py.parent, exist_ok=True)
         path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
-- 
2.43.0


From 618e46196e4c648f8502bb1b4a2784cb60623ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 17/30] fix: an error registering the class of a YAML file is
 not hidden by registering it again without comments

---
 lazy_type_hint/generators/lazy_type_hint_abc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index a935ebf..70e35f4 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -73,13 +73,13 @@ class LazyTypeHintABC(ABC):
             temporary_path = yaml_file_modifier.create_temporary_file_with_comments_as_keys()
             try:
                 new_path: PathT = type(path)(temporary_path)
-                potentially_modified_data = loader(new_path)
-                return self.from_data(potentially_modified_data, class_name=class_name)
+                data = loader(new_path)
             finally:
                 with suppress(OSError):
                     os.remove(temporary_path)
         except Exception:  # noqa: BLE001
-            return self.from_data(original_data, class_name=class_name)
+            data = original_data
+        return self.from_data(data, class_name=class_name)
 
     def from_data(
         self,
-- 
2.43.0


From 3799807e19c703e02e7dd4deaea8570639c89c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:47 +0000
Subject: [PATCH 18/30] fix: interruptions while the source of a function is
 parsed are not hidden

---
 .../simple_data_type_tree/function_data_type_tree.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index c92630d..d9ee72e 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -79,6 +79,6 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         code = textwrap.dedent(inspect.getsource(self.data))
         try:
             tree = ast.parse(code)
-        except:  # noqa: E722
+        except (SyntaxError, ValueError):
             return None
         return any(isinstance(node, ast.Return) for node in ast.walk(tree))
-- 
2.43.0


From 5558d3be34e2801d66f823f09debb4c13176d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 19/30] fix: streams are type hinted as such and not consumed
 as if they were any other iterator

---
 lazy_type_hint/data_type_tree/data_type_tree.py          | 9 +++++----
 .../generic_type/iterator_data_type_tree.py              | 3 ++-
 .../simple_data_type_tree/io_data_type_tree.py           | 7 +++++--
 lazy_type_hint/utils/import_manager.py                   | 2 ++
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 4b7eac3..58d4c8b 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -103,10 +103,11 @@ class DataTypeTree(ABC):
         if type(data) in DataTypeTree.subclasses:
             return DataTypeTree.subclasses[type(data)]
 
-        for subclass in DataTypeTree.subclasses.values():
-            for wrap in subclass.wraps:
-                if isinstance(data, wrap):
-                    return subclass
+        matches = [type_ for type_ in DataTypeTree.subclasses if isinstance(data, type_)]
+        for type_ in matches:
+            # The most specific one: Streams are iterators too, but they must not be consumed as such
+            if not any(other is not type_ and issubclass(other, type_) for other in matches):
+                return DataTypeTree.subclasses[type_]
         return DataTypeTree.subclasses[int]  # For instances created from any custom class.
 
     def _check_tree_is_correct_one(self, data: object) -> None:
diff --git a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
index fe641fe..6eb0a57 100644
--- a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
@@ -1,4 +1,5 @@
-from typing import Any, Iterator, Sequence, Tuple
+from collections.abc import Iterator
+from typing import Any, Sequence, Tuple
 
 from typing_extensions import override
 
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
index 180390f..e4f05a0 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
@@ -10,5 +10,8 @@ class IoDataTypeTree(SimpleDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        self.imports.add("TextIO").add("TypeAlias")
-        return f"{self.name}: TypeAlias = TextIO"
+        if isinstance(self.data, io.TextIOBase):
+            self.imports.add("TextIO").add("TypeAlias")
+            return f"{self.name}: TypeAlias = TextIO"
+        self.imports.add("BinaryIO").add("TypeAlias")
+        return f"{self.name}: TypeAlias = BinaryIO"
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index c0efde3..7696dbb 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -40,6 +40,7 @@ KEYWORDS_AVAILABLE: "TypeAlias" = Literal[
     "NDArray",
     "ModuleType",
     "TextIO",
+    "BinaryIO",
     "annotations",
 ]
 
@@ -79,6 +80,7 @@ class ImportManager:
             "TypeAlias": ("typing_extensions", "TypeAlias"),
             "pd.Scalar": ("pandas._typing", "Scalar"),
             "TextIO": ("typing", "TextIO"),
+            "BinaryIO": ("typing", "BinaryIO"),
             "Iterator": ("typing", "Iterator"),
             "annotations": ("__future__", "annotations"),
         }
-- 
2.43.0


From 5ac8d867c83a8673ef51d469292de127e370a989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:45 +0000
Subject: [PATCH 20/30] fix: no element of an iterator is requested twice if
 the dictionaries with it are merged

---
 .../data_type_tree/data_type_tree.py          |  5 +++++
 .../generic_type/iterator_data_type_tree.py   | 22 +++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 58d4c8b..22f68f7 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -9,9 +9,11 @@ from abc import ABC, abstractmethod
 from typing import (
     Any,
     ClassVar,
+    Dict,
     FrozenSet,
     Hashable,
     Iterator,
+    List,
     Mapping,
     Optional,
     Sequence,
@@ -65,6 +67,8 @@ class DataTypeTree(ABC):
     """Type of input data given."""
     strategies: ParsingStrategies
     """Strategies to follow when parsing the data."""
+    requested_elements: Dict[int, Tuple[object, List[object]]]  # Unique one shared among the whole tree
+    """Iterators found (by their id) and the elements requested from them, as these cannot be requested again."""
 
     subclasses: ClassVar[Mapping[Type[object], Type[DataTypeTree]]] = {}
     """Available subclasses according to the type they are able to parse."""
@@ -93,6 +97,7 @@ class DataTypeTree(ABC):
         self.depth = depth
         self.imports = ImportManager() if imports is None else imports
         self.parent = parent
+        self.requested_elements = {} if parent is None else parent.requested_elements
         self.__pre_child_instantiation__()
         self.children = self._instantiate_children(self.data)
         self.height = self._get_height()
diff --git a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
index 6eb0a57..4d86c12 100644
--- a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
@@ -1,5 +1,5 @@
 from collections.abc import Iterator
-from typing import Any, Sequence, Tuple
+from typing import Any, Iterable, List, Sequence, Tuple
 
 from typing_extensions import override
 
@@ -14,7 +14,25 @@ class IteratorDataTypeTree(SequenceDataTypeTree):
 
     @override
     def _instantiate_children(self, data: Sequence[Any]) -> Tuple[DataTypeTree, ...]:  # type: ignore
-        return self.operations.instantiate_children(data, allow_repeated_children=False)
+        if id(data) in self.requested_elements:  # Its parent was merged or it is repeated within the data
+            _, elements = self.requested_elements[id(data)]
+            return self.operations.instantiate_children(elements, allow_repeated_children=False)
+
+        elements = []
+        children = self.operations.instantiate_children(
+            self._keep_elements(data, elements),  # type: ignore[arg-type]
+            allow_repeated_children=False,
+        )
+        # The iterator is kept as well, so that its id is not reused
+        self.requested_elements[id(data)] = (data, elements)
+        return children
+
+    @staticmethod
+    def _keep_elements(data: Iterable[Any], elements: List[Any]) -> Iterable[Any]:
+        """Go through the data, adding every element to the given list."""
+        for element in data:
+            elements.append(element)
+            yield element
 
     @override
     def _get_str_top_node(self) -> str:
-- 
2.43.0


From 6a9caea95759f2902793b7fbef221d1ff7f3e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:58 +0000
Subject: [PATCH 21/30] fix: Mypy.scan_file does not ignore errors if
 ignore_errors is an iterator

---
 lazy_type_hint/utils/mypy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/utils/mypy.py b/lazy_type_hint/utils/mypy.py
index 89b2689..9403e9f 100644
--- a/lazy_type_hint/utils/mypy.py
+++ b/lazy_type_hint/utils/mypy.py
@@ -63,6 +63,7 @@ class Mypy:
         Returns:
             Result: The result of the type checking, including success status, errors, and the scanned string.
         """
+        ignore_errors = tuple(ignore_errors)  # It might be an iterator, and it is used once per error
         command = ["python3", "-m", "poetry", "run", "mypy"]
         if strict:
             command.append("--strict")
@@ -111,6 +112,7 @@ class Mypy:
             Result: The result of running Mypy.
 
         """
+        ignore_errors = tuple(ignore_errors)  # It might be an iterator, and it is used once per error
         command = ["mypy"]
         if strict:
             command.append("--strict")
-- 
2.43.0


From e850ee006974886d6edecfcf17aa83d4ee33a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:58 +0000
Subject: [PATCH 22/30] fix: files scanned by Mypy and the ones of check_code
 are read and written as UTF-8 too

---
 check_code.py                | 4 ++--
 lazy_type_hint/utils/mypy.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/check_code.py b/check_code.py
index 89d1832..7498a70 100644
--- a/check_code.py
+++ b/check_code.py
@@ -316,7 +316,7 @@ def _setup_auto_run() -> None:
         print("An automatic auto-run of this script is already set up.")
         return
 
-    with open(pre_push_path, "w") as f:
+    with open(pre_push_path, "w", encoding="utf-8") as f:
         f.write(PRE_PUSH_TEMPLATE.format(cwd=THIS_DIR, file=THIS_FILE))
     print(
         f"{Fore.LIGHTGREEN_EX}Auto run enabled!{Style.RESET_ALL} Whenever you push to "
@@ -335,7 +335,7 @@ def read_and_parse_args(path: str = "") -> Tuple[Mapping[str, Any], ...]:
     """
     if not path:
         path = os.path.join(THIS_DIR, "check_code_args.yaml")
-    with open(path) as f:
+    with open(path, encoding="utf-8") as f:
         all_args: List[Dict[str, Any]] = yaml.load(f, Loader=yaml.SafeLoader)
 
     # Check format
diff --git a/lazy_type_hint/utils/mypy.py b/lazy_type_hint/utils/mypy.py
index 9403e9f..edecd51 100644
--- a/lazy_type_hint/utils/mypy.py
+++ b/lazy_type_hint/utils/mypy.py
@@ -31,7 +31,7 @@ class Mypy:
             if isinstance(self.scanned, str):
                 raise ValueError("This method is only callable when a file has been scanned.")
             lines: List[str] = []
-            for idx, line in enumerate(self.scanned.read_text().splitlines()):
+            for idx, line in enumerate(self.scanned.read_text(encoding="utf-8").splitlines()):
                 lines.append(f"{idx} {line}")
             return "\n".join(lines)
 
-- 
2.43.0


From 73e62a54cc03344c53dcb5f8709403488ec4ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:58 +0000
Subject: [PATCH 23/30] fix: check_code fails if any of the selected tools is
 not configured and only runs the selected ones

---
 check_code.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/check_code.py b/check_code.py
index 7498a70..ed94f43 100644
--- a/check_code.py
+++ b/check_code.py
@@ -370,9 +370,15 @@ def filter_tools_to_be_used(
     if not only_use_tools:
         return args  # All tools
 
-    only_use_tools_ = only_use_tools.lower() if isinstance(only_use_tools, str) else set(only_use_tools)
+    available_tools = {arg["tool"] for arg in args}
+    only_use_tools_ = {only_use_tools.lower()} if isinstance(only_use_tools, str) else set(only_use_tools)
     if "all linters" in only_use_tools_:
-        return tuple([arg for arg in args if arg["tool"] != "pytest"])
+        only_use_tools_.remove("all linters")
+        only_use_tools_ |= available_tools - {"pytest"}
+
+    unknown_tools = only_use_tools_ - available_tools
+    if unknown_tools:
+        raise ValueError(f"Tools not found in the configuration file: {', '.join(sorted(unknown_tools))}")
 
     filtered_args: List[Mapping[str, Any]] = []
     for arg in args:
-- 
2.43.0


From cd7859690517aa9867aa995e49f3b084d3f3c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:55 +0000
Subject: [PATCH 24/30] fix: a single string as pass_if_output_contains in
 check_code does not match each of its characters

---
 check_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/check_code.py b/check_code.py
index ed94f43..fbd1650 100644
--- a/check_code.py
+++ b/check_code.py
@@ -229,6 +229,8 @@ def run_tool(
 
     # Modify status if there are some specific keywords
     if pass_if_output_contains:
+        if isinstance(pass_if_output_contains, str):
+            pass_if_output_contains = [pass_if_output_contains]
         for sub_str in pass_if_output_contains:
             if sub_str in output_str:
                 status = True
-- 
2.43.0


From e0d89574f91975a9f5625fc5db901888b740c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:29 +0000
Subject: [PATCH 25/30] fix: the pre-push hook of check_code is written
 completely or not at all, and it is executable

---
 check_code.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/check_code.py b/check_code.py
index fbd1650..5b1af75 100644
--- a/check_code.py
+++ b/check_code.py
@@ -318,8 +318,17 @@ def _setup_auto_run() -> None:
         print("An automatic auto-run of this script is already set up.")
         return
 
-    with open(pre_push_path, "w", encoding="utf-8") as f:
-        f.write(PRE_PUSH_TEMPLATE.format(cwd=THIS_DIR, file=THIS_FILE))
+    # A hook that is not complete would not stop any push, and one that is not executable is ignored by git
+    temporary_path = f"{pre_push_path}.{os.getpid()}.tmp"
+    try:
+        with open(temporary_path, "w", encoding="utf-8") as f:
+            f.write(PRE_PUSH_TEMPLATE.format(cwd=THIS_DIR, file=THIS_FILE))
+        os.chmod(temporary_path, 0o755)
+        os.replace(temporary_path, pre_push_path)
+    except BaseException:
+        if os.path.isfile(temporary_path):
+            os.remove(temporary_path)
+        raise
     print(
         f"{Fore.LIGHTGREEN_EX}Auto run enabled!{Style.RESET_ALL} Whenever you push to "
         "the online repo, code will be first checked."
-- 
2.43.0


From 055a523f017f5b8ef1d03b792618baceec9d558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:29 +0000
Subject: [PATCH 26/30] fix: an empty value for auto-linting in check_code is
 rejected instead of removing the pre-push hook

---
 check_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/check_code.py b/check_code.py
index 5b1af75..4b80071 100644
--- a/check_code.py
+++ b/check_code.py
@@ -82,7 +82,7 @@ class Arguments:
             if hasattr(args, field.name):
                 attributes[field.name] = getattr(args, field.name)
         try:
-            if auto_linting := attributes.get("auto_linting"):
+            if (auto_linting := attributes.get("auto_linting")) is not None:
                 if "enable" in auto_linting.lower():
                     attributes["auto_linting"] = True
                 elif "disable" in auto_linting.lower():
-- 
2.43.0


From 0a0fe4f2dc1fa9c2369b1ef14fba98264ef2df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 27/30] fix: do not repeat the overload decorator of the
 interface's methods

search_decorator only looked at the line directly above the method, which is
another decorator, so every registration added one more @overload to
from_data and from_yaml_file in the generated interface.
---
 lazy_type_hint/file_modifiers/py_file_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/py_file_modifier.py b/lazy_type_hint/file_modifiers/py_file_modifier.py
index dcdf2e9..2200965 100644
--- a/lazy_type_hint/file_modifiers/py_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/py_file_modifier.py
@@ -64,10 +64,10 @@ class PyFileModifier:
         output: List[int] = []
         for idx in lst:
             while "@" in self.lines[idx - 1]:
-                if f"@{decorator_name}" in self.lines[idx - 1]:
-                    output.append(idx - 1)
+                idx -= 1
+                if f"@{decorator_name}" in self.lines[idx]:
+                    output.append(idx)
                     break
-                break
         return output
 
     def search_method(self, method_name: str, *, return_index_above_decorator: bool = True) -> List[int]:
-- 
2.43.0


From 96796d258b136e095389af30e5b14f9c7de79f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:24 +0000
Subject: [PATCH 28/30] fix: class names that Python normalizes were accepted,
 and the interface imported a module that does not exist

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 93a2fa4..688f14a 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -3,6 +3,7 @@ import os
 import re
 import shutil
 import threading
+import unicodedata
 from contextlib import suppress
 from pathlib import Path
 from typing import (
@@ -134,7 +135,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
         class_name: str,
         **kwargs: Any,
     ) -> ObjectT:
-        if not is_valid_class_name(class_name):
+        # Python normalizes the identifiers: It would look for the module of the class with other name
+        if not is_valid_class_name(class_name) or unicodedata.normalize("NFKC", class_name) != class_name:
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
-- 
2.43.0


From a1c6ab80084cc974ecb3922aa627113b311ce601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 29/30] fix: class names that the interface already uses (e.g.
 Any or Path) were accepted, and it did not refer to the class

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 688f14a..875505e 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,4 +1,5 @@
 import ast
+import builtins
 import os
 import re
 import shutil
@@ -140,6 +141,9 @@ class LazyTypeHintLive(LazyTypeHintABC):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
+        # The interface would refer to what it already knows with that name, and not to the class
+        if class_name in {*dir(builtins), *globals(), *dir(LazyTypeHintLive), *LazyTypeHintLive.__annotations__}:
+            raise LazyTypeHintLiveError(f"Given class_name is already used by the interface: {class_name}")
         string_representation = cast(
             DataTypeTree, super().from_data(data=data, class_name=class_name)
         ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
-- 
2.43.0


From ecf20a3aff95b71a4916e81725d5ceb08c21edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:38 +0000
Subject: [PATCH 30/30] fix: Mypy.scan_file only ignored the errors that
 contain all the strings to ignore

---
 lazy_type_hint/utils/mypy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/mypy.py b/lazy_type_hint/utils/mypy.py
index edecd51..2309d46 100644
--- a/lazy_type_hint/utils/mypy.py
+++ b/lazy_type_hint/utils/mypy.py
@@ -130,7 +130,7 @@ class Mypy:
             raise ValueError(f"Mypy could not run: {result}")
 
         if ignore_errors:
-            error_lst = [line for line in error_lst if not all(ignore_error in line for ignore_error in ignore_errors)]
+            error_lst = [line for line in error_lst if not any(ignore_error in line for ignore_error in ignore_errors)]
         # Filter out to only get the errors from the file
         error_lst = [error for error in error_lst if Path(file).name in error]
         return self.Result(
-- 
2.43.0

