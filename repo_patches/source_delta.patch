From 5ccee3d2c88310aa63d7ff49efab529c93cc84f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:10 +0000
Subject: [PATCH 01/32] fix: keep metadata paths relative on Python 3.12 and
 newer

PurePath processes its arguments in __init__() since Python 3.12, so the
normalisation done in MetadataPath.__new__() had no effect: absolute
paths stayed absolute.
---
 dataladmetadatamodel/metadatapath.py | 32 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..c78d526 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,3 +1,4 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
@@ -5,6 +6,17 @@ from dataladmetadatamodel.log import logger
 
 class MetadataPath(PurePosixPath):
     def __new__(cls, *args):
+        if sys.version_info >= (3, 12):
+            # Since Python 3.12 the path arguments are processed in __init__().
+            return super().__new__(cls)
+        return super().__new__(cls, cls._get_relative_path(*args))
+
+    if sys.version_info >= (3, 12):
+        def __init__(self, *args):
+            super().__init__(self._get_relative_path(*args))
+
+    @staticmethod
+    def _get_relative_path(*args) -> str:
 
         posix_args = []
         for arg in args:
@@ -14,18 +26,14 @@ class MetadataPath(PurePosixPath):
 
         original_path = PurePosixPath(*posix_args)
         if not original_path.is_absolute():
-            created_path = super().__new__(
-                cls,
-                "/".join(original_path.parts))
-        else:
-            modified_path = "/".join(original_path.parts[1:])
-            created_path = super().__new__(cls, modified_path)
-            logger.warning(
-                f"Denied creation of absolute metadata path: {original_path}, "
-                f"created {modified_path} instead. This is considered an error "
-                f"in the calling code.")
-
-        return created_path
+            return "/".join(original_path.parts)
+
+        modified_path = "/".join(original_path.parts[1:])
+        logger.warning(
+            f"Denied creation of absolute metadata path: {original_path}, "
+            f"created {modified_path} instead. This is considered an error "
+            f"in the calling code.")
+        return modified_path
 
     def __str__(self):
         path_str = PurePosixPath.__str__(self)
-- 
2.43.0


From 4477b93590759b1bd0ae956b9680eb9911d22d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:48 +0000
Subject: [PATCH 02/32] fix: treat objects with a None-reference as saved

An empty tree is stored as a None-reference. After loading such a
reference, the object was considered unsaved: writing its container
failed with "modified object got lost", and purging it raised ValueError.
---
 dataladmetadatamodel/mappableobject.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..9468016 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -56,12 +56,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"construction."
 
         # We assume that objects that carry a reference have been
-        # saved in the location given by the reference.
-        super().__init__(
-            realm
-            if reference is not None and not reference.is_none_reference()
-            else None
-        )
+        # saved in the location given by the reference. That includes
+        # None-references, which represent empty objects.
+        super().__init__(realm if reference is not None else None)
 
         self.realm = realm
         self.reference = reference
-- 
2.43.0


From 9dea106838a32ad9a9a18de5fbffbd9d8558748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 03/32] fix: return a TreeVersionList reference for written
 tree version lists

A tree version list that was written and purged could not be read in
again, because its reference had the class name VersionList.
---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f39c695 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -111,4 +111,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From b0fca8088204538c4a5e680a29c5cb76b0633ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 04/32] fix: use the default destination when writing a purged
 object

write_out() without a destination on an object that was saved and purged
failed with "modified object got lost on None".
---
 dataladmetadatamodel/mappableobject.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 9468016..780ad7f 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -134,6 +134,8 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         from dataladmetadatamodel.mapper import get_mapper
 
+        destination_realm = destination_realm or self.realm
+
         # If the object is not mapped and not modified,
         # we do not have to do anything.
         if not self.mapped:
@@ -155,9 +157,6 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f" saved on {destination_realm}")
             return self.reference
 
-        if self.realm:
-            destination_realm = destination_realm or self.realm
-
         assert destination_realm is not None, \
             f"write_out({self}): no destination available for {self}"
 
-- 
2.43.0


From 4495676e23b0468c8079fa4081691b9d7edac305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 05/32] fix: do not change the realm of an object if writing it
 failed

After a failed write to a second repository, an object that is still
saved in the first one could be purged, but not be read in again.
---
 dataladmetadatamodel/mappableobject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 780ad7f..b5ce2e2 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -165,10 +165,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
+                self.realm = destination_realm
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
@@ -189,6 +188,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        self.realm = destination_realm
         self.set_saved_on(destination_realm)
 
         assert isinstance(self.reference, Reference), \
-- 
2.43.0


From 38a87fbe4f2b3b0eefbb9adb6b974ede9d7b59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:56 +0000
Subject: [PATCH 06/32] fix: write containers whose elements were modified and
 written separately

If an element of a saved container was modified and written on its own,
for example by unget_metadata() or unget_version_list(), or because it is
shared with another container, the container was considered saved,
although its stored representation referred to the old element. The
modification was lost on the next write_out() or purge().
---
 dataladmetadatamodel/mappableobject.py | 45 +++++++++++++++++++++++++-
 dataladmetadatamodel/mtreeproxy.py     |  4 +++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index b5ce2e2..5c4f697 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -5,6 +5,7 @@ from abc import (
 from contextlib import contextmanager
 from typing import (
     Iterable,
+    List,
     Optional,
 )
 
@@ -64,6 +65,10 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.reference = reference
         self.mapped = reference is None
 
+        # For every destination: the locations of the sub-objects that the
+        # stored representation of this object refers to.
+        self.saved_sub_object_locations = dict()
+
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
         """
@@ -81,6 +86,30 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # delegate to our subclasses
         return self.modifiable_sub_objects_impl()
 
+    def is_saved_on(self, destination: str) -> bool:
+        """
+        Check whether the object is saved on the given destination.
+
+        A modified sub-object might have been written to the destination
+        on its own. In this case all sub-objects are saved, but the stored
+        representation of this object still refers to the old version of
+        the sub-object, i.e. this object has to be written again.
+        """
+        if not super().is_saved_on(destination):
+            return False
+        return (
+            not self.mapped
+            or destination not in self.saved_sub_object_locations
+            or self.saved_sub_object_locations[destination]
+            == self._get_sub_object_locations())
+
+    def _get_sub_object_locations(self) -> List[Optional[str]]:
+        return [
+            sub_object.reference.location
+            if sub_object.reference is not None
+            else None
+            for sub_object in self.modifiable_sub_objects]
+
     def read_in(self,
                 backend_type: str = "git"
                 ) -> "MappableObject":
@@ -119,6 +148,8 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.saved_sub_object_locations = {
+                self.realm: self._get_sub_object_locations()}
 
         else:
 
@@ -190,6 +221,8 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
+        self.saved_sub_object_locations[destination_realm] = \
+            self._get_sub_object_locations()
 
         assert isinstance(self.reference, Reference), \
             f"write_out({self}): object {self} has no valid " \
@@ -200,12 +233,22 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            # Only realms on which the current state is completely
+            # saved can be used to read the object in again.
+            saved_on = {
+                destination
+                for destination in self.saved_on
+                if self.is_saved_on(destination)}
+
+            if len(saved_on) == 0:
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
             self.purge_impl()
             self.mapped = False
+            self.saved_on = saved_on
+            if self.realm not in saved_on:
+                self.realm = sorted(saved_on)[0]
 
     def ensure_mapped(self,
                       backend_type="git") -> bool:
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..69b9ca5 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -47,6 +47,10 @@ class MTreeProxy:
             assert mtree.leaf_class == leaf_class
             self.mtree = mtree
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
-- 
2.43.0


From da3b815e4722e04a3be92f3791f0b7f72ac432c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 07/32] fix: support metadata root records without
 dataset-level metadata

purge() and get_dataset_level_metadata() raised AttributeError if a
metadata root record has no dataset-level metadata.
---
 dataladmetadatamodel/metadatarootrecord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..2f177d6 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,11 +45,11 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
+        if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
-        if self.dataset_level_metadata is not None:
-            self.dataset_level_metadata = None
+        self.dataset_level_metadata = None
         self._file_tree = None
 
     def set_file_tree(self, file_tree: FileTree):
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From 4b8297e991d5beaef7778f11edb5692a09ffc65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 08/32] fix: write trees that contain empty sub-trees

Empty sub-trees, for example those that remain after the removal of the
last child, are represented by a None-reference, which git-mktree
rejects. Since git does not store empty trees in trees, skip them.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..30e9ed1 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -70,7 +70,11 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            if not child_node.reference.is_none_reference()
         ]
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
+
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From a1905d13d97f56f41800cdeb455311b2792574e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 09/32] fix: support line feeds in the names of tree elements

git-mktree reads one entry per line, names with line feeds have to be
quoted.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 30e9ed1..f8f02c2 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -80,12 +80,13 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        if '"' in input_string or '\n' in input_string:
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
                 + '"'
             )
         else:
-- 
2.43.0


From 8be792849ab19bd5537c6feb12247e3ea7fc8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 10/32] fix: do not alter line endings of loaded text

Loaded text was split into lines by str.splitlines(), which treats more
than line feeds as line boundaries, and re-joined with line feeds. Names
in tree listings were split at characters like U+2028, if git does not
quote them.
---
 .../mapper/gitmapper/gitbackend/subprocess.py | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..d00dda8 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -29,9 +29,18 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
-def checked_execute(arguments: Union[str, List[str]],
-                    stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+def split_lines(text: str) -> List[str]:
+    # Git terminates lines with line feeds. Other characters that are
+    # line boundaries for str.splitlines() can be part of a line.
+    lines = text.split("\n")
+    if lines[-1] == "":
+        lines.pop()
+    return lines
+
+
+def checked_execute_raw(arguments: Union[str, List[str]],
+                        stdin_content: Optional[Union[str, bytes]] = None
+                        ) -> Tuple[str, str]:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -45,9 +54,15 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
-    return (
-        result.stdout.decode().splitlines(),
-        result.stderr.decode().splitlines())
+    return result.stdout.decode(), result.stderr.decode()
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    stdout, stderr = checked_execute_raw(arguments, stdin_content)
+    return split_lines(stdout), split_lines(stderr)
 
 
 def git_command_line(repo_dir: str,
@@ -65,8 +80,7 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    return checked_execute_raw(cmd_line)[0]
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From 18ecb4452890cce618a2b0782a342c31aba294b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 11/32] fix: write empty trees

Writing an empty UUID set failed, because git-mktree received a blank
line.
---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index d00dda8..c4b7e01 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -164,10 +164,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -175,10 +175,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From e725ddf499001c16594c68fd0e8f7e28fab393ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 12/32] fix: copy the content of text objects

Text.deepcopy() created a copy without content.
---
 dataladmetadatamodel/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..cbfd906 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,7 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
+        copied_text.purge()
         return copied_text
-- 
2.43.0


From d73ad81b8e3a1d76287d9a0c6428de665d3d65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 13/32] fix: add extractor runs for new paths to file trees

get_metadata() returns None for unknown paths, it does not raise
AttributeError.
---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From 3e7c7950380a39edfd192f0d87ad2d8c9c3c933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 14/32] fix: compare metadata instance sets with multiple
 configurations

Extractor configurations are not sortable, the comparison raised
TypeError for sets with more than one configuration.
---
 dataladmetadatamodel/metadata.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..144f54e 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,15 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        # Instances are identified by their configuration, the order in
+        # which configurations were added is not relevant.
+        return (
+            len(self.parameter_set) == len(other.parameter_set)
+            and all(
+                configuration in other.parameter_set
+                and self.get_instance_for_configuration(configuration)
+                == other.get_instance_for_configuration(configuration)
+                for configuration in self.parameter_set))
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From 10bdb3c87a9c6e7f0f7b120f765bd4793029b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 15/32] fix: map version lists and UUID sets before accessing
 their elements

Setting a version list in a purged UUID set left the set in an unusable
state, un-getting elements of purged containers raised KeyError, and the
length of a purged version list was zero.
---
 dataladmetadatamodel/uuidset.py     | 2 ++
 dataladmetadatamodel/versionlist.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
@@ -60,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..c24933a 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -60,6 +60,7 @@ class VersionList(MappableObject):
             initial_set or dict()
 
     def __len__(self):
+        self.ensure_mapped()
         return sum([len(path_dict) for path_dict in self.version_set.values()])
 
     def purge_impl(self):
@@ -187,6 +188,7 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
+        self.ensure_mapped()
         version_record = self.version_set[primary_data_version][prefix_path]
         version_record.element.write_out(new_destination)
         version_record.element.purge()
-- 
2.43.0


From 8b0d4111743b81fe1294fd1f42ea7834fe84044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 16/32] fix: add object references for metadata root records in
 version lists

Metadata root records that are only contained in a version list, i.e.
not in a dataset tree, were deleted by git-gc, because git did not know
that they are referenced.
---
 .../mapper/gitmapper/versionlistmapper.py         | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f39c695..c0dc601 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -3,7 +3,10 @@ from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    add_blob_reference,
+    GitReference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -68,6 +71,7 @@ class VersionListGitMapper(Mapper):
                      force_write: bool
                      ) -> Reference:
 
+        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
         from dataladmetadatamodel.versionlist import VersionList
 
         assert isinstance(version_list, VersionList)
@@ -82,6 +86,15 @@ class VersionListGitMapper(Mapper):
             for version_record in prefix_set.values()
         ]
 
+        # Metadata root records are only referenced by location in the JSON
+        # string that represents the version list, so git does not know that
+        # they are used. (Trees register themselves when they are written.)
+        for prefix_set in version_list.version_set.values():
+            for version_record in prefix_set.values():
+                if isinstance(version_record.element, MetadataRootRecord):
+                    add_blob_reference(
+                        version_record.element.reference.location)
+
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
 
-- 
2.43.0


From 7a03a97ab51dbcb97cded5b698f5f400f2f48066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 17/32] fix: keep pending object references of different realms
 apart

Object references of all realms were stored in the realm that was flushed
first: its git-gc failed because of missing objects, and the objects in
the other realms were not protected.
---
 .../mapper/gitmapper/metadatamapper.py        |  4 +-
 .../gitmapper/metadatarootrecordmapper.py     |  6 +-
 .../mapper/gitmapper/objectreference.py       | 61 +++++++++++++++----
 .../mapper/gitmapper/versionlistmapper.py     |  3 +-
 dataladmetadatamodel/mtreeproxy.py            |  2 +-
 5 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..3200656 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -75,7 +75,7 @@ class MetadataGitMapper(Mapper):
         # JSON-strings that are stored in the
         # repository.
         metadata_blob_location = git_save_str(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         # Save reference. NB we don't add the metadata reference to the object
         # tree here. Our "owner" will do that if necessary. For example, the
@@ -105,7 +105,7 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..7ab827e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -76,7 +76,7 @@ class MetadataRootRecordGitMapper(Mapper):
                 "git",
                 force_write)
             if not file_tree_reference.is_none_reference():
-                add_tree_reference(file_tree_reference.location)
+                add_tree_reference(file_tree_reference.location, realm)
 
         if mrr.dataset_level_metadata is None:
             dataset_level_metadata_reference = Reference.get_none_reference("Metadata")
@@ -85,7 +85,9 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm,
                 "git",
                 force_write)
-            add_blob_reference(dataset_level_metadata_reference.location)
+            add_blob_reference(
+                dataset_level_metadata_reference.location,
+                realm)
 
         json_object = {
             Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..c71f6ee 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -1,9 +1,13 @@
 import enum
 import logging
+import os
 from pathlib import Path
 from typing import (
+    Dict,
+    Optional,
     Set,
     Tuple,
+    Union,
 )
 
 from ...mapper.reference import none_location
@@ -15,6 +19,10 @@ logger = logging.getLogger("datalad.metalad.gitmapper.objectreference")
 
 cached_object_references: Set[Tuple[EntryType, str]] = set()
 
+# The realms in which the cached object references have to be stored. None
+# stands for the next realm that is flushed.
+cached_object_reference_realms: Dict[Tuple[EntryType, str], Set[Optional[str]]] = dict()
+
 
 class GitReference(enum.Enum):
     TREE_VERSION_LIST = "refs/datalad/dataset-tree-version-list"
@@ -27,14 +35,42 @@ class GitReference(enum.Enum):
 checked_legacy_stores = set()
 
 
+def _normalize_realm(realm: Optional[Union[str, Path]]) -> Optional[str]:
+    return None if realm is None else os.path.realpath(realm)
+
+
 def add_object_reference(entry_type: EntryType,
-                         object_hash: str):
+                         object_hash: str,
+                         realm: Optional[Union[str, Path]] = None):
 
     if object_hash == none_location:
         logger.warning("attempt to add a None-reference")
         return
 
-    cached_object_references.add((entry_type, object_hash))
+    entry = (entry_type, object_hash)
+    cached_object_references.add(entry)
+    cached_object_reference_realms.setdefault(entry, set()).add(
+        _normalize_realm(realm))
+
+
+def _get_object_references_for(realm: Path) -> Set[Tuple[EntryType, str]]:
+    realms = {None, _normalize_realm(realm)}
+    return {
+        entry
+        for entry in cached_object_references
+        if cached_object_reference_realms.get(entry, {None}) & realms}
+
+
+def _discard_object_references_for(realm: Path,
+                                   entries: Set[Tuple[EntryType, str]]):
+    for entry in entries:
+        remaining_realms = cached_object_reference_realms.pop(entry, set()) - {
+            None,
+            _normalize_realm(realm)}
+        if remaining_realms:
+            cached_object_reference_realms[entry] = remaining_realms
+        else:
+            cached_object_references.discard(entry)
 
 
 def add_legacy_store_entries_from(realm: Path,
@@ -52,7 +88,7 @@ def add_legacy_store_entries_from(realm: Path,
                     f"{reference.value}) to new format")
 
         for entry in legacy_entries:
-            cached_object_references.add((entry_type, entry[2]))
+            add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
         return False
@@ -90,8 +126,6 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    global cached_object_references
-
     from .gitbackend.subprocess import git_update_ref
     from ..gitmapper.treeupdater import (
         PathInfo,
@@ -102,7 +136,8 @@ def flush_object_references(realm: Path):
 
     legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)
 
-    if cached_object_references:
+    object_references = _get_object_references_for(realm)
+    if object_references:
         path_infos = [
             PathInfo(
                 [
@@ -113,7 +148,7 @@ def flush_object_references(realm: Path):
                 ],
                 object_hash,
                 entry_type)
-            for entry_type, object_hash in cached_object_references
+            for entry_type, object_hash in object_references
         ]
 
         with locked_backend(realm):
@@ -125,7 +160,7 @@ def flush_object_references(realm: Path):
             tree_hash = add_paths(realm, path_infos, root_entries)
             git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)
 
-        cached_object_references = set()
+        _discard_object_references_for(realm, object_references)
 
     if legacy_trees_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)
@@ -133,12 +168,14 @@ def flush_object_references(realm: Path):
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
 
-def add_tree_reference(object_hash: str):
-    add_object_reference(EntryType.Directory, object_hash)
+def add_tree_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.Directory, object_hash, realm)
 
 
-def add_blob_reference(object_hash: str):
-    add_object_reference(EntryType.File, object_hash)
+def add_blob_reference(object_hash: str,
+                       realm: Optional[Union[str, Path]] = None):
+    add_object_reference(EntryType.File, object_hash, realm)
 
 
 def remove_object_reference(*args, **kwargs):
diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index c0dc601..42dd289 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -93,7 +93,8 @@ class VersionListGitMapper(Mapper):
             for version_record in prefix_set.values():
                 if isinstance(version_record.element, MetadataRootRecord):
                     add_blob_reference(
-                        version_record.element.reference.location)
+                        version_record.element.reference.location,
+                        realm)
 
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 69b9ca5..f49bec8 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -85,7 +85,7 @@ class MTreeProxy:
             MetadataGitMapper.flush_realm(cache_destination)
 
         if not reference.is_none_reference():
-            add_tree_reference(reference.location)
+            add_tree_reference(reference.location, cache_destination)
         return reference
 
     def purge(self):
-- 
2.43.0


From 50dc0c90c65ea758622cd8004bdf92d8cec2524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 18/32] fix: do not drop object references if they could not be
 read

If reading the existing object references failed, they were replaced by
the new object references.
---
 .../mapper/gitmapper/gitbackend/subprocess.py   | 17 +++++++++++++++++
 .../mapper/gitmapper/objectreference.py         |  9 ++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index c4b7e01..880c09f 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -1,6 +1,7 @@
 import json
 import shlex
 import subprocess
+from pathlib import Path
 from typing import (
     Any,
     Dict,
@@ -117,6 +118,22 @@ def git_object_exists_locally(repo_dir: str,
     return execute(cmd_line).returncode == 0
 
 
+def git_reference_exists(repo_dir: str,
+                         reference_name: str) -> bool:
+    result = execute(
+        git_command_line(
+            repo_dir,
+            "show-ref",
+            ["--verify", "--quiet", reference_name]))
+    if result.returncode in (0, 1):
+        return result.returncode == 0
+    if not (Path(repo_dir) / ".git" / "HEAD").exists():
+        return False
+    raise RuntimeError(
+        f"could not check for reference {reference_name} in {repo_dir}: "
+        f"{result.stderr.decode()}")
+
+
 def git_read_tree_node(repo_dir: str,
                        object_reference: str) -> List[str]:
     repo_dir = adapt_for_remote(repo_dir, object_reference)
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index c71f6ee..5019092 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -126,7 +126,10 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import (
+        git_reference_exists,
+        git_update_ref,
+    )
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -155,6 +158,10 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                # Do not replace existing object references,
+                # if they could not be read.
+                if git_reference_exists(str(realm), GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From e50d2c13b57290344db52e2b357cb8b165d2d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 19/32] fix: do not replace existing top-level objects by empty
 ones

If one of the two top-level objects was missing, or if one of them could
not be read, for example due to a temporary failure, both were reported
as missing, and get_top_nodes_and_metadata_root_record() with auto_create
replaced the existing one by a new object.
---
 dataladmetadatamodel/common.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..9a118bb 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -69,10 +69,32 @@ def get_top_level_metadata_objects(
             realm,
             get_uuid_set_location(mapper_family)))
 
+    return (
+        _read_top_level_object(tree_version_list),
+        _read_top_level_object(uuid_set))
+
+
+def _read_top_level_object(
+        top_level_object: Union[TreeVersionList, UUIDSet]
+        ) -> Optional[Union[TreeVersionList, UUIDSet]]:
+    """
+    Read a top-level object, return None if it does not exist.
+
+    An object that exists but could not be read, must not be reported as
+    missing, because it would then be replaced by a new object.
+    """
+    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+        git_reference_exists,
+    )
+
+    realm = top_level_object.realm
+    location = top_level_object.reference.location
     try:
-        return tree_version_list.read_in(), uuid_set.read_in()
+        return top_level_object.read_in()
     except RuntimeError:
-        return None, None
+        if Reference.is_local(realm) and git_reference_exists(realm, location):
+            raise
+        return None
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From e64b9b32c7b82addbb8070b20360778f54854df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 20/32] fix: write cached bytes-blobs and do not depend on the
 locale encoding

The blob cache accepts and hashes str and bytes, but could only write
str, and wrote it in the encoding of the locale, not in UTF-8.
---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index a0fa835..18bb470 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -73,8 +73,8 @@ class GitBlobCache:
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-            with temp_file_path.open("tw") as f:
-                f.write(blob)
+            temp_file_path.write_bytes(
+                blob.encode() if isinstance(blob, str) else blob)
             file_list.append(str(temp_file_path))
 
         hash_values = git_save_file_list(self.realm, file_list)
-- 
2.43.0


From f4d6c7d380c73d127c6d2b4fc5ec3675cd0cc72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 21/32] fix: recover from failures while file trees are written

If writing a file tree failed, the blob cache stayed registered, so every
further write to the realm failed with "already caching realm", and the
metadata objects in the cache were considered saved, although their blobs
were never written. Object references to these blobs were also created.
---
 .../mapper/gitmapper/gitblobcache.py          |  6 ++++
 .../mapper/gitmapper/metadatamapper.py        | 30 +++++++++++++++++--
 dataladmetadatamodel/mtreeproxy.py            | 19 +++++++-----
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index 18bb470..36ddcbb 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -55,6 +55,12 @@ class GitBlobCache:
         self.cached_objects.append((blob, expected_hash))
         return expected_hash
 
+    def discard(self):
+        """
+        Drop all cached objects that were not flushed yet
+        """
+        self.cached_objects = []
+
     def flush(self):
         """
         Write all cached objects to a git repository,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index 3200656..7559e11 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -1,4 +1,8 @@
-from typing import Dict
+from typing import (
+    Dict,
+    List,
+    Tuple,
+)
 
 from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
 from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
@@ -15,6 +19,10 @@ class MetadataGitMapper(Mapper):
 
     metadata_caches: Dict[str, GitBlobCache] = dict()
 
+    # Metadata objects, and the locations of their blobs,
+    # that were written to the cache since it was created
+    cached_metadata: Dict[str, List[Tuple["Metadata", str]]] = dict()
+
     @classmethod
     def get_cache(cls, realm: str):
         return cls.metadata_caches.get(realm, None)
@@ -24,6 +32,7 @@ class MetadataGitMapper(Mapper):
         if cls.get_cache(realm) is not None:
             raise RuntimeError(f"already caching realm: {realm}")
         cls.metadata_caches[realm] = GitBlobCache(realm)
+        cls.cached_metadata[realm] = []
 
     @classmethod
     def flush_realm(cls, realm: str):
@@ -31,8 +40,22 @@ class MetadataGitMapper(Mapper):
         if cache is None:
             raise RuntimeError(f"realm is not cached: {realm}")
         cache.flush()
+        for _, metadata_blob_location in cls.cached_metadata.pop(realm):
+            add_blob_reference(metadata_blob_location, realm)
         del cls.metadata_caches[realm]
 
+    @classmethod
+    def discard_realm(cls, realm: str):
+        """
+        Stop caching the realm after an error. Metadata objects whose blobs
+        might not have been written to the realm are not saved on it.
+        """
+        for metadata, _ in cls.cached_metadata.pop(realm, []):
+            metadata.saved_on.discard(realm)
+        cache = cls.metadata_caches.pop(realm, None)
+        if cache is not None:
+            cache.discard()
+
     def map_in_impl(self,
                     metadata: "Metadata",
                     realm: str,
@@ -105,7 +128,6 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location, realm)
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
@@ -113,6 +135,10 @@ class MetadataGitMapper(Mapper):
                 "Metadata",
                 metadata_blob_location).to_json_str())
 
+        # Remember the object until the cache is flushed, because neither its
+        # blobs nor a reference to them exist in the realm before that.
+        self.cached_metadata[realm].append((metadata, metadata_blob_location))
+
         return Reference(
             "Metadata",
             metadata_reference_blob_location)
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index f49bec8..4c99a0a 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -76,13 +76,18 @@ class MTreeProxy:
         cache_destination = destination or self.mtree.realm
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
-
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+            try:
+                reference = self.mtree.write_out(destination,
+                                                 backend_type,
+                                                 force_write)
+                MetadataGitMapper.flush_realm(cache_destination)
+            except BaseException:
+                MetadataGitMapper.discard_realm(cache_destination)
+                raise
+        else:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location, cache_destination)
-- 
2.43.0


From 13eef96c9302181a0b84ee2a219aba3e898796e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 22/32] fix: do not pass repository paths through a shell

Paths with spaces or shell meta-characters were split or interpreted by
the shell, and a failed read was copied as empty object, because only
the exit status of the last command in the pipe was checked.
---
 dataladmetadatamodel/metadatasource.py | 31 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..1e73227 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -18,7 +18,7 @@ import logging
 import subprocess
 from copy import deepcopy
 from pathlib import Path
-from typing import IO, Optional
+from typing import IO, List, Optional
 
 from dataladmetadatamodel import (
     JSONObject,
@@ -93,10 +93,14 @@ class LocalGitMetadataSource(MetadataSource):
             and self.git_repository_path == other.git_repository_path
             and self.object_reference == other.object_reference)
 
+    def _cat_file_command(self) -> List[str]:
+        return [
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference]
+
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = self._cat_file_command()
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +112,18 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
-        copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+        content = subprocess.run(
+            self._cat_file_command(),
+            stdout=subprocess.PIPE,
+            check=True).stdout
+        copied_object_reference = subprocess.run(
+            [
+                "git", "--git-dir", str(destination_repository / ".git"),
+                "hash-object", "-w", "--stdin"
+            ],
+            input=content,
+            stdout=subprocess.PIPE,
+            check=True).stdout.decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 37debe04f7f2540dfb4ee6bc0136621026babc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 23/32] fix: use the same lock for all spellings of a realm

Locking a realm again under a different path, for example a relative
path or a path with symbolic links, used a second file handle of the same
lock file: its release dropped the lock of the outer user.
---
 dataladmetadatamodel/mapper/gitmapper/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/utils.py b/dataladmetadatamodel/mapper/gitmapper/utils.py
index 1afff10..ea9668b 100644
--- a/dataladmetadatamodel/mapper/gitmapper/utils.py
+++ b/dataladmetadatamodel/mapper/gitmapper/utils.py
@@ -75,7 +75,8 @@ def unlock_backend(realm: Path):
 
 
 def get_lock_dir(realm: Path, create_directory: bool = True) -> Path:
-    lock_dir = realm / ".git"
+    # Different spellings of a realm must yield the same lock
+    lock_dir = (realm / ".git").resolve()
     if not lock_dir.exists() and create_directory:
         # if exist_ok is False, we might get an error if
         # a concurrent mapper tries to lock the same
-- 
2.43.0


From eec9713c6838f12ac5d98be8a58f5667ca80e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 24/32] fix: forget locations of sub-objects when an empty
 object is loaded

---
 dataladmetadatamodel/mappableobject.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 5c4f697..15b38dc 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -127,6 +127,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 assert self.reference.class_name == type(self).__name__
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
+                self.saved_sub_object_locations = dict()
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From c3172f12d7bc1c4bfb3f5dd85d7a402eb226bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 25/32] fix: do not report an unavailable remote store as
 missing

---
 dataladmetadatamodel/common.py                                | 2 +-
 .../mapper/gitmapper/gitbackend/subprocess.py                 | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 9a118bb..b6c31af 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -92,7 +92,7 @@ def _read_top_level_object(
     try:
         return top_level_object.read_in()
     except RuntimeError:
-        if Reference.is_local(realm) and git_reference_exists(realm, location):
+        if git_reference_exists(realm, location):
             raise
         return None
 
diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 880c09f..b76c569 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -120,6 +120,10 @@ def git_object_exists_locally(repo_dir: str,
 
 def git_reference_exists(repo_dir: str,
                          reference_name: str) -> bool:
+    if Reference.is_remote(repo_dir):
+        return bool(
+            checked_execute(["git", "ls-remote", repo_dir, reference_name])[0])
+
     result = execute(
         git_command_line(
             repo_dir,
-- 
2.43.0


From fea566174b3a5052f8b9a3129bcb8126b8eb5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 26/32] fix: compare and serialise metadata that is not in
 memory

---
 dataladmetadatamodel/metadata.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 144f54e..a0d6165 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -15,7 +15,10 @@ from dataladmetadatamodel import (
     check_serialized_version,
     version_string
 )
-from dataladmetadatamodel.mappableobject import MappableObject
+from dataladmetadatamodel.mappableobject import (
+    MappableObject,
+    ensure_mapped,
+)
 from dataladmetadatamodel.mapper.reference import Reference
 
 
@@ -243,7 +246,8 @@ class Metadata(MappableObject):
         self.instance_sets: Dict[str, MetadataInstanceSet] = dict()
 
     def __eq__(self, other):
-        return self.instance_sets == other.instance_sets
+        with ensure_mapped(self), ensure_mapped(other):
+            return self.instance_sets == other.instance_sets
 
     @staticmethod
     def get_empty_instance(realm: Optional[str] = None,
@@ -296,16 +300,17 @@ class Metadata(MappableObject):
         self.instance_sets[extractor_name] = instance_set
 
     def to_json(self) -> str:
-        return json.dumps({
-            "@": dict(
-                type="Metadata",
-                version=version_string
-            ),
-            "instance_sets": {
-                format_name: instance_set.to_json_obj()
-                for format_name, instance_set in self.instance_sets.items()
-            }
-        })
+        with ensure_mapped(self):
+            return json.dumps({
+                "@": dict(
+                    type="Metadata",
+                    version=version_string
+                ),
+                "instance_sets": {
+                    format_name: instance_set.to_json_obj()
+                    for format_name, instance_set in self.instance_sets.items()
+                }
+            })
 
     def init_from_json(self, json_str) -> None:
         obj = json.loads(json_str)
-- 
2.43.0


From 8f240850e869a5f9003cf194af3207f5c1a9715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 27/32] fix: report failures to read an object index in the old
 format

---
 .../mapper/gitmapper/objectreference.py            | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index 5019092..8f87943 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -77,7 +77,10 @@ def add_legacy_store_entries_from(realm: Path,
                                   reference: GitReference,
                                   entry_type: EntryType):
 
-    from .gitbackend.subprocess import git_ls_tree
+    from .gitbackend.subprocess import (
+        git_ls_tree,
+        git_reference_exists,
+    )
 
     try:
         legacy_entries = (
@@ -91,6 +94,10 @@ def add_legacy_store_entries_from(realm: Path,
             add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
+        # Do not treat a legacy store as missing,
+        # if it could not be read.
+        if git_reference_exists(str(realm), reference.value):
+            raise
         return False
 
 
@@ -99,8 +106,6 @@ def add_legacy_store_entries(realm: Path) -> Tuple[bool, bool]:
     Add legacy store entries to the cache, if they exist
     """
     if realm not in checked_legacy_stores:
-        checked_legacy_stores.add(realm)
-
         legacy_trees_added = add_legacy_store_entries_from(
             realm,
             GitReference.LEGACY_TREES,
@@ -174,6 +179,9 @@ def flush_object_references(realm: Path):
     if legacy_blobs_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
+    # Only a completely converted legacy store need not be checked again
+    checked_legacy_stores.add(realm)
+
 
 def add_tree_reference(object_hash: str,
                        realm: Optional[Union[str, Path]] = None):
-- 
2.43.0


From 1698d087eab8a318d4d0f561a7838dc176943582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 28/32] fix: create the cache of a remote store independent of
 GIT_DIR

---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index b76c569..ffa5e11 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -108,7 +108,17 @@ def git_load_json(repo_dir: str, object_reference: str) -> Union[Dict, List]:
 
 
 def git_init(repo_dir: str) -> None:
-    cmd_line = ["git", "init", repo_dir]
+    # Name the repository explicitly. Otherwise, variables like GIT_DIR, that
+    # are set e.g. in git hooks, would redirect the command to another one.
+    repo_dir = str(Path(repo_dir).absolute())
+    cmd_line = [
+        "git",
+        "--git-dir",
+        repo_dir + "/.git",
+        "--work-tree",
+        repo_dir,
+        "init",
+        repo_dir]
     checked_execute(cmd_line)
 
 
-- 
2.43.0


From 9e44de14d4cd254a2062cb1d6a0e0f7ef2b932a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 29/32] fix: create the cache of a remote store in one step

---
 .../mapper/gitmapper/localcache.py                | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/localcache.py b/dataladmetadatamodel/mapper/gitmapper/localcache.py
index a1c6532..8c2bf34 100644
--- a/dataladmetadatamodel/mapper/gitmapper/localcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/localcache.py
@@ -3,6 +3,8 @@ Different remote repositories have to be cached in different
 local repositories to avoid conflicts in reference name space
 """
 import hashlib
+import os
+import tempfile
 from pathlib import Path
 
 import appdirs
@@ -32,7 +34,18 @@ def get_repo_cache_path(remote_repo: str) -> Path:
 def ensure_cache_exists(remote_repo: str):
     cache_path = get_repo_cache_path(remote_repo)
     if not cache_path.exists():
-        git_init(str(cache_path))
+        # Nobody must ever see an incomplete repository, neither another
+        # process, nor the next call after a failure.
+        cache_repository_base.mkdir(parents=True, exist_ok=True)
+        with tempfile.TemporaryDirectory(dir=cache_repository_base) as temp_dir:
+            new_cache_path = Path(temp_dir) / cache_path.name
+            git_init(str(new_cache_path))
+            try:
+                os.rename(new_cache_path, cache_path)
+            except OSError:
+                # Another process might have created the cache meanwhile
+                if not cache_path.exists():
+                    raise
 
 
 def cache_object(remote_repo: str, object_id: str):
-- 
2.43.0


From fba093933754ecd026cdb20315a0a30e273c5a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 30/32] fix: load top-level objects that are stored for the
 first time meanwhile

---
 dataladmetadatamodel/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index b6c31af..e189749 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -92,9 +92,11 @@ def _read_top_level_object(
     try:
         return top_level_object.read_in()
     except RuntimeError:
-        if git_reference_exists(realm, location):
-            raise
-        return None
+        if not git_reference_exists(realm, location):
+            return None
+    # The object exists. If it was stored just now, it can be read. If not,
+    # the repeated attempt will report the reason.
+    return top_level_object.read_in()
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From 9c7ec9cc66ac4fb5820e1da34aa1475e27240c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 31/32] fix: do not refer to a location of another repository

---
 dataladmetadatamodel/mappableobject.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 15b38dc..123ba71 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -213,13 +213,22 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): calling map_out to save {self} "
             f"to {destination_realm}")
 
-        self.reference = get_mapper(
+        reference = get_mapper(
             type(self).__name__,
             backend_type).map_out(
                 self,
                 destination_realm,
                 force_write)
 
+        # Realms that hold the object under another location, e.g. because
+        # it was stored there in an older format, do not have an object at the
+        # new location. It has to be written again, if it is saved there.
+        if (
+                isinstance(self.reference, Reference)
+                and self.reference.location != reference.location):
+            self.set_unsaved()
+
+        self.reference = reference
         self.realm = destination_realm
         self.set_saved_on(destination_realm)
         self.saved_sub_object_locations[destination_realm] = \
-- 
2.43.0


From e672f2618189567dfa1ee698254e3f99a1b7f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 32/32] fix: store an empty file tree like a file tree that is
 not present

---
 .../mapper/gitmapper/metadatarootrecordmapper.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 7ab827e..fd0beaa 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -75,7 +75,11 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm,
                 "git",
                 force_write)
-            if not file_tree_reference.is_none_reference():
+            if file_tree_reference.is_none_reference():
+                # An empty file tree is stored like a file tree that is not
+                # present, which it is after the record is loaded.
+                file_tree_reference = Reference.get_none_reference("FileTree")
+            else:
                 add_tree_reference(file_tree_reference.location, realm)
 
         if mrr.dataset_level_metadata is None:
-- 
2.43.0

