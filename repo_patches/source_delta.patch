From e4119523fc6fa536836c0e21daa3e1806ca94062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 01/14] fix: keep the sides of a merge conflict in branch order

When a change of the second branch reached past a copied fragment of the
first, the conflict showed the second branch's text as the first
alternative and the other way round.
---
 src/gaspra/merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 5598fa0..77b6eda 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -187,6 +187,9 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
 
     elif isinstance(fragment0, CopyFragment) and isinstance(fragment1, ChangeFragment):
         output, tail0, tail1 = copy_change(fragment0, fragment1)
+        if isinstance(output, ConflictFragment):
+            # copy_change() puts the change first.
+            output = ConflictFragment(output.version2, output.version1)
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
-- 
2.43.0


From 71963c753b63af6a2f21452046dc36b7d2af7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 02/14] fix: merge byte strings and tuples whose conflicts are
 empty on one side

The empty side of a conflict was the string '', which cannot be joined
with bytes or concatenated to a tuple.
---
 src/gaspra/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 77b6eda..61396f9 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -165,9 +165,9 @@ def flush_remaining(fragments0, fragments1, within_conflict):
     remaining = fragments0 or fragments1
     for item in reversed(remaining):
         if within_conflict and remaining == fragments0:
-            yield ConflictFragment(item.insert, "")
+            yield ConflictFragment(item.insert, item.insert[0:0])
         elif within_conflict:
-            yield ConflictFragment("", item.insert)
+            yield ConflictFragment(item.insert[0:0], item.insert)
         else:
             yield item
 
@@ -206,8 +206,8 @@ def pending_conflict(fragment0: InputType, fragment1: InputType):
     head0, tail0 = split_fragment(fragment0, min_length)
     head1, tail1 = split_fragment(fragment1, min_length)
 
-    from0 = head0.insert if head0 else ""
-    from1 = head1.insert if head1 else ""
+    from0 = head0.insert if head0 else fragment0.insert[0:0]
+    from1 = head1.insert if head1 else fragment1.insert[0:0]
 
     output = ConflictFragment(from0, from1)
     return output, tail0, tail1
-- 
2.43.0


From cae27c22314c77e60c8ebae0ac12a06cd879ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 03/14] fix: keep an insertion beside a deletion out of a later
 conflict

A pure insertion of one branch that met a pure deletion of the other was
added to the deletion, and so moved to the other branch's side of a
conflict when the deletion conflicted with what followed.
---
 src/gaspra/merge.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 61396f9..1717b2f 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -278,14 +278,10 @@ def change_change(fragment0: ChangeFragment, fragment1: ChangeFragment):
 def has_composable_changes(fragment0, fragment1):
     # This is an edge case that showed up in testing. If one change is a
     # pure insertion (no deletion) and the other is a pure deletion (no
-    # insertion), they can be combined into a single conflict-free
-    # change.  It needs to be pushed back onto the input list to be
-    # processed properly One input sequence was [insert x/delete
-    # nothing][s] The other input sequence was [insert nothing/delete
-    # s]. These are transformed to the sequences 1) [s] and 2) [insert
-    # x/delete s] by pushing [insert x/delete s] back onto the input
-    # queue which has the affect of inserting 's' at position where 's'
-    # was.  See compose_changes() for how the changes are composed.
+    # insertion), they don't conflict.  The insertion goes to the output
+    # and the deletion is pushed back onto its own input list, because
+    # the other input may still copy or change what it deletes.  See
+    # compose_changes().
 
     return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
         len(fragment0.insert) == 0 and fragment1.length == 0
@@ -294,19 +290,9 @@ def has_composable_changes(fragment0, fragment1):
 
 def compose_changes(fragment0, fragment1):
     if fragment0.length == 0 and len(fragment1.insert) == 0:
-        tail1 = ChangeFragment(
-            fragment0.insert,
-            fragment1.delete,
-            fragment1.length,
-        )
-        return None, None, tail1
+        return fragment0, None, fragment1
     elif len(fragment0.insert) == 0 and fragment1.length == 0:
-        tail0 = ChangeFragment(
-            fragment1.insert,
-            fragment0.delete,
-            fragment0.length,
-        )
-        return None, tail0, None
+        return fragment1, fragment0, None
     else:  # pragma: no cover
         raise ValueError("Changes are not composable")
 
-- 
2.43.0


From 0f58606b2290f77d9dd647a941f9a737bd7cd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 04/14] fix: extend a merge conflict that a change starts
 inside copied text

A change of one branch that reached past a copied fragment of the other
started a conflict but did not mark it as pending, so the rest of the
change was merged without conflict: merging (abcz, xaybcz, z) kept a in
a conflict, dropped bc, and placed y outside of the conflict.
---
 src/gaspra/merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 1717b2f..f1507b8 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -190,9 +190,11 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
         if isinstance(output, ConflictFragment):
             # copy_change() puts the change first.
             output = ConflictFragment(output.version2, output.version1)
+            within_conflict = True
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
+        within_conflict = isinstance(output, ConflictFragment)
 
     else:  # pragma: no cover
         raise RuntimeError(f"Unexpected types: {type(fragment0)} or {type(fragment1)}")
-- 
2.43.0


From 8f9d9082cb88c1b22173d86d8591738eb4f390f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:45 +0000
Subject: [PATCH 05/14] fix: don't emit an empty token after a final newline in
 LineTokenizer

---
 src/gaspra/tokenizers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..60339d8 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -148,7 +148,10 @@ class LineTokenizer(Generic[BytesOrStr]):
             split_on = cast(BytesOrStr, "\n")
 
         split = cast(list[BytesOrStr], contents.split(split_on))
-        lines = [*(line + split_on for line in split[:-1]), split[-1]]
+        lines = [line + split_on for line in split[:-1]]
+        # A final separator ends the last line.  It doesn't begin another one.
+        if split[-1]:
+            lines.append(split[-1])
         encoded, self.bytes_decoding = generic_encode(lines, self.bytes_encoding)
         return encoded
 
-- 
2.43.0


From d77bc13379f8c80b96c052cb098fa0252d3b41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 06/14] fix: let decode_changes() apply the transformation
 merged() passes on

---
 src/gaspra/tokenizers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 60339d8..446cb28 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -203,22 +203,24 @@ class SymbolTokenizer(Generic[BytesOrStr]):
         return generic_decode(contents, self.decoding, cast(BytesOrStr, joiner))
 
 
-def decode_changes(changes: DiffIterable, tokenizer: Tokenizer) -> DiffIterable:
+def decode_changes(
+    changes: DiffIterable, tokenizer: Tokenizer, transform=lambda _: _
+) -> DiffIterable:
     """
     Decode a changeset.  Changesets are first computed on token stream.
     This function decodes each token in a Changeestto a str or a bytes
     object.
 
-    It also applies an optional function escape() to the result.
+    It also applies an optional function transform() to the result.
     """
     for change in changes:
         if isinstance(change, Change):
             yield Change(
-                tokenizer.decode(change.a),
-                tokenizer.decode(change.b),
+                transform(tokenizer.decode(change.a)),
+                transform(tokenizer.decode(change.b)),
             )
         else:
-            yield tokenizer.decode(change)
+            yield transform(tokenizer.decode(change))
 
 
 def decode_and_line_diff_changes(
-- 
2.43.0


From 26c789c619466a0bf6a7c1b4232a7cd402d7710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 07/14] fix: don't share one tokenizer between all calls of
 diff() and merged()

---
 src/gaspra/tokenizers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 446cb28..7f34cd8 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -231,13 +231,16 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -250,7 +253,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -259,6 +262,9 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From c190f5c629f5ff9de25dac067439bcf764debacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 08/14] fix: add a version based on one that is no longer a
 head

---
 src/gaspra/versions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 987b5bd..1f40fe3 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -35,6 +35,11 @@ class Versions:
         self.head_version[tag] = version
         self.tree.add(tag, existing_head)
 
+        # A base that is no longer a head is stored below one.
+        # The new version goes on top of that head.
+        if existing_head is not None and existing_head not in self.head_version:
+            existing_head = self.tree.path_to(existing_head)[0]
+
         # Find the best split best split among the descendants of existing_head.
         if existing_head is not None:
             split, path_to_split = self.tree.get_split(existing_head)
-- 
2.43.0


From 6452e153b7c9f95da533f17b8668db27f7045651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:52 +0000
Subject: [PATCH 09/14] fix: add a manifest that names items its base does not
 have

---
 src/gaspra/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..43cae2e 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -24,7 +24,7 @@ def add_manifest(
             versions.add(
                 tag,
                 contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
+                base_manifest.get(name) if base_manifest is not None else None,
             )
 
     manifest_doc = manifest_to_doc(manifest)
-- 
2.43.0


From b457a56dedc1ae83be7730a0a9810c39fc3d080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:12 +0000
Subject: [PATCH 10/14] fix: diff -s and merge -s raised a TypeError, and
 changed the styles of later calls

---
 src/gaspra/markup.py     |  4 ++--
 src/gaspra/merge_tool.py | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..89622f7 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -38,11 +38,11 @@ COLORED_LEVEL1 = {
 }
 
 
-def strikeout_level0() -> str:
+def strikeout_level0(_) -> str:
     return "[dark_red strike]"
 
 
-def strikeout_level1() -> str:
+def strikeout_level1(_) -> str:
     return "[pink1 strike]"
 
 
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..262ec04 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -143,21 +143,24 @@ def get_markup_function(arguments, escape, allow_strikeout=True):
 
 
 def get_markup_style(arguments, allow_strikeout=True):
+    strikeout = arguments.strikeout and allow_strikeout
+
+    # Only the colored styles have a strikeout form.
     if arguments.git_compatible:
         level0 = GIT_MARKUP_LEVEL0
     else:
         level0 = COLORED_LEVEL0
+        if strikeout:
+            level0 = level0 | {"from": level0["from"] | {"prefix": strikeout_level0}}
     if arguments.output:
         level1 = PLAIN_LEVEL1
     else:
         level1 = COLORED_LEVEL1
+        if strikeout:
+            level1 = level1 | {"from": level1["from"] | {"prefix": strikeout_level1}}
 
     markup = {"level0": level0, "level1": level1}
 
-    if arguments.strikeout and allow_strikeout:
-        markup["level0"]["from"] = strikeout_level0
-        markup["level1"]["from"] = strikeout_level1
-
     return copy.deepcopy(markup)
 
 
-- 
2.43.0


From b6431ab2935a3c05d0fc35d0376943bdbfcd6d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:12 +0000
Subject: [PATCH 11/14] fix: escape backslashes in text shown on the console

---
 src/gaspra/markup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 89622f7..db8bdf2 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -7,7 +7,9 @@ from gaspra.types import Change
 
 
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    # A backslash would escape a bracket or tag that follows it, so double it
+    # and put an empty tag behind it.
+    return s.translate({ord("["): r"\[", ord("\\"): r"\\[none][/none]"})
 
 
 COLORED_LEVEL0 = {
-- 
2.43.0


From 13d5064000c04edb7f220b8d4205352f6dec8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:12 +0000
Subject: [PATCH 12/14] fix: escape file names after taking their base name

---
 src/gaspra/merge_tool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 262ec04..3a3d072 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -133,9 +133,9 @@ def get_markup_function(arguments, escape, allow_strikeout=True):
             changeset,
             markup0=markup["level0"],
             markup1=markup["level1"],
-            name_into=os.path.basename(branch0),
-            name_from=os.path.basename(branch1),
-            header=os.path.basename(header) if header else None,
+            name_into=escape(os.path.basename(branch0)),
+            name_from=escape(os.path.basename(branch1)),
+            header=escape(os.path.basename(header)) if header else None,
             escape=escape,
         )
 
@@ -275,8 +275,8 @@ def diff_cli():
         display_function(
             writer,
             changes,
-            escape(modified_name),
-            escape(original_name),
+            modified_name,
+            original_name,
         )
 
 
-- 
2.43.0


From 42d206772e48749b5d21b8bb80cb0dc278fe3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:23 +0000
Subject: [PATCH 13/14] fix: show text on the console without emoji codes and
 line breaks of rich's own

---
 src/gaspra/markup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index db8bdf2..517e32d 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,5 +1,6 @@
 from contextlib import contextmanager
 import io
+import sys
 
 from rich.console import Console
 
@@ -66,7 +67,10 @@ def file_writer(filename):
 
 @contextmanager
 def console_writer():
-    console = Console(force_terminal=None, highlight=False)
+    # The text is shown as it is: no emoji codes and no line breaks of rich's own.
+    console = Console(
+        force_terminal=None, highlight=False, emoji=False, width=sys.maxsize
+    )
 
     def print(s):
         console.print(s, end="")
-- 
2.43.0


From 5540e74d148aeffecba28e428e661c8d7ab1c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:23 +0000
Subject: [PATCH 14/14] fix: a Separator must not equal any token

---
 src/gaspra/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/types.py b/src/gaspra/types.py
index 0234675..acfb857 100644
--- a/src/gaspra/types.py
+++ b/src/gaspra/types.py
@@ -1,5 +1,6 @@
 from collections.abc import Hashable, Iterable, Sequence
 from collections import namedtuple
+from dataclasses import dataclass
 from typing import TypeVar
 
 Token = Hashable
@@ -13,7 +14,14 @@ StringIterable = Iterable[str]
 BytesIterable = Iterable[bytes]
 TokenSequenceIterable = Iterable[TokenSequence]
 
-Separator = namedtuple("Separator", "index")
+
+# A Separator must not equal any token (as a named tuple, it would equal
+# the one-tuple that holds its index).
+@dataclass(frozen=True)
+class Separator:
+    index: int
+
+
 Change = namedtuple("Change", ["a", "b"])
 CommonSlice = namedtuple("Common", ["a_slice", "b_slice"])
 
-- 
2.43.0

