From 5051de4ca4a827e010c4da997d31b1ba7bf7b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 01/20] fix: merge: keep conflict sides with their branches

When branch1's change overlapped a copied run of branch0, the two sides of
the conflict were swapped, so picking one side mixed both branches' text.
---
 src/gaspra/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 5598fa0..6409ddc 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -187,6 +187,10 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
 
     elif isinstance(fragment0, CopyFragment) and isinstance(fragment1, ChangeFragment):
         output, tail0, tail1 = copy_change(fragment0, fragment1)
+        # copy_change() puts the change's text first, but here it's branch 1
+        # that made the change.
+        if isinstance(output, ConflictFragment):
+            output = ConflictFragment(output.version2, output.version1)
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
-- 
2.43.0


From 53f335ffb150220e664c6440ac5aa98597782d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 02/20] fix: merge: don't attribute an insertion to the branch
 that deleted

An insertion composed with the other branch's deletion became part of that
branch's change.  If the deletion then conflicted, the inserting branch's own
side of the conflict lost the inserted text.
---
 src/gaspra/merge.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 6409ddc..663eeb7 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -280,13 +280,13 @@ def has_composable_changes(fragment0, fragment1):
     # This is an edge case that showed up in testing. If one change is a
     # pure insertion (no deletion) and the other is a pure deletion (no
     # insertion), they can be combined into a single conflict-free
-    # change.  It needs to be pushed back onto the input list to be
-    # processed properly One input sequence was [insert x/delete
-    # nothing][s] The other input sequence was [insert nothing/delete
-    # s]. These are transformed to the sequences 1) [s] and 2) [insert
-    # x/delete s] by pushing [insert x/delete s] back onto the input
-    # queue which has the affect of inserting 's' at position where 's'
-    # was.  See compose_changes() for how the changes are composed.
+    # change.  One input sequence was [insert x/delete nothing][s] The
+    # other input sequence was [insert nothing/delete s]. The insertion
+    # is output immediately and the deletion is pushed back onto the
+    # input queue, which has the affect of inserting 'x' at position
+    # where 's' was.  The deletion alone may still turn out to conflict
+    # with what follows, but then 'x' isn't part of that conflict.  See
+    # compose_changes() for how the changes are composed.
 
     return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
         len(fragment0.insert) == 0 and fragment1.length == 0
@@ -295,19 +295,9 @@ def has_composable_changes(fragment0, fragment1):
 
 def compose_changes(fragment0, fragment1):
     if fragment0.length == 0 and len(fragment1.insert) == 0:
-        tail1 = ChangeFragment(
-            fragment0.insert,
-            fragment1.delete,
-            fragment1.length,
-        )
-        return None, None, tail1
+        return fragment0, None, fragment1
     elif len(fragment0.insert) == 0 and fragment1.length == 0:
-        tail0 = ChangeFragment(
-            fragment1.insert,
-            fragment0.delete,
-            fragment0.length,
-        )
-        return None, tail0, None
+        return fragment1, fragment0, None
     else:  # pragma: no cover
         raise ValueError("Changes are not composable")
 
-- 
2.43.0


From c910d05cb0ffa53c31ffcc64175bb9d223fb80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 03/20] fix: merge: conflicts in bytes raised TypeError

The missing side of a conflict was filled in with a str.
---
 src/gaspra/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 663eeb7..db1cd2d 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -165,9 +165,9 @@ def flush_remaining(fragments0, fragments1, within_conflict):
     remaining = fragments0 or fragments1
     for item in reversed(remaining):
         if within_conflict and remaining == fragments0:
-            yield ConflictFragment(item.insert, "")
+            yield ConflictFragment(item.insert, item.insert[0:0])
         elif within_conflict:
-            yield ConflictFragment("", item.insert)
+            yield ConflictFragment(item.insert[0:0], item.insert)
         else:
             yield item
 
@@ -207,8 +207,8 @@ def pending_conflict(fragment0: InputType, fragment1: InputType):
     head0, tail0 = split_fragment(fragment0, min_length)
     head1, tail1 = split_fragment(fragment1, min_length)
 
-    from0 = head0.insert if head0 else ""
-    from1 = head1.insert if head1 else ""
+    from0 = head0.insert if head0 else fragment0.insert[0:0]
+    from1 = head1.insert if head1 else fragment1.insert[0:0]
 
     output = ConflictFragment(from0, from1)
     return output, tail0, tail1
-- 
2.43.0


From cfe5f1877cdc9217a0392a8f0a8f3e7c40d70d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 04/20] fix: diff: default tokenizer was shared between calls

diff() of two str made a later diff() of two bytes raise RuntimeError.
---
 src/gaspra/tokenizers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..b633161 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -226,13 +226,17 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    # A tokenizer remembers the type it encodes, so don't share the default.
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -245,7 +249,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -254,6 +258,9 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From 02179b46a42f5faba2d1d7de7c1b86619030a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 05/20] fix: merged() always raised TypeError

decode_changes() documents an optional function to apply to the decoded
text, and merged() passes one, but decode_changes() didn't accept it.
---
 src/gaspra/tokenizers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index b633161..32cff8e 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -200,7 +200,9 @@ class SymbolTokenizer(Generic[BytesOrStr]):
         return generic_decode(contents, self.decoding, cast(BytesOrStr, joiner))
 
 
-def decode_changes(changes: DiffIterable, tokenizer: Tokenizer) -> DiffIterable:
+def decode_changes(
+    changes: DiffIterable, tokenizer: Tokenizer, escape=lambda _: _
+) -> DiffIterable:
     """
     Decode a changeset.  Changesets are first computed on token stream.
     This function decodes each token in a Changeestto a str or a bytes
@@ -211,11 +213,11 @@ def decode_changes(changes: DiffIterable, tokenizer: Tokenizer) -> DiffIterable:
     for change in changes:
         if isinstance(change, Change):
             yield Change(
-                tokenizer.decode(change.a),
-                tokenizer.decode(change.b),
+                escape(tokenizer.decode(change.a)),
+                escape(tokenizer.decode(change.b)),
             )
         else:
-            yield tokenizer.decode(change)
+            yield escape(tokenizer.decode(change))
 
 
 def decode_and_line_diff_changes(
-- 
2.43.0


From 494ef3b14fa24e885643f3a12fbe11e8c4815bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 06/20] fix: LineTokenizer: no empty token after a final
 newline

A patch fragment ending in a newline was encoded with an additional empty
token, so that Versions using LineTokenizer retrieved corrupted versions.
---
 src/gaspra/tokenizers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 32cff8e..f185ccb 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -148,7 +148,11 @@ class LineTokenizer(Generic[BytesOrStr]):
             split_on = cast(BytesOrStr, "\n")
 
         split = cast(list[BytesOrStr], contents.split(split_on))
-        lines = [*(line + split_on for line in split[:-1]), split[-1]]
+        lines = [line + split_on for line in split[:-1]]
+        # Nothing follows a final newline.  An extra empty line would shift
+        # the tokens after it when encoded fragments are put together.
+        if split[-1]:
+            lines.append(split[-1])
         encoded, self.bytes_decoding = generic_encode(lines, self.bytes_encoding)
         return encoded
 
-- 
2.43.0


From 18669401f06adc3507a345636e0ca3424bd9579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 07/20] fix: --strikeout raised TypeError

The whole "from" style was replaced by a function instead of just its
prefix, and that was done to the shared style rather than to a copy.
---
 src/gaspra/merge_tool.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..3084075 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -152,13 +152,17 @@ def get_markup_style(arguments, allow_strikeout=True):
     else:
         level1 = COLORED_LEVEL1
 
-    markup = {"level0": level0, "level1": level1}
+    # Copy before modifying because the styles are shared.
+    markup = copy.deepcopy({"level0": level0, "level1": level1})
 
     if arguments.strikeout and allow_strikeout:
-        markup["level0"]["from"] = strikeout_level0
-        markup["level1"]["from"] = strikeout_level1
+        # Only colored styles have a font to strike out.
+        if level0 is COLORED_LEVEL0:
+            markup["level0"]["from"]["prefix"] = lambda _: strikeout_level0()
+        if level1 is COLORED_LEVEL1:
+            markup["level1"]["from"]["prefix"] = lambda _: strikeout_level1()
 
-    return copy.deepcopy(markup)
+    return markup
 
 
 def get_writer(arguments):
-- 
2.43.0


From b9becd85a73fad0cf609e7f584e76c90088e4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 08/20] fix: gaspra-diff and gaspra-merge rewrote line endings

Files were read with newline translation, so that CRLF line endings were
replaced and changes between line endings went unnoticed.
---
 src/gaspra/markup.py     | 2 +-
 src/gaspra/merge_tool.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..d271719 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -56,7 +56,7 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8")
+    file = open(filename, "wt", encoding="utf-8", newline="")
 
     yield file.write, lambda _: _
     file.close()
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 3084075..7d30c3c 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -285,11 +285,11 @@ def get_text(*filenames: str) -> tuple[str, ...]:
     data = []
     for filename in filenames:
         try:
-            with open(filename, "rt", encoding="utf-8") as f:
+            with open(filename, "rt", encoding="utf-8", newline="") as f:
                 data.append(f.read())
 
         except UnicodeDecodeError:
-            with open(filename, "rt", encoding="iso-8859-1") as f:
+            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                 data.append(f.read())
 
     return tuple(data)
-- 
2.43.0


From 7aee52b8ef63deb2a375b5acbebfb072ca01f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 09/20] fix: console output lost or replaced parts of the text

Text resembling markup disappeared after a backslash, a backslash before a
markup tag broke the tag, emoji codes were replaced, and newlines were
inserted in long lines.
---
 src/gaspra/markup.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index d271719..f8a7a8f 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -2,12 +2,20 @@ from contextlib import contextmanager
 import io
 
 from rich.console import Console
+from rich.text import Text
 
 from gaspra.types import Change
 
 
+# Lone surrogates can't occur in decoded text, so they can stand in for the
+# two characters that are special in rich markup.  Whether a backslash has to
+# be escaped depends on what follows, and that isn't known here.
+ESCAPES = str.maketrans({"[": "\udc5b", "\\": "\udc5c"})
+UNESCAPES = str.maketrans({"\udc5b": "[", "\udc5c": "\\"})
+
+
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    return s.translate(ESCAPES)
 
 
 COLORED_LEVEL0 = {
@@ -67,7 +75,10 @@ def console_writer():
     console = Console(force_terminal=None, highlight=False)
 
     def print(s):
-        console.print(s, end="")
+        text = Text.from_markup(s, emoji=False)
+        text.plain = text.plain.translate(UNESCAPES)
+        # Use soft_wrap so that console doesn't add newlines to long lines.
+        console.print(text, end="", soft_wrap=True)
 
     yield print, rich_escape
     return
-- 
2.43.0


From ac604498c6ac83f5ca4dad8a4bae2020b58d45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 10/20] fix: find_lcs_multiple() confused tokens with
 separators

A token (0,) was equal to Separator(0).
---
 src/gaspra/types.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/types.py b/src/gaspra/types.py
index 0234675..c147b3a 100644
--- a/src/gaspra/types.py
+++ b/src/gaspra/types.py
@@ -1,5 +1,6 @@
 from collections.abc import Hashable, Iterable, Sequence
 from collections import namedtuple
+from dataclasses import dataclass
 from typing import TypeVar
 
 Token = Hashable
@@ -13,7 +14,15 @@ StringIterable = Iterable[str]
 BytesIterable = Iterable[bytes]
 TokenSequenceIterable = Iterable[TokenSequence]
 
-Separator = namedtuple("Separator", "index")
+
+
+# Not a namedtuple, which would be equal to any token that's a tuple with
+# the same index.
+@dataclass(frozen=True)
+class Separator:
+    index: int
+
+
 Change = namedtuple("Change", ["a", "b"])
 CommonSlice = namedtuple("Common", ["a_slice", "b_slice"])
 
-- 
2.43.0


From 199f025058c940746c3e4e3e292cf1f35de739f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 11/20] fix: DBCollection isn't a MutableMapping

Versions.version_info() calls get(), which DBCollection didn't have.
---
 src/gaspra/db_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index e0bc021..0f81210 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -1,3 +1,4 @@
+from collections.abc import MutableMapping
 from typing import Callable
 
 from sqlite3 import Connection
@@ -34,7 +35,7 @@ FROM {table}
 """
 
 
-class DBCollection:
+class DBCollection(MutableMapping):
     table: str
     connection_factory: Callable[[], Connection]
 
-- 
2.43.0


From a1f354338c07d3e8e44c178e06abecdf78c61ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 12/20] fix: gaspra-merge didn't escape file names

Brackets in a file name were taken for markup on the console.
---
 src/gaspra/merge_tool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 7d30c3c..ce82f3c 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -217,9 +217,9 @@ def _merge(parent_name, current_name, other_name, arguments):
                 diff_markup(
                     writer,
                     changes,
-                    branch_name,
-                    parent_name,
-                    header=branch_name,
+                    escape(branch_name),
+                    escape(parent_name),
+                    header=escape(branch_name),
                 )
 
             if arguments.show_lines or arguments.git_compatible:
@@ -239,8 +239,8 @@ def _merge(parent_name, current_name, other_name, arguments):
         merge_markup(
             writer,
             merged,
-            current_name,
-            other_name,
+            escape(current_name),
+            escape(other_name),
             header="Merged" if arguments.diff else None,
         )
 
-- 
2.43.0


From 971256ef42fabfb12dcaa214333dda365f814d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 13/20] fix: add_manifest() couldn't add a name missing from
 the base manifest

---
 src/gaspra/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..43cae2e 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -24,7 +24,7 @@ def add_manifest(
             versions.add(
                 tag,
                 contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
+                base_manifest.get(name) if base_manifest is not None else None,
             )
 
     manifest_doc = manifest_to_doc(manifest)
-- 
2.43.0


From 38e9e5affdb5d81efba25f8ad8ccc369a18e0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 14/20] fix: adding to a version that's no longer a head raised
 KeyError

add_manifest() does so when a file returns to earlier contents, when two
names share contents, and when two manifests have the same base.
---
 src/gaspra/versions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 987b5bd..c620b58 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -32,11 +32,16 @@ class Versions:
     tokenizer_factory: Callable[[], Tokenizer] = NullTokenizer
 
     def add(self, tag: Hashable, version: bytes, existing_head: Hashable | None = None):
+        if existing_head is not None and existing_head not in self.tree:
+            raise KeyError(existing_head)
+
         self.head_version[tag] = version
         self.tree.add(tag, existing_head)
 
         # Find the best split best split among the descendants of existing_head.
-        if existing_head is not None:
+        # A version that's already another version's child keeps its parent, and
+        # `tag` is just the head of a new branch.
+        if existing_head is not None and existing_head in self.head_version:
             split, path_to_split = self.tree.get_split(existing_head)
         else:
             split = existing_head = path_to_split = None
-- 
2.43.0


From cd8dc9bd37f832a147fef4d20d73e5c66b14cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 15/20] fix: diffing and merging exceeded the recursion limit

The tree of changes is as deep as the number of changes when the common
parts have equal lengths, e.g., when every other line is changed.
---
 src/gaspra/changesets.py | 106 ++++++++++++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 30 deletions(-)

diff --git a/src/gaspra/changesets.py b/src/gaspra/changesets.py
index 9704f5b..bfaa8ca 100644
--- a/src/gaspra/changesets.py
+++ b/src/gaspra/changesets.py
@@ -106,6 +106,19 @@ class Changeset:
     prefix: Changeset | ChangesetLeaf
     suffix: Changeset | ChangesetLeaf
 
+    def _in_order(self) -> Iterable[ChangesetLeaf | CommonSlice]:
+        """Iterate over the leaves and the common parts of the tree in
+        order.  The tree can be very deep so this isn't recursive."""
+        to_do: list[Changeset | ChangesetLeaf | CommonSlice] = [self]
+        while to_do:
+            item = to_do.pop()
+            if isinstance(item, Changeset):
+                to_do.append(item.suffix)
+                to_do.append(CommonSlice(item.common_original, item.common_modified))
+                to_do.append(item.prefix)
+            else:
+                yield item
+
     def _stream(
         self, original: str | TokenSequence
     ) -> Iterable[ChangeFragment | CopyFragment]:
@@ -114,10 +127,12 @@ class Changeset:
         # Construction of the tree creates "empty" changesets.  Omit
         # those from the output stream.
 
-        yield from self.prefix._stream(original)
-        copy = original[self.common_original]
-        yield CopyFragment(insert=copy, length=len(copy))
-        yield from self.suffix._stream(original)
+        for item in self._in_order():
+            if isinstance(item, ChangesetLeaf):
+                yield from item._stream(original)
+            else:
+                copy = original[item.a_slice]
+                yield CopyFragment(insert=copy, length=len(copy))
 
     def as_change_stream(self) -> ChangeIterable:
         """Produce a simple output stream containing changes.
@@ -128,9 +143,11 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_change_stream()
-        yield CommonSlice(self.common_original, self.common_modified)
-        yield from self.suffix.as_change_stream()
+        for item in self._in_order():
+            if isinstance(item, ChangesetLeaf):
+                yield from item.as_change_stream()
+            else:
+                yield item
 
     def as_diff_stream(self, original: str | TokenSequence) -> DiffIterable:
         """Produce a simpler output stream than _stream() suitable
@@ -141,19 +158,25 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_diff_stream(original)
-        yield original[self.common_original]
-        yield from self.suffix.as_diff_stream(original)
+        for item in self._in_order():
+            if isinstance(item, ChangesetLeaf):
+                yield from item.as_diff_stream(original)
+            else:
+                yield original[item.a_slice]
 
     def old_apply_forward(self, original: str | TokenSequence):
-        yield from self.prefix.old_apply_forward(original)
-        yield original[self.common_original]
-        yield from self.suffix.old_apply_forward(original)
+        for item in self._in_order():
+            if isinstance(item, ChangesetLeaf):
+                yield from item.old_apply_forward(original)
+            else:
+                yield original[item.a_slice]
 
     def old_apply_reverse(self, modified: str | TokenSequence):
-        yield from self.prefix.old_apply_reverse(modified)
-        yield modified[self.common_modified]
-        yield from self.suffix.old_apply_reverse(modified)
+        for item in self._in_order():
+            if isinstance(item, ChangesetLeaf):
+                yield from item.old_apply_reverse(modified)
+            else:
+                yield modified[item.b_slice]
 
     # Exclude __str__ from coverage because it's only used for debugging.
     def __str__(self):  # pragma: no cover
@@ -216,6 +239,41 @@ def find_changeset(
     original_slice: slice = slice(0, None),
     modified_slice: slice = slice(0, None),
 ) -> Changeset | ChangesetLeaf:
+    # The tree can be very deep so this isn't recursive.  Each changeset
+    # gets its prefix and its suffix after it's been created.
+    changeset = _split(original, modified, original_slice, modified_slice)
+    to_do = [(changeset, original_slice, modified_slice)]
+
+    while to_do:
+        parent, original_slice, modified_slice = to_do.pop()
+        if isinstance(parent, ChangesetLeaf):
+            continue
+
+        prefix_slices = (
+            slice(original_slice.start, parent.common_original.start),
+            slice(modified_slice.start, parent.common_modified.start),
+        )
+        suffix_slices = (
+            slice(parent.common_original.stop, original_slice.stop),
+            slice(parent.common_modified.stop, modified_slice.stop),
+        )
+        parent.prefix = _split(original, modified, *prefix_slices)
+        parent.suffix = _split(original, modified, *suffix_slices)
+        to_do.append((parent.prefix, *prefix_slices))
+        to_do.append((parent.suffix, *suffix_slices))
+
+    return changeset
+
+
+def _split(
+    original: TokenSequence,
+    modified: TokenSequence,
+    original_slice: slice,
+    modified_slice: slice,
+) -> Changeset | ChangesetLeaf:
+    """Return a leaf if the two slices have nothing in common.  Otherwise
+    return a changeset for their longest common part.  Its prefix and its
+    suffix are yet to be determined."""
     automaton_original = build(original[original_slice])
 
     common_offset_original, common_offset_modified, common_length = find_lcs(
@@ -239,21 +297,9 @@ def find_changeset(
             modified_slice.start + common_offset_modified + common_length,
         )
 
-        prefix = find_changeset(
-            original,
-            modified,
-            slice(original_slice.start, common_original.start),
-            slice(modified_slice.start, common_modified.start),
-        )
-        suffix = find_changeset(
-            original,
-            modified,
-            slice(common_original.stop, original_slice.stop),
-            slice(common_modified.stop, modified_slice.stop),
-        )
         changeset = Changeset(
-            prefix=prefix,
-            suffix=suffix,
+            prefix=None,  # type: ignore
+            suffix=None,  # type: ignore
             common_original=common_original,
             common_modified=common_modified,
         )
-- 
2.43.0


From e7cc359869d13f6c972cfea1b421b5b9cc27a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 16/20] fix: line diff added an empty line to a version ending
 in a newline

If just one version of a final change lacked a newline, or was empty, both
versions got an additional one.
---
 src/gaspra/diff_to_lines.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/diff_to_lines.py b/src/gaspra/diff_to_lines.py
index 7218d1a..9e08fa1 100644
--- a/src/gaspra/diff_to_lines.py
+++ b/src/gaspra/diff_to_lines.py
@@ -72,8 +72,18 @@ class DiffAccumulator:
 
     def flush(self):
         if self.in_conflict:
-            tail = "" if self.finishable else "\n"
-            yield from self.finish_conflict(tail)
+            # Supply the final newline only to the version that lacks it.
+            for version, partial_line in enumerate(
+                (self.partial_line_into, self.partial_line_from)
+            ):
+                text = "".join(
+                    item[version] if isinstance(item, Change) else item
+                    for item in partial_line
+                )
+                if text and text[-1] != "\n":
+                    partial_line.append("\n")
+
+            yield from self.finish_conflict("")
 
         elif self.partial_line_from and self.partial_line_from[0]:
             # If not in a conflict, partial_line_into should be exactly
-- 
2.43.0


From 80aacf64f701a3ff8dbc6fde0143cb8a62578110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 17/20] fix: console output dropped whitespace at the end of
 long lines

---
 src/gaspra/markup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index f8a7a8f..2021826 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,5 +1,6 @@
 from contextlib import contextmanager
 import io
+import sys
 
 from rich.console import Console
 from rich.text import Text
@@ -72,7 +73,8 @@ def file_writer(filename):
 
 @contextmanager
 def console_writer():
-    console = Console(force_terminal=None, highlight=False)
+    # Trailing whitespace beyond the width would be dropped, so don't limit it.
+    console = Console(force_terminal=None, highlight=False, width=sys.maxsize)
 
     def print(s):
         text = Text.from_markup(s, emoji=False)
-- 
2.43.0


From 491bff2fe3b2547f6585dcbad9426be3e01b6843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 18/20] fix: markers weren't at the start of a line after a
 header

---
 src/gaspra/markup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 2021826..fa494fc 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -30,6 +30,7 @@ GIT_MARKUP_LEVEL0 = {
     "into": {"prefix": lambda s: f"<<<<<<< {s}\n", "suffix": lambda _: ""},
     "from": {"prefix": lambda _: "", "suffix": lambda s: f">>>>>>> {s}\n"},
     "separator": "=======\n",
+    "header": {"prefix": "", "suffix": "\n"},
 }
 
 PLAIN_LEVEL1 = {
-- 
2.43.0


From c41ab5bf5ce532a8c530fdf457da904cf7a5bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 19/20] fix: write the names of files that aren't valid UTF-8
 to the output file

---
 src/gaspra/markup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index fa494fc..6162bf6 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -66,7 +66,10 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8", newline="")
+    # Names of files, which markers and headers show, needn't be valid UTF-8.
+    file = open(
+        filename, "wt", encoding="utf-8", errors="surrogateescape", newline=""
+    )
 
     yield file.write, lambda _: _
     file.close()
-- 
2.43.0


From dd8cd19862d22293a11af95f4adfa8ae7b599063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:25 +0000
Subject: [PATCH 20/20] fix: all_suffixes() raised ValueError for lists and
 other sequences that aren't tuples

---
 src/gaspra/suffix_automaton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/suffix_automaton.py b/src/gaspra/suffix_automaton.py
index c3cac5e..dfe2df4 100644
--- a/src/gaspra/suffix_automaton.py
+++ b/src/gaspra/suffix_automaton.py
@@ -77,7 +77,8 @@ def build(
 
     """
     if empty is None:
-        empty = tokens[0:0] if isinstance(tokens, Sequence) else ()
+        # Suffixes of any other sequence are tuples.
+        empty = tokens[0:0] if isinstance(tokens, (str, bytes)) else ()
 
     # Create a list to capture all created nodes to make it easier to
     # iterate over them later.
-- 
2.43.0

