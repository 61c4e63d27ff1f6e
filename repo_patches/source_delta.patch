From 95d8ed69a8a8cbd4f11019393beea47272312336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 01/70] fix: save output files atomically

---
 src/mdpo/io.py                 | 52 +++++++++++++++++++++++++++++++---
 src/mdpo/md2po/__init__.py     | 11 +++++--
 src/mdpo/mdpo2html/__init__.py |  9 ++++--
 src/mdpo/po2md/__init__.py     |  9 ++++--
 4 files changed, 69 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..09a0d16 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -1,7 +1,9 @@
 """mdpo I/O utilities."""
 
+import contextlib
 import glob
 import os
+import uuid
 from contextlib import contextmanager
 
 
@@ -107,6 +109,50 @@ def to_files_or_content(value):
     return (True, parsed)
 
 
+def save_file(filepath, content, encoding='utf-8'):
+    """Save a file replacing its previous content as a whole.
+
+    The content is written to a temporary file next to the target, which
+    replaces it only when it has been completely stored. If the process is
+    stopped or something fails meanwhile, the previous file is kept as is.
+
+    Args:
+        filepath (str): Path to the file to save.
+        content (str, bytes): Content to save.
+        encoding (str): Encoding to use when saving text content.
+    """
+    mode = ''
+    if isinstance(content, bytes):
+        mode, encoding = ('b', None)
+
+    # save through symbolic links
+    filepath = os.path.realpath(filepath)
+    if os.path.exists(filepath) and not os.path.isfile(filepath):
+        # devices, pipes... can't be replaced
+        with open(filepath, f'w{mode}', encoding=encoding) as f:
+            f.write(content)
+        return
+
+    dirpath, filename = os.path.split(filepath)
+    # the full name could exceed the maximum length allowed for file names
+    temp_filepath = os.path.join(
+        dirpath,
+        f'.{filename[:50]}.{uuid.uuid4().hex}.tmp',
+    )
+    try:
+        with open(temp_filepath, f'x{mode}', encoding=encoding) as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.isfile(filepath):
+            os.chmod(temp_filepath, os.stat(filepath).st_mode & 0o7777)
+        os.replace(temp_filepath, filepath)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temp_filepath)
+        raise
+
+
 def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     """Save a file checking if the content has changed.
 
@@ -119,16 +165,14 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
         bool: If the PO file content has been changed.
     """
     if not os.path.isfile(filepath):
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        save_file(filepath, content, encoding=encoding)
         return True
 
     with open(filepath, encoding=encoding) as f:
         prev_content = f.read()
     changed = prev_content != content
     if changed:
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        save_file(filepath, content, encoding=encoding)
     return changed
 
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..3812a86 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -15,6 +15,7 @@ from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
     filter_paths,
     flatten,
+    save_file,
     save_file_checking_file_changed,
     to_files_or_content,
 )
@@ -1049,9 +1050,15 @@ class Md2Po:
                     encoding=self.pofile.encoding,
                 )
             else:
-                self.pofile.save(fpath=po_filepath)
+                save_file(
+                    po_filepath,
+                    str(self.pofile),
+                    encoding=self.pofile.encoding,
+                )
+                if self.pofile.fpath is None:
+                    self.pofile.fpath = po_filepath
         if mo_filepath:
-            self.pofile.save_as_mofile(mo_filepath)
+            save_file(mo_filepath, self.pofile.to_binary())
         return self.pofile
 
 
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..1dc91ec 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -14,7 +14,11 @@ from mdpo.command import (
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
 )
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file,
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+)
 from mdpo.md import solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -443,8 +447,7 @@ class MdPo2HTML(HTMLParser):
                     encoding=html_encoding,
                 )
             else:
-                with open(save, 'w', encoding=html_encoding) as f:
-                    f.write(self.output)
+                save_file(save, self.output, encoding=html_encoding)
 
         self.reset()
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..ab4b1f4 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -11,7 +11,11 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file,
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+)
 from mdpo.md import parse_link_references
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -1006,8 +1010,7 @@ class Po2Md:
                     encoding=md_encoding,
                 )
             else:
-                with open(save, 'w', encoding=md_encoding) as f:
-                    f.write(self.output)
+                save_file(save, self.output, encoding=md_encoding)
         return self.output
 
 
-- 
2.43.0


From 0cd3a18067771b82227710e80584bbc5082b673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 02/70] fix: do not skip entries marking as obsoletes those not
 found

---
 src/mdpo/po.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..d12e962 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -63,7 +63,8 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    # iterate over a copy because entries could be removed
+    for entry in list(pofile):
         if not find_entry_in_entries(
             entry,
             entries,
-- 
2.43.0


From c0c5ab60a61f87d5fb64eaba62a3dcad57005811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 03/70] fix: keep in use found entries whose msgstr is not the
 default one

---
 src/mdpo/po.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index d12e962..411ac85 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -68,6 +68,7 @@ def mark_not_found_entries_as_obsoletes(
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
@@ -99,6 +100,7 @@ def remove_not_found_entries(pofile, entries):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
-- 
2.43.0


From 2f864c44934a31b215d486d219fef312817b8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 04/70] fix: empty and obsolete messages do not hide
 translations

---
 src/mdpo/po.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 411ac85..e679b50 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -129,16 +129,28 @@ def pofiles_to_unique_translations_dicts(pofiles):
         tuple: dictionaries with translations.
     """
     translations, translations_with_msgctxt = {}, {}
+    obsoletes = set()
     for pofile in pofiles:
         for entry in pofile:
             if entry.msgctxt:
                 if entry.msgctxt not in translations_with_msgctxt:
                     translations_with_msgctxt[entry.msgctxt] = {}
-                translations_with_msgctxt[
-                    entry.msgctxt
-                ][entry.msgid] = entry.msgstr
+                target = translations_with_msgctxt[entry.msgctxt]
             else:
-                translations[entry.msgid] = entry.msgstr
+                target = translations
+
+            # empty and obsolete messages can't hide other translations
+            key = (entry.msgctxt or None, entry.msgid)
+            if target.get(entry.msgid) and (
+                not entry.msgstr
+                or (entry.obsolete and key not in obsoletes)
+            ):
+                continue
+            target[entry.msgid] = entry.msgstr
+            if entry.obsolete:
+                obsoletes.add(key)
+            else:
+                obsoletes.discard(key)
     return (translations, translations_with_msgctxt)
 
 
-- 
2.43.0


From 5ca104863eb6fa5e0ad901e4d49090be31fe805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 05/70] fix: process files and languages in a fixed order

---
 src/mdpo/md2po2md/__init__.py  | 2 +-
 src/mdpo/md2po2md/__main__.py  | 3 ++-
 src/mdpo/mdpo2html/__main__.py | 3 ++-
 src/mdpo/po2md/__main__.py     | 3 ++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..9f8df7c 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -89,7 +89,7 @@ def markdown_to_pofile_to_markdown(
         )
 
     try:
-        input_paths_glob_ = glob.glob(input_paths_glob)
+        input_paths_glob_ = sorted(glob.glob(input_paths_glob))
     except Exception as err:
         if (
             err.__module__ in ['re', 'sre_constants']
diff --git a/src/mdpo/md2po2md/__main__.py b/src/mdpo/md2po2md/__main__.py
index 72ae6e6..0096cb0 100755
--- a/src/mdpo/md2po2md/__main__.py
+++ b/src/mdpo/md2po2md/__main__.py
@@ -113,7 +113,8 @@ def parse_options(args):
         sys.exit(1)
     opts.input_paths_glob = input_paths_glob
 
-    opts.langs = set(itertools.chain(*opts.langs))  # flatten
+    # flatten and remove duplicates preserving the order
+    opts.langs = list(dict.fromkeys(itertools.chain(*opts.langs)))
 
     if opts.extensions is None:
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..5b14d88 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -93,7 +93,8 @@ def parse_options(args):
         opts.command_aliases,
     )
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten and remove duplicates preserving the order
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..e44c529 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -111,7 +111,8 @@ def parse_options(args):
     )
     opts.events = parse_event_argument(opts.events)
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten and remove duplicates preserving the order
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
-- 
2.43.0


From 00c7ff6850856a348810b22ec4f89f9b69dcbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 06/70] fix: do not carry commands of a file over to the next
 one

---
 src/mdpo/md2po/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 3812a86..acbc03e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1012,6 +1012,7 @@ class Md2Po:
         if hasattr(self, 'content'):
             _parse(self.content)
         else:
+            include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
                 with open(filepath, encoding=md_encoding) as f:
                     self.content = f.read()
@@ -1019,6 +1020,10 @@ class Md2Po:
                 _parse(self.content)
 
                 # reset state
+                self.current_msgid = ''
+                self.current_msgctxt = None
+                self.current_tcomment = None
+                self.include_codeblocks = include_codeblocks
                 self.disable_next_block = False
                 self.disable = False
                 self.enable_next_block = False
-- 
2.43.0


From 9df015288eb735fb624312b5ebb684022b44c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 07/70] fix: apply commands before a quote placed after a list

---
 src/mdpo/md2po/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index acbc03e..c6e4964 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -617,7 +617,7 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.H.value
         elif block is md4c.BlockType.QUOTE:
             self._quoteblocks_deep += 1
-            if self._inside_liblock:
+            if self._inside_liblock and self.current_msgid:
                 self._save_current_msgid()
             if self._quoteblocks_deep == 1:
                 self._current_top_level_block_number += 1
-- 
2.43.0


From 19f072d4ff3ddff4ad118542dd092fe0355fb474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 08/70] fix: check PO files from po2md and mdpo2html commands

---
 src/mdpo/mdpo2html/__main__.py | 11 ++++++++---
 src/mdpo/po2md/__main__.py     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 5b14d88..c32c457 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -130,7 +130,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -153,7 +153,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -170,8 +170,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index e44c529..7793e24 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -154,7 +154,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -177,7 +177,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -194,8 +194,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                [pofile.fpath for pofile in pofiles],
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From 6f48da8eb8b1ee18f766a49b762fb1b3e4a3acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 09/70] fix: pass all options of md2po2md to extractor and
 translator

---
 src/mdpo/md2po2md/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 9f8df7c..91f113a 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -24,7 +24,7 @@ def markdown_to_pofile_to_markdown(
     po_wrapwidth=78,
     md_wrapwidth=80,
     po_encoding=None,
-    md_encoding=None,
+    md_encoding='utf-8',
     include_codeblocks=False,
     md2po_kwargs=None,
     po2md_kwargs=None,
@@ -154,7 +154,6 @@ def markdown_to_pofile_to_markdown(
                 command_aliases=command_aliases,
                 debug=debug,
                 location=location,
-                wrapwidth=po_wrapwidth,
                 include_codeblocks=include_codeblocks,
                 _check_saved_files_changed=_check_saved_files_changed,
                 **(md2po_kwargs or {}),
@@ -164,6 +163,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
@@ -176,7 +176,7 @@ def markdown_to_pofile_to_markdown(
                 po_encoding=po_encoding,
                 wrapwidth=md_wrapwidth,
                 _check_saved_files_changed=_check_saved_files_changed,
-                **(po2md_kwargs or {}),
+                **{'extensions': extensions, **(po2md_kwargs or {})},
             )
             po2md.translate(
                 filepath,
-- 
2.43.0


From 8bbb4b6664b9f3a00c0a8091a3017bb3378ef0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 10/70] fix: read msgids to ignore as UTF-8 by default

---
 src/mdpo/md2po/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 5f390e0..699f9a4 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -182,7 +182,10 @@ def parse_options(args):
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 
     if opts.ignore_msgids is not None:
-        with open(opts.ignore_msgids, encoding=opts.po_encoding) as f:
+        with open(
+            opts.ignore_msgids,
+            encoding=opts.po_encoding or 'utf-8',
+        ) as f:
             opts.ignore_msgids = f.read().splitlines()
     else:
         opts.ignore_msgids = []
-- 
2.43.0


From 1a44150db5a5b48daf2e7a07344d19b6db9590bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 11/70] fix: do not modify the metadata passed by the user

---
 src/mdpo/md2po/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c6e4964..9ae6a71 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -238,7 +238,8 @@ class Md2Po:
             False if kwargs.get('_check_saved_files_changed') else None
         )
 
-        self.metadata = kwargs.get('metadata') or {}
+        # copied because could be updated
+        self.metadata = dict(kwargs.get('metadata') or {})
 
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
-- 
2.43.0


From fa5a92a064574794d435355ef064cf7920beb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 12/70] fix: accept contexts without translations in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 1dc91ec..2d08b80 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -265,9 +265,9 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
+                replacement = self.translations_with_msgctxt.get(
+                    self.current_msgctxt, {},
+                ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
             if not replacement:
-- 
2.43.0


From c6bb929de440866ceb0ca34ec1298a0a22baa6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 13/70] fix: load events files completely or not at all

---
 src/mdpo/event.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 3f7ca7f..23a995c 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -3,6 +3,11 @@
 import importlib
 import os
 import sys
+import threading
+
+
+# events files could be loaded from several threads
+_load_lock = threading.RLock()
 
 
 def raise_skip_event(events, event_name, *event_args):
@@ -176,15 +181,21 @@ def parse_events_kwarg(events_kwarg):
                     )
 
                 modname = os.path.splitext(fpath)[0].replace(os.sep, '.')
-                if modname in sys.modules:
-                    mod = sys.modules[modname]
-                else:
-                    spec = importlib.util.spec_from_file_location(
-                        modname, fpath,
-                    )
-                    mod = importlib.util.module_from_spec(spec)
-                    sys.modules[modname] = mod
-                    spec.loader.exec_module(mod)
+                with _load_lock:
+                    if modname in sys.modules:
+                        mod = sys.modules[modname]
+                    else:
+                        spec = importlib.util.spec_from_file_location(
+                            modname, fpath,
+                        )
+                        mod = importlib.util.module_from_spec(spec)
+                        sys.modules[modname] = mod
+                        try:
+                            spec.loader.exec_module(mod)
+                        except BaseException:
+                            # do not keep it partially loaded
+                            sys.modules.pop(modname, None)
+                            raise
 
                 func_owner = mod
                 if '.' in funcname:
-- 
2.43.0


From f76fddeb8c3afa5f8d8a3a450fe9d11bbc03b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 14/70] fix: do not split translated headings in several lines

---
 src/mdpo/po2md/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ab4b1f4..bb99319 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -448,8 +448,12 @@ class Po2Md:
 
             # Wrap lines with Unicode Line Break algorithm
             #
-            # Only execute it for text outside tables
-            if not self._inside_codeblock and not self._current_thead_aligns:
+            # Only execute it for text outside tables and headings
+            if (
+                not self._inside_codeblock
+                and not self._current_thead_aligns
+                and not self._inside_hblock
+            ):
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
-- 
2.43.0


From 4991339ecd935090725e885b87cf52a67d29ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 15/70] fix: keep HTML blocks separated from the next block
 after a command

---
 src/mdpo/po2md/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index bb99319..53e4205 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -280,6 +280,7 @@ class Po2Md:
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
+            0,  # length of the current line entering in the HTML block
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
@@ -594,7 +595,7 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
-            self._inside_htmlblock = [True, False]
+            self._inside_htmlblock = [True, False, len(self.current_line)]
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -714,7 +715,11 @@ class Po2Md:
             if not self._inside_htmlblock[1]:
                 self.current_line += '\n'
             else:
-                self.current_line = self.current_line.rstrip('\n')
+                # previous HTML blocks could be waiting in the current line
+                length = self._inside_htmlblock[2]
+                self.current_line = self.current_line[:length] + (
+                    self.current_line[length:].rstrip('\n')
+                )
             self._inside_htmlblock[0] = False
 
     def enter_span(self, span, details):
-- 
2.43.0


From c0550d92b418fd7ded65083c48c0b14fbf6327a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 16/70] fix: do not lose HTML blocks at the end of the document

---
 src/mdpo/po2md/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 53e4205..7bc36d7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1002,6 +1002,8 @@ class Po2Md:
             self.leave_span,
             self.text,
         )
+        if self.current_line.strip():  # HTML block at the end of the document
+            self._save_current_line()
         self._append_link_references()  # add link references to the end
 
         self.disable_next_block = False
-- 
2.43.0


From 526e7bee7ec3e694b4eb6973c6b46d1e3c1cbfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 17/70] fix: do not apply commands of included messages to the
 next block

---
 src/mdpo/po2md/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7bc36d7..748d06b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -351,6 +351,13 @@ class Po2Md:
             'mdpo-enable-next-line',
         ):
             self.enable_next_block = True
+        elif mdpo_command == 'mdpo-include':
+            # previous commands affect to the message included, not
+            # to the next block
+            self.current_msgctxt = None
+            self.current_tcomment = None
+            self.disable_next_block = False
+            self.enable_next_block = False
         elif comment:
             if mdpo_command == 'mdpo-context':
                 self.current_msgctxt = comment
-- 
2.43.0


From 90a11c8bec21d7cc3fd7e99ee81890106cb4a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 18/70] fix: do not mark as fuzzy reviewed link references that
 come back

---
 src/mdpo/md2po/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 9ae6a71..ffe6b88 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -448,8 +448,9 @@ class Md2Po:
 
         if _equal_entry and _equal_entry.msgstr:
             entry.msgstr = _equal_entry.msgstr
-            if _equal_entry.fuzzy and not entry.fuzzy:
-                entry.flags.append('fuzzy')
+            # the mark belongs to the translation
+            if _equal_entry.fuzzy != entry.fuzzy:
+                entry.flags = ['fuzzy'] if _equal_entry.fuzzy else []
         if entry not in self.pofile:
             self.pofile.append(entry)
         self.found_entries.append(entry)
-- 
2.43.0


From 116c477986ab559728307cb25889a37c986f384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 19/70] fix: keep PO files with new obsoletes unchanged in the
 next run

---
 src/mdpo/po.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index e679b50..59b442f 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -82,6 +82,12 @@ def mark_not_found_entries_as_obsoletes(
             else:
                 entry.obsolete = True
                 obsolete = True
+
+                # previous fields of obsoletes are not read from PO files,
+                # so would be gone at the next run
+                entry.previous_msgctxt = None
+                entry.previous_msgid = None
+                entry.previous_msgid_plural = None
         else:
             entry.obsolete = False
     return obsolete
-- 
2.43.0


From 6c9d2b0296fdbec8ec2fd983397127552f00fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 20/70] fix: report with --check the changes of MO files

---
 src/mdpo/io.py             | 12 ++++++++----
 src/mdpo/md2po/__init__.py |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 09a0d16..baf9401 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -158,8 +158,8 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
 
     Args:
         filepath (:py:class:`polib.POFile`): Path to the file to save.
-        content (str): Content to save.
-        encoding (str): Encoding to use when saving the file.
+        content (str, bytes): Content to save.
+        encoding (str): Encoding to use when saving text content.
 
     Returns:
         bool: If the PO file content has been changed.
@@ -168,8 +168,12 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
         save_file(filepath, content, encoding=encoding)
         return True
 
-    with open(filepath, encoding=encoding) as f:
-        prev_content = f.read()
+    if isinstance(content, bytes):
+        with open(filepath, 'rb') as f:
+            prev_content = f.read()
+    else:
+        with open(filepath, encoding=encoding) as f:
+            prev_content = f.read()
     changed = prev_content != content
     if changed:
         save_file(filepath, content, encoding=encoding)
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index ffe6b88..2c31781 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1065,7 +1065,11 @@ class Md2Po:
                 if self.pofile.fpath is None:
                     self.pofile.fpath = po_filepath
         if mo_filepath:
-            save_file(mo_filepath, self.pofile.to_binary())
+            mo_content = self.pofile.to_binary()
+            if self._saved_files_changed is None:
+                save_file(mo_filepath, mo_content)
+            elif save_file_checking_file_changed(mo_filepath, mo_content):
+                self._saved_files_changed = True
         return self.pofile
 
 
-- 
2.43.0


From cd92fa1556e296b15e8c5def98d2a3406a062ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 21/70] fix: translate without the LaTeX math extension

---
 src/mdpo/po2md/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 748d06b..14076bc 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -262,9 +262,8 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
+        self._inside_latexmath_display = False
         if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
-
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
-- 
2.43.0


From 9bbd552b75db253aaa2a3ef6b2fc1d60d4ce0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 22/70] fix: leave list items when they end

---
 src/mdpo/md2po/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2c31781..22c2acf 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -672,7 +672,7 @@ class Md2Po:
             if block is md4c.BlockType.P:
                 self._inside_pblock = False
             elif block is md4c.BlockType.LI:
-                self._inside_liblock = True
+                self._inside_liblock = False
             elif block is md4c.BlockType.UL:
                 self._uls_deep -= 1
             elif block is md4c.BlockType.H:
-- 
2.43.0


From 0223f6995ffba9e38a65a4048adc965ed7d041d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 23/70] fix: read files whose names contain glob characters

---
 src/mdpo/io.py                | 17 ++++++++++++++++-
 src/mdpo/md2po/__init__.py    |  4 ++--
 src/mdpo/md2po2md/__init__.py |  4 ++--
 src/mdpo/po.py                |  6 ++----
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index baf9401..1170df9 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -78,6 +78,21 @@ def to_file_content_if_is_file(value, encoding='utf-8'):
     return value
 
 
+def filepaths_from_glob(value):
+    """Return the paths that match a glob.
+
+    The path of an existing file is returned as is, because it could contain
+    characters which are special in globs.
+
+    Args:
+        value (str): Path to a file or glob.
+
+    Returns:
+        list: Paths found.
+    """
+    return [value] if os.path.isfile(value) else glob.glob(value)
+
+
 def to_files_or_content(value):
     """File path/glob/content disambiguator.
 
@@ -94,7 +109,7 @@ def to_files_or_content(value):
         a list of files is passed or a string).
     """
     try:
-        parsed = glob.glob(value)
+        parsed = filepaths_from_glob(value)
     except TypeError:
         # inferes list
         return (True, value)
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 22c2acf..331bf27 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1,7 +1,6 @@
 """Markdown to PO files extractor according to mdpo specification."""
 
 import contextlib
-import glob
 import os
 
 import md4c
@@ -13,6 +12,7 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
+    filepaths_from_glob,
     filter_paths,
     flatten,
     save_file,
@@ -144,7 +144,7 @@ class Md2Po:
         is_glob, files_or_content = to_files_or_content(files_or_content)
         if is_glob:
             self.filepaths = filter_paths(
-                flatten(glob.glob(globpath) for globpath in files_or_content),
+                flatten(map(filepaths_from_glob, files_or_content)),
                 ignore_paths=kwargs.get('ignore', []),
             )
         else:
diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 91f113a..df18aaf 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -1,8 +1,8 @@
 """Markdown to PO file to Markdown translator."""
 
-import glob
 import os
 
+from mdpo.io import filepaths_from_glob
 from mdpo.md2po import Md2Po
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -89,7 +89,7 @@ def markdown_to_pofile_to_markdown(
         )
 
     try:
-        input_paths_glob_ = sorted(glob.glob(input_paths_glob))
+        input_paths_glob_ = sorted(filepaths_from_glob(input_paths_glob))
     except Exception as err:
         if (
             err.__module__ in ['re', 'sre_constants']
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 59b442f..4657078 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -1,10 +1,8 @@
 """PO files related stuff."""
 
-import glob
-
 import polib
 
-from mdpo.io import filter_paths
+from mdpo.io import filepaths_from_glob, filter_paths
 from mdpo.polib import poentry__cmp__
 
 
@@ -179,7 +177,7 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
 
     for pofiles_glob in pofiles_globs:
         for po_filepath in filter_paths(
-            glob.glob(pofiles_glob),
+            filepaths_from_glob(pofiles_glob),
             ignore_paths=ignore,
         ):
             if po_filepath not in _po_filepaths:
-- 
2.43.0


From 3c4fb30ea3d006efc28d31a121051f05a351f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 24/70] fix: read the encoding of PO files only from their
 headers

---
 src/mdpo/md2po/__init__.py |  3 ++
 src/mdpo/po.py             | 60 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 331bf27..69111ac 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -28,6 +28,7 @@ from mdpo.po import (
     find_entry_in_entries,
     mark_not_found_entries_as_obsoletes,
     po_escaped_string,
+    pofile_encoding,
     remove_not_found_entries,
 )
 from mdpo.text import min_not_max_chars_in_a_row, parse_wrapwidth_argument
@@ -983,6 +984,8 @@ class Md2Po:
             {'autodetect_encoding': False, 'encoding': po_encoding}
             if po_encoding else {}
         )
+        if not po_encoding and os.path.isfile(self.po_filepath):
+            pofile_kwargs['encoding'] = pofile_encoding(self.po_filepath)
         self.pofile = polib.pofile(
             self.po_filepath,
             wrapwidth=parse_wrapwidth_argument(wrapwidth),
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 4657078..b0b8b7d 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -1,5 +1,8 @@
 """PO files related stuff."""
 
+import codecs
+import re
+
 import polib
 
 from mdpo.io import filepaths_from_glob, filter_paths
@@ -158,6 +161,58 @@ def pofiles_to_unique_translations_dicts(pofiles):
     return (translations, translations_with_msgctxt)
 
 
+def content_type_charset(content_type):
+    """Get the charset defined in the value of a "Content-Type" field.
+
+    Args:
+        content_type (str): Value of the field "Content-Type".
+
+    Returns:
+        str: Name of the charset or ``None`` if is not defined or is unknown.
+    """
+    match = re.search(r' charset=([\w\-:.]+)', content_type)
+    if match:
+        try:
+            codecs.lookup(match.group(1))
+        except LookupError:
+            return None
+        return match.group(1)
+    return None
+
+
+def pofile_encoding(filepath):
+    """Get the encoding that the header of a PO file declares.
+
+    Only the header entry is considered, even if its fields are wrapped in
+    several lines, so the content of the messages is not relevant.
+
+    Args:
+        filepath (str): Path to the PO file.
+
+    Returns:
+        str: Encoding declared in the field "Content-Type" of the header or
+            the default one if is not declared or is unknown.
+    """
+    with open(filepath, 'rb') as f:
+        content = f.read()
+
+    header = re.search(
+        br'^(?:\xef\xbb\xbf)?msgid[ \t]+""[ \t]*\r?\n'
+        br'msgstr[ \t]+((?:"[^\r\n]*"[ \t]*(?:\r?\n|$))+)',
+        content,
+        re.MULTILINE,
+    )
+    charset = None
+    if header:
+        fields = re.sub(br'"[ \t]*\r?\n"', b'', header.group(1))
+        content_type = re.search(br'Content-Type:([^\\]+)', fields)
+        if content_type:
+            charset = content_type_charset(
+                content_type.group(1).decode('latin-1'),
+            )
+    return charset or polib.default_encoding
+
+
 def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
     """Convert any path, paths or glob to :py:class:`polib.POFile` objects.
 
@@ -182,7 +237,10 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
         ):
             if po_filepath not in _po_filepaths:
                 pofiles.append(
-                    polib.pofile(po_filepath, encoding=po_encoding),
+                    polib.pofile(
+                        po_filepath,
+                        encoding=po_encoding or pofile_encoding(po_filepath),
+                    ),
                 )
                 _po_filepaths.append(po_filepath)
 
-- 
2.43.0


From 5a1191b4687a851360916b3ad56d2e57a225c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 25/70] fix: save PO files with the encoding that their new
 metadata declares

---
 src/mdpo/md2po/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 69111ac..d45b18a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -25,6 +25,7 @@ from mdpo.md4c import (
     READABLE_BLOCK_NAMES,
 )
 from mdpo.po import (
+    content_type_charset,
     find_entry_in_entries,
     mark_not_found_entries_as_obsoletes,
     po_escaped_string,
@@ -1051,6 +1052,10 @@ class Md2Po:
 
         if self.metadata:
             self.pofile.metadata.update(self.metadata)
+            if not po_encoding:
+                self.pofile.encoding = content_type_charset(
+                    self.metadata.get('Content-Type', ''),
+                ) or self.pofile.encoding
 
         if save and po_filepath:
             if self._saved_files_changed is False:
-- 
2.43.0


From 81605a89024cb28732a6f18148d62b57912e6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 26/70] fix: distinguish messages with the context '0' of those
 without context

---
 src/mdpo/polib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..8261cbb 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,8 +38,8 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
-- 
2.43.0


From 98731578d590d620d37648dd9175df0a697a0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 27/70] fix: accept any character in the arguments of mdpo
 commands

---
 src/mdpo/command.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index 2b24866..acbf238 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -3,6 +3,11 @@
 
 COMMAND_SEARCH_REGEX = r'<\!\-\-\s{0,}([^\s]+)\s{0,}([\w\s]+)?\-\->'
 
+# the arguments of mdpo commands can contain any character
+MDPO_COMMAND_SEARCH_REGEX = (
+    r'<\!\-\-\s{0,}(mdpo\-[^\s]+)\s+((?:(?!\-\->).)+?)\s{0,}\-\->'
+)
+
 MDPO_COMMANDS = [
     'context',
     'disable',
@@ -34,7 +39,10 @@ def parse_mdpo_html_command(value):
         and its value.
     """
     import re
-    command_match = re.compile(COMMAND_SEARCH_REGEX).search(value)
+    command_match = (
+        re.compile(COMMAND_SEARCH_REGEX).search(value)
+        or re.compile(MDPO_COMMAND_SEARCH_REGEX).search(value)
+    )
     if command_match:
         command, comment = command_match.groups()
         return (command, comment.rstrip(' ') if comment else None)
-- 
2.43.0


From c451a4ca4fda7d20baa8539559f47c77b0580dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 28/70] fix: load the events file asked for and not other with
 the same module name

---
 src/mdpo/event.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 23a995c..24d5cd4 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -139,6 +139,14 @@ def add_debug_events(implementation_name, events):
         events[event_name].append(function)
 
 
+def _is_module_of(mod, fpath):
+    mod_fpath = getattr(mod, '__file__', None)
+    return (
+        mod_fpath is not None
+        and os.path.abspath(mod_fpath) == os.path.abspath(fpath)
+    )
+
+
 def parse_events_kwarg(events_kwarg):
     """Parse ``events`` kwarg passed to implementations.
 
@@ -182,9 +190,12 @@ def parse_events_kwarg(events_kwarg):
 
                 modname = os.path.splitext(fpath)[0].replace(os.sep, '.')
                 with _load_lock:
-                    if modname in sys.modules:
-                        mod = sys.modules[modname]
-                    else:
+                    mod = sys.modules.get(modname)
+                    if mod is not None and not _is_module_of(mod, fpath):
+                        # the name is already used for other file
+                        modname = os.path.abspath(fpath)
+                        mod = sys.modules.get(modname)
+                    if mod is None:
                         spec = importlib.util.spec_from_file_location(
                             modname, fpath,
                         )
-- 
2.43.0


From dbf9376a8de48dbe4493a88d1c7cee9382859f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:18 +0000
Subject: [PATCH 29/70] fix: find with the checks plurals without translation
 and entries not separated

---
 src/mdpo/po.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index b0b8b7d..3a45b57 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -317,14 +317,21 @@ def parse_obsoletes_from_content_lines(
     Returns:
         list(str): error locations found.
     """
-    inside_obsolete_message = False
+    inside_obsolete_message, inside_msgstr = (False, False)
     for i, line in enumerate(content_lines):
-        if not inside_obsolete_message and line[0:3] == b'#~ ':
-            inside_obsolete_message = True
+        if line[0:3] != b'#~ ':
+            inside_obsolete_message = False
+            continue
 
+        # obsoletes could be not separated by empty lines
+        if not inside_obsolete_message or (
+            inside_msgstr and line[3:].startswith((b'msgctxt', b'msgid'))
+        ):
             yield f'{location_prefix}{i + 1}'
-        elif inside_obsolete_message and line[0:3] != b'#~ ':
-            inside_obsolete_message = False
+        inside_obsolete_message = True
+        inside_msgstr = line[3:].startswith(b'msgstr') or (
+            inside_msgstr and line[3:].startswith(b'"')
+        )
 
 
 def parse_fuzzy_from_content_lines(
@@ -358,11 +365,11 @@ def parse_empty_msgstr_from_content_lines(
     Returns:
         list(str): error locations found.
     """
-    n_lines = len(content_lines)
     for i, line in enumerate(content_lines):
-        if (
-            line.startswith(b'msgstr ""') or line.startswith(b'#~ msgstr ""')
-        ) and not content_lines[i - 1].startswith(b'msgid ""'):
-            next_i = i + 1
-            if next_i == n_lines or not content_lines[next_i].strip():
-                yield f'{location_prefix}{next_i}'
+        match = re.match(br'(?:#~ )?msgstr(\[\d+\])? ""', line)
+        if match and (
+            match.group(1) or not content_lines[i - 1].startswith(b'msgid ""')
+        ):
+            next_line = b''.join(content_lines[i + 1:i + 2])
+            if not next_line.startswith((b'"', b'#~ "')):
+                yield f'{location_prefix}{i + 1}'
-- 
2.43.0


From 5396b61f3d29df4e1bb1edbd5c96c614991ea643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 30/70] fix: translate HTML messages found after thematic
 breaks

---
 src/mdpo/mdpo2html/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 2d08b80..e12f4dd 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -30,6 +30,7 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+VOID_TAGS = ['br', 'hr', 'img']
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -316,7 +317,8 @@ class MdPo2HTML(HTMLParser):
     def handle_starttag(self, tag, attrs):
 
         if tag in self.ignore_grouper_tags:
-            self.context.append(tag)
+            if tag not in VOID_TAGS:  # they are not closed
+                self.context.append(tag)
             attrs_repr = (
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
             )
-- 
2.43.0


From 520236a1233c24e2f59942aae79da46af032dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 31/70] fix: translate HTML messages with images

---
 src/mdpo/mdpo2html/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index e12f4dd..f56aec2 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -316,7 +316,9 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
-        if tag in self.ignore_grouper_tags:
+        if tag in self.image_tags:
+            self.handle_startendtag(tag, attrs)
+        elif tag in self.ignore_grouper_tags:
             if tag not in VOID_TAGS:  # they are not closed
                 self.context.append(tag)
             attrs_repr = (
-- 
2.43.0


From 091314b4ff48d03d63ccc781f89f4f65b1212d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 32/70] fix: close once the links at the end of HTML messages

---
 src/mdpo/mdpo2html/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index f56aec2..fc7e8d8 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -283,7 +283,9 @@ class MdPo2HTML(HTMLParser):
 
         html_before_first_replacement = raw_html_template.split('{')[0]
         html_after_last_replacement = raw_html_template.split('}')[-1]
-        for tags_group in [self.bold_tags, self.italic_tags, self.code_tags]:
+        for tags_group in [
+            self.bold_tags, self.italic_tags, self.code_tags, self.link_tags,
+        ]:
             for tag in tags_group:
                 html_before_first_replacement = \
                     html_before_first_replacement.split(f'<{tag}>')[0]
-- 
2.43.0


From b9e57436abcabcd61ffbcbec98c3ac1f30f44f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 33/70] fix: translate HTML ordered and nested lists

---
 src/mdpo/mdpo2html/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index fc7e8d8..5495a3f 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -251,6 +251,11 @@ class MdPo2HTML(HTMLParser):
                     )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
+        if not _current_replacement.strip():  # there is no message
+            self.output += raw_html_template
+            self.context = []
+            return
+
         _current_replacement = html.unescape(_current_replacement)
 
         if (self.disable and not self.enable_next_block) \
@@ -318,6 +323,10 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
+        if tag in {'ul', 'ol'} and self.replacer:
+            # list inside other list
+            self._process_replacer()
+
         if tag in self.image_tags:
             self.handle_startendtag(tag, attrs)
         elif tag in self.ignore_grouper_tags:
@@ -329,7 +338,7 @@ class MdPo2HTML(HTMLParser):
             self.output += f'<{tag}{attrs_repr}>'
         elif (
             (self.context and self.context[0] in self.ignore_grouper_tags)
-            or (tag == 'ul' and not self.context)
+            or tag in {'ul', 'ol'}
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
         ):
             attrs_repr = (
@@ -359,7 +368,7 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
-- 
2.43.0


From 78b0e4833a717273a689c5d13a876d34600e9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 34/70] fix: keep HTML code blocks and the content after them

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5495a3f..138f5a5 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -63,7 +63,7 @@ class MdPo2HTML(HTMLParser):
         italic_tags=frozenset(['em', 'i']),
         link_tags=frozenset(['a']),
         image_tags=frozenset(['img']),
-        ignore_grouper_tags=frozenset(['div', 'hr']),
+        ignore_grouper_tags=frozenset(['div', 'hr', 'pre']),
         po_encoding=None,
         command_aliases=None,
         _check_saved_files_changed=None,
@@ -393,7 +393,9 @@ class MdPo2HTML(HTMLParser):
                 )
                 or not self.context
             ):
-                self.output += data
+                self.output += (
+                    data if self.cdata_elem else html.escape(data, quote=False)
+                )
             else:
                 if self.context:
                     data = data.replace('\n', ' ')
-- 
2.43.0


From d406b29241956ba5570fef278b5bc3fa5623fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 35/70] fix: translate HTML messages with autolinks

---
 src/mdpo/mdpo2html/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 138f5a5..716b17f 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -215,7 +215,13 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += handled
                 else:
                     raw_html_template += '{}'
-                    if _current_link_target:
+                    if (
+                        _current_link_target == f'({handled})'
+                        and re.match(r'[a-zA-Z][\w+.-]+:', handled)
+                    ):
+                        _current_replacement += f'<{handled}>'
+                        _current_link_target = ''
+                    elif _current_link_target:
                         _current_replacement += (
                             f'[{handled}]{_current_link_target}'
                         )
-- 
2.43.0


From 434c56ef47d3eaa88909b7151013175c2fdc0a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 36/70] fix: do not apply commands of included messages to the
 next HTML block

---
 src/mdpo/mdpo2html/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 716b17f..cfcf05b 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -322,7 +322,9 @@ class MdPo2HTML(HTMLParser):
 
         self.output += html_template
         self.context = []
+        self._reset_block_commands()
 
+    def _reset_block_commands(self):
         self.disable_next_block = False
         self.enable_next_block = False
         self.current_msgctxt = None
@@ -440,6 +442,8 @@ class MdPo2HTML(HTMLParser):
                     self.enable_next_block = True
                 elif command == 'mdpo-context' and comment:
                     self.current_msgctxt = comment
+                elif command == 'mdpo-include':
+                    self._reset_block_commands()
                 elif command == 'mdpo-include-codeblock':
                     warnings.warn(
                         'Code blocks translations are not supported'
-- 
2.43.0


From a03d032acafbebeff6cd437d5aa3e9c063aa3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 37/70] fix: keep strikethrough text in translated documents

---
 src/mdpo/po2md/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 14076bc..7674f78 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -244,6 +244,14 @@ class Po2Md:
             md4c.SpanType.CODE.value: self.code_end_string,
         }
 
+        if 'strikethrough' in self.extensions:
+            self._enterspan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
+                'strikethrough_start_string', '~~',
+            )
+            self._leavespan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
+                'strikethrough_end_string', '~~',
+            )
+
         self.wikilink_start_string = '[['
         self.wikilink_end_string = ']]'
 
-- 
2.43.0


From a655f784a45c76bd1373dd0ea0e9f64b34e00b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:01 +0000
Subject: [PATCH 38/70] fix: keep untranslated HTML messages as they are

---
 src/mdpo/mdpo2html/__init__.py | 56 +++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index cfcf05b..214ecca 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -47,7 +47,7 @@ def _html_attrs_to_str(attrs):
     for name, value in attrs.items():
         response += name
         if value is not None:
-            response += f'="{value}"'
+            response += f'="{html.escape(value)}"'
         response += ' '
     return response.rstrip(' ')
 
@@ -158,6 +158,7 @@ class MdPo2HTML(HTMLParser):
 
         template_tags = []
         raw_html_template, _current_replacement = ('', '')
+        original_html = ''
 
         _current_link_target = ''
 
@@ -172,6 +173,7 @@ class MdPo2HTML(HTMLParser):
                 attrs_repr = (
                     f' {_html_attrs_to_str(attrs)}' if attrs else ''
                 )
+                original_html += f'<{handled}{attrs_repr}>'
 
                 if handled in self.code_tags:
                     _current_replacement += '`'
@@ -206,6 +208,9 @@ class MdPo2HTML(HTMLParser):
                     _inside_code = True
 
             elif handle == 'data':
+                original_html += html.escape(handled, quote=False)
+                handled = handled.replace('\n', ' ')
+
                 if not _inside_code:
                     while '  ' in handled:
                         handled = handled.replace('  ', ' ')
@@ -229,6 +234,7 @@ class MdPo2HTML(HTMLParser):
                     else:
                         _current_replacement += handled
             elif handle == 'end':
+                original_html += f'</{handled}>'
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
                     _current_replacement += '`'
@@ -240,8 +246,14 @@ class MdPo2HTML(HTMLParser):
                 if _last_end_tag == 'code':
                     _inside_code = False
             elif handle == 'comment':
+                original_html += f'<!--{handled}-->'
                 raw_html_template += f'<!--{handled}-->'
             elif handle == 'startend':
+                attrs_repr = (
+                    f' {_html_attrs_to_str(attrs)}' if attrs else ''
+                )
+                original_html += f'<{handled}{attrs_repr}/>'
+
                 if handled in self.image_tags:
                     alt, src = attrs.get('alt', ''), attrs['src']
                     _current_replacement += f'![{alt}]({src}'
@@ -252,9 +264,6 @@ class MdPo2HTML(HTMLParser):
 
                     raw_html_template += '{}'
                 else:
-                    attrs_repr = (
-                        f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                    )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
         if not _current_replacement.strip():  # there is no message
@@ -266,11 +275,11 @@ class MdPo2HTML(HTMLParser):
 
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
-            replacement = _current_replacement
+            replacement = None
 
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=replacement,
+                    msgid=_current_replacement,
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
@@ -282,8 +291,6 @@ class MdPo2HTML(HTMLParser):
                 ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
-            if not replacement:
-                replacement = _current_replacement
 
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
@@ -292,6 +299,25 @@ class MdPo2HTML(HTMLParser):
                         if tag not in template_tags:
                             template_tags.append(tag)
 
+        if replacement:
+            html_template = self._render_replacement(
+                replacement,
+                raw_html_template,
+            )
+        else:  # leave it as is
+            html_template = original_html
+
+        if self.merge_adjacent_markups:
+            html_template = self._merge_adyacent_tags(
+                html_template,
+                template_tags,
+            )
+
+        self.output += html_template
+        self.context = []
+        self._reset_block_commands()
+
+    def _render_replacement(self, replacement, raw_html_template):
         html_before_first_replacement = raw_html_template.split('{')[0]
         html_after_last_replacement = raw_html_template.split('}')[-1]
         for tags_group in [
@@ -311,19 +337,9 @@ class MdPo2HTML(HTMLParser):
         html_inner = '>'.join(html_inner.split('>')[1:])
         html_inner = '<'.join(html_inner.split('<')[:-1])
 
-        html_template = html_before_first_replacement + html_inner + \
+        return html_before_first_replacement + html_inner + \
             html_after_last_replacement
 
-        if self.merge_adjacent_markups:
-            html_template = self._merge_adyacent_tags(
-                html_template,
-                template_tags,
-            )
-
-        self.output += html_template
-        self.context = []
-        self._reset_block_commands()
-
     def _reset_block_commands(self):
         self.disable_next_block = False
         self.enable_next_block = False
@@ -405,8 +421,6 @@ class MdPo2HTML(HTMLParser):
                     data if self.cdata_elem else html.escape(data, quote=False)
                 )
             else:
-                if self.context:
-                    data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
     def handle_comment(self, data):
-- 
2.43.0


From 6cd6fdc183c6ef01b709ff7b41d143331e266491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 39/70] fix: translate HTML messages with markup in links,
 titles and code with backticks

---
 src/mdpo/mdpo2html/__init__.py | 48 ++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 214ecca..99de548 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -24,6 +24,7 @@ from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
 )
+from mdpo.text import min_not_max_chars_in_a_row
 
 
 PROCESS_REPLACER_TAGS = [
@@ -160,7 +161,7 @@ class MdPo2HTML(HTMLParser):
         raw_html_template, _current_replacement = ('', '')
         original_html = ''
 
-        _current_link_target = ''
+        _current_link_target, _link_start, _code_start = ('', 0, 0)
 
         _last_start_tag = None
         _last_end_tag = None
@@ -176,7 +177,7 @@ class MdPo2HTML(HTMLParser):
                 original_html += f'<{handled}{attrs_repr}>'
 
                 if handled in self.code_tags:
-                    _current_replacement += '`'
+                    _code_start = len(_current_replacement)
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
@@ -186,10 +187,11 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.link_tags:
                     title, href = attrs.get('title'), attrs['href']
-                    _current_link_target += f'({href}'
+                    _current_link_target = f'({href}'
                     if title:
-                        _current_link_target += f' "{title}"'
+                        _current_link_target += f' "{polib.escape(title)}"'
                     _current_link_target += ')'
+                    _link_start = len(_current_replacement)
 
                     raw_html_template += f'<{handled}'
 
@@ -220,28 +222,34 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += handled
                 else:
                     raw_html_template += '{}'
-                    if (
-                        _current_link_target == f'({handled})'
-                        and re.match(r'[a-zA-Z][\w+.-]+:', handled)
-                    ):
-                        _current_replacement += f'<{handled}>'
-                        _current_link_target = ''
-                    elif _current_link_target:
-                        _current_replacement += (
-                            f'[{handled}]{_current_link_target}'
-                        )
-                        _current_link_target = ''
-                    else:
-                        _current_replacement += handled
+                    _current_replacement += handled
             elif handle == 'end':
                 original_html += f'</{handled}>'
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
-                    _current_replacement += '`'
+                    code = _current_replacement[_code_start:]
+                    backticks = '`' * min_not_max_chars_in_a_row('`', code)
+                    _current_replacement = (
+                        _current_replacement[:_code_start] +
+                        f'{backticks}{code}{backticks}'
+                    )
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
+                elif handled in self.link_tags and _current_link_target:
+                    link_text = _current_replacement[_link_start:]
+                    if (
+                        _current_link_target == f'({link_text})'
+                        and re.match(r'[a-zA-Z][\w+.-]+:', link_text)
+                    ):
+                        link = f'<{link_text}>'
+                    else:
+                        link = f'[{link_text}]{_current_link_target}'
+                    _current_replacement = (
+                        _current_replacement[:_link_start] + link
+                    )
+                    _current_link_target = ''
                 _last_end_tag = handled
                 if _last_end_tag == 'code':
                     _inside_code = False
@@ -259,7 +267,7 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
                     if title:
-                        _current_replacement += f' "{title}"'
+                        _current_replacement += f' "{polib.escape(title)}"'
                     _current_replacement += ')'
 
                     raw_html_template += '{}'
@@ -329,7 +337,7 @@ class MdPo2HTML(HTMLParser):
                 html_after_last_replacement = \
                     html_after_last_replacement.split(f'</{tag}>')[-1]
             html_before_first_replacement = \
-                html_before_first_replacement.split('<a href="')[0]
+                html_before_first_replacement.split('<a ')[0]
 
         html_inner = '\n'.join(
             self.html_renderer.parse(replacement).split('\n')[:-1],
-- 
2.43.0


From 05e13dce7ce3ad7b6fe71f1be09d80aaca511ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 40/70] fix: do not start other blocks wrapping translated text

---
 src/mdpo/po2md/__init__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7674f78..6abfc2a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1,6 +1,7 @@
 """Markdown files translator using PO files as reference."""
 
 import contextlib
+import re
 
 import md4c
 import md_ulb_pwrap
@@ -29,6 +30,13 @@ from mdpo.text import (
     parse_wrapwidth_argument,
 )
 
+# text that would begin other block if placed at the start of a line
+BLOCK_START_REGEX = re.compile(
+    r'>|([*+-]|\d{1,9}[.)]|#{1,6})(\s|$)|`{3}|~{3}|(=+|-+|([*_-]\s*){3,})$'
+    r'|<([!?]|/?[a-z][a-z0-9]*([\s/>]|$))',
+    re.IGNORECASE,
+)
+
 
 class Po2Md:
     """PO files to Markdown translator implementation.
@@ -469,12 +477,25 @@ class Po2Md:
                 and not self._current_thead_aligns
                 and not self._inside_hblock
             ):
+                unwrapped_lines = translation.split('\n')
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     self.wrapwidth,
                     self.wrapwidth + first_line_width_diff,
                 )
 
+                # do not start other blocks wrapping
+                first_line, *lines = translation.split('\n')
+                translation = first_line
+                for line in lines:
+                    separator = '\n'
+                    if BLOCK_START_REGEX.match(line) and not any(
+                        unwrapped_line.startswith(line)
+                        for unwrapped_line in unwrapped_lines
+                    ):
+                        separator = ' '
+                    translation += f'{separator}{line}'
+
                 if not any([
                     self._inside_liblock,
                     self._inside_hblock,
-- 
2.43.0


From 8ba78d88c3764a0492079278086380f97c037675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 41/70] fix: do not unescape twice HTML messages

---
 src/mdpo/mdpo2html/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 99de548..020ddf7 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -279,8 +279,6 @@ class MdPo2HTML(HTMLParser):
             self.context = []
             return
 
-        _current_replacement = html.unescape(_current_replacement)
-
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
             replacement = None
-- 
2.43.0


From a4c041268cbbdb3069df2adf48bbc612817e0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 42/70] fix: translate HTML messages extracted between disabled
 ones

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 020ddf7..98ebfed 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -279,8 +279,8 @@ class MdPo2HTML(HTMLParser):
             self.context = []
             return
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (self.disable or self.disable_next_block) \
+                and not self.enable_next_block:
             replacement = None
 
             self.disabled_entries.append(
-- 
2.43.0


From a9694952ce5719ec933dcda1e617a0a370c00e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 43/70] fix: respect disabling commands for titles of links and
 images as plain text

---
 src/mdpo/md2po/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d45b18a..12ff879 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -457,6 +457,10 @@ class Md2Po:
             self.pofile.append(entry)
         self.found_entries.append(entry)
 
+    def _is_extraction_enabled(self):
+        return (not self.disable_next_block and not self.disable) or \
+            self.enable_next_block
+
     def _save_current_msgid(
             self,
             msgstr='',
@@ -476,8 +480,7 @@ class Md2Po:
             return
 
         if self.current_msgid:
-            if (not self.disable_next_block and not self.disable) or \
-                    self.enable_next_block:
+            if self._is_extraction_enabled():
                 self._save_msgid(
                     self.current_msgid,
                     msgstr=msgstr or self.msgstr,
@@ -691,8 +694,8 @@ class Md2Po:
             return
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
-                details['title']:
-            self._save_msgid(details['title'][0][1])
+                details['title'] and self._is_extraction_enabled():
+            self._save_msgid(details['title'][0][1], msgstr=self.msgstr)
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From edc029333317cdf976200207506c9d9ed1878dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:47 +0000
Subject: [PATCH 44/70] fix: translate links of HTML files whose references
 have titles, contexts or only a target

---
 src/mdpo/md.py                 | 117 +++++++++++----------------------
 src/mdpo/mdpo2html/__init__.py |  30 ++++++---
 2 files changed, 59 insertions(+), 88 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 033fade..62a1608 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,5 +1,7 @@
 """Markdown related utilities for mdpo."""
 
+import polib
+
 
 LINK_REFERENCE_REGEX = (
     r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
@@ -30,7 +32,7 @@ def parse_link_references(content):
     return response
 
 
-def solve_link_reference_targets(translations):
+def solve_link_reference_targets(translations, messages=None):
     """Solve link reference targets in markdown blocks.
 
     Given a dictionary of msgid/msgstr translations, those link references
@@ -38,99 +40,54 @@ def solve_link_reference_targets(translations):
 
     Args:
         translations (dict): Mapping of msgid-msgstr entries from which
-            the resolved translations will be extracted.
+            the link reference definitions will be extracted.
+        messages (dict): Mapping of msgid-msgstr entries whose link references
+            will be resolved. By default, the same as ``translations``.
 
     Returns:
         dict: New created messages with solved link reference targets.
     """
     import re
 
-    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
+    referenced_link_re = re.compile(
+        r'\[([^\[\]]+)\](?:\[([^\[\]]*)\]|(?![\[(:]))',
+    )
 
-    solutions = {}
-
-    # dictionary with defined link references and their targets
-    link_references_text_targets = []
-
-    # compound by dictionaries with `original_msgid`, `original_msgstr` and
-    # `link_reference_matchs`
-    msgid_msgstrs_with_links = []
+    # definitions of link references in msgids and in msgstrs
+    msgid_definitions, msgstr_definitions = {}, {}
 
     # discover link reference definitions
     for msgid, msgstr in translations.items():
         if msgid.startswith('['):  # filter for performance improvement
-            msgid_match = re.search(link_reference_re, msgid.lstrip(' '))
+            msgid_match = re.search(link_reference_re, msgid)
             if msgid_match:
                 msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
                 if msgstr_match:
-                    link_references_text_targets.append((
-                        msgid_match.groups(),
-                        msgstr_match.groups(),
-                    ))
-        msgid_matchs = re.findall(link_refereced_link_re, msgid)
-        if msgid_matchs:
-            msgstr_matchs = re.findall(link_refereced_link_re, msgstr)
-            if msgstr_matchs:
-                msgid_msgstrs_with_links.append((
-                    msgid, msgstr, msgid_matchs, msgstr_matchs,
-                ))
-
-    # original msgid, original msgstr,
-    # msgid link reference matchs, msgstr link reference matchs
-    for (
-            orig_msgid, orig_msgstr, msgid_linkr_groups, msgstr_linkr_groups,
-    ) in msgid_msgstrs_with_links:
-        # search if msgid and link reference matchs are inside
-        # `link_references_text_targets`
-        #
-        # if so, replace in original messages link referenced targets with
-        # real targets and store them in solutions
-        new_msgid, new_msgstr = (None, None)
-
-        for msgid_linkr_group in msgid_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[0][0] == msgid_linkr_group[1]:
-                    replacer = (
-                        f'[{msgid_linkr_group[0]}][{msgid_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgid_linkr_group[0]}]'
-                        f'({link_reference_text_targets[0][1]})'
-                    )
-
-                    if new_msgid is None:
-                        # first referenced link replacement in msgid
-                        new_msgid = orig_msgid.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgid = new_msgid.replace(replacer, replacement)
-                    break
-
-        # the same game as above, but now for msgstrs
-
-        for msgstr_linkr_group in msgstr_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[1][0] == msgstr_linkr_group[1]:
-                    replacer = (
-                        f'[{msgstr_linkr_group[0]}][{msgstr_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgstr_linkr_group[0]}]'
-                        f'({link_reference_text_targets[1][1]})'
-                    )
-
-                    if new_msgstr is None:
-                        # first referenced link replacement in msgid
-                        new_msgstr = orig_msgstr.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgstr = new_msgstr.replace(replacer, replacement)
-                    break
-
-        # store in solutions
-        solutions[new_msgid] = new_msgstr
+                    target, href, title = msgid_match.groups()
+                    msgid_definitions[target] = (href, title)
+                    target, href, title = msgstr_match.groups()
+                    msgstr_definitions[target] = (href, title)
+
+    def solve(message, definitions):
+        def real_target(match):
+            text, target = match.groups()
+            definition = definitions.get(target or text)
+            if definition is None:
+                return match.group(0)
+            href, title = definition
+            title_part = f' "{polib.escape(title)}"' if title else ''
+            return f'[{text}]({href}{title_part})'
+
+        return re.sub(referenced_link_re, real_target, message)
+
+    solutions = {}
+
+    # replace in original messages link referenced targets with real targets
+    # and store them in solutions
+    for msgid, msgstr in (messages or translations).items():
+        new_msgid = solve(msgid, msgid_definitions)
+        if new_msgid != msgid:
+            solutions[new_msgid] = solve(msgstr, msgstr_definitions)
 
     return solutions
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 98ebfed..ec7c1b4 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -103,7 +103,7 @@ class MdPo2HTML(HTMLParser):
 
         # references of msgids and their msgstrs changing referenced link
         # targets by their real target, needed to support link references
-        # (this variable is redefined when the first link tag `a` is found)
+        # (this variable is redefined when the first link or image is found)
         self.real_link_reference_targets = None
 
         # code markup
@@ -376,13 +376,8 @@ class MdPo2HTML(HTMLParser):
             )
             self.output += f'<{tag}{attrs_repr}>'
         else:
-            if tag == 'a' and self.real_link_reference_targets is None:
-                # extend translations to populate link reference msgid-msgstrs
-                # with real targets
-                self.real_link_reference_targets = (
-                    solve_link_reference_targets(self.translations)
-                )
-                self.translations.update(self.real_link_reference_targets)
+            if tag == 'a':
+                self._solve_link_references()
 
             self.replacer.append(('start', tag, OrderedDict(attrs)))
             self.context.append(tag)
@@ -405,7 +400,26 @@ class MdPo2HTML(HTMLParser):
             if self.context:
                 self.context.pop()
 
+    def _solve_link_references(self):
+        # extend translations to populate link reference msgid-msgstrs
+        # with real targets
+        if self.real_link_reference_targets is not None:
+            return
+        self.real_link_reference_targets = (
+            solve_link_reference_targets(self.translations)
+        )
+        for messages in self.translations_with_msgctxt.values():
+            solutions = solve_link_reference_targets(
+                self.translations, messages,
+            )
+            for msgid, msgstr in solutions.items():
+                messages.setdefault(msgid, msgstr)
+        for msgid, msgstr in self.real_link_reference_targets.items():
+            self.translations.setdefault(msgid, msgstr)
+
     def handle_startendtag(self, tag, attrs):
+        if tag in self.image_tags:
+            self._solve_link_references()
 
         if not self.replacer:
             self.output += self.get_starttag_text()
-- 
2.43.0


From 4869252934bd006b075d755cbc5661b929eefb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:49 +0000
Subject: [PATCH 45/70] fix: keep ordered and unordered lists nested in each
 other

---
 src/mdpo/po2md/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6abfc2a..f7f733e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -572,7 +572,8 @@ class Po2Md:
         elif block is md4c.BlockType.LI:
             if self._current_list_type[-1][0] == 'ol':
                 # inside OL
-                if len(self._ol_marks) > 1:
+                if self._current_list_type[-2:-1] and \
+                        self._current_list_type[-2][0] == 'ol':
                     self._save_current_msgid()
                     if not self._ol_marks[-1][0]:
                         self._save_current_line()
@@ -597,6 +598,10 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
+            if self._current_list_type and \
+                    self._current_list_type[-1][0] == 'ul':
+                self._save_current_msgid()
+                self._save_current_line()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
@@ -703,14 +708,16 @@ class Po2Md:
             self._current_list_type.pop()
             if self._inside_quoteblock:
                 self.current_line += '> '
-            if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
+            if not self._current_list_type and (
+                self.outputlines[-1].split('\n')[-1]
+            ):
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
             if self._inside_quoteblock:
                 self.current_line += '> '
-            if not self._ol_marks and self.outputlines[-1]:
+            if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
             self._save_current_msgid()
-- 
2.43.0


From b76310b25a1abe1ee881f000f846231301a90cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 46/70] fix: keep in their list item or quote all the lines of
 code blocks

---
 src/mdpo/po2md/__init__.py | 64 ++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f7f733e..50b7e80 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -126,6 +126,7 @@ class Po2Md:
         '_codespan_backticks',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
+        '_quoteblock_list_depth',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -311,6 +312,8 @@ class Po2Md:
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
+        # number of lists in which the quote is
+        self._quoteblock_list_depth = 0
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -453,11 +456,18 @@ class Po2Md:
                 ),
             )
 
-        if self._inside_indented_codeblock:
-            new_translation = ''
-            for line in translation.splitlines():
-                new_translation += f'    {line}\n'
-            translation = new_translation
+        if self._inside_codeblock:
+            prefix = self._container_prefix()
+            empty_line = prefix.rstrip(' ')
+            if self._inside_indented_codeblock:
+                prefix += '    '
+                empty_line = prefix
+            if translation.endswith('\n'):
+                translation = translation[:-1]
+            translation = '\n'.join(
+                f'{prefix}{line}' if line else empty_line
+                for line in translation.split('\n')
+            )
         else:
             first_line_width_diff = 0
             if self._inside_liblock or self._inside_quoteblock:
@@ -473,8 +483,7 @@ class Po2Md:
             #
             # Only execute it for text outside tables and headings
             if (
-                not self._inside_codeblock
-                and not self._current_thead_aligns
+                not self._current_thead_aligns
                 and not self._inside_hblock
             ):
                 unwrapped_lines = translation.split('\n')
@@ -516,6 +525,14 @@ class Po2Md:
         self._codespan_inside_current_msgid = False
         self._aimg_title_inside_current_msgid = False
 
+    def _container_prefix(self):
+        # start of the lines of the blocks inside lists and quotes
+        indent = '   ' * len(self._current_list_type)
+        if self._inside_quoteblock:
+            depth = 3 * self._quoteblock_list_depth
+            return f'{indent[:depth]}> {indent[depth:]}'
+        return indent
+
     def _save_current_line(self):
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
@@ -546,25 +563,23 @@ class Po2Md:
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
-            self._inside_codeblock = True
-            indent = ''
-
             if self._inside_liblock:
                 self._save_current_msgid()
-                if self.current_line:
-                    self._save_current_line()
-                indent += '   ' * len(self._current_list_type)
+            if self.current_line.strip(' >'):
+                self._save_current_line()
+            self._inside_codeblock = True
 
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
+                self.current_line = f'{self._container_prefix()}{fence_chars}'
                 if details['lang']:
                     self.current_line += details['lang'][0][1]
             else:
                 self._inside_indented_codeblock = True
 
-            if self.current_line:
+            if self.current_line.strip(' >'):
                 self._save_current_line()
+            self.current_line = ''
         elif block is md4c.BlockType.H:
             self._inside_hblock = True
             hash_signs = '#' * details['level']
@@ -631,6 +646,7 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._inside_quoteblock = True
+            self._quoteblock_list_depth = len(self._current_list_type)
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
@@ -671,18 +687,18 @@ class Po2Md:
             self._save_current_msgid()
             self._inside_codeblock = False
 
-            indent = ''
-            if self._inside_liblock:
-                indent += '   ' * len(self._current_list_type)
-            self.current_line = self.current_line.rstrip('\n')
-            self._save_current_line()
+            if self.current_line:
+                self._save_current_line()
             if not self._inside_indented_codeblock:
                 fence_chars = details['fence_char'] * 3
-                self.current_line += f'{indent}{fence_chars}'
+                self.current_line += f'{self._container_prefix()}{fence_chars}'
 
             self._save_current_line()
+            if self._inside_quoteblock:
+                self.current_line += self._container_prefix()
+                self._save_current_line()
             # prevent two newlines after indented code block
-            if not self._inside_liblock and (
+            elif not self._inside_liblock and (
                     not self._inside_indented_codeblock
             ):
                 self._save_current_line()
@@ -980,10 +996,6 @@ class Po2Md:
                     return
                 self.current_msgid += text
             else:
-                if self._inside_liblock:
-                    indent = '   ' * len(self._current_list_type)
-                    if self.current_line[:len(indent) + 1] != indent:
-                        self.current_line += indent
                 self.current_msgid += text
         elif not self._process_command(text):
             self.current_line += text
-- 
2.43.0


From a3bc785a842e30f0e84c19f86a3ad36f6c6d109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 47/70] fix: keep the blocks that follow a nested list in its
 item

---
 src/mdpo/po2md/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 50b7e80..24f3aab 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -716,13 +716,15 @@ class Po2Md:
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
-            self._inside_liblock = False
+            # the item can be inside other
+            self._inside_liblock = len(self._current_list_type) > 1
+            self._inside_liblock_first_p = False
             if self.current_line:
                 self._save_current_line()
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
             self._current_list_type.pop()
-            if self._inside_quoteblock:
+            if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += '> '
             if not self._current_list_type and (
                 self.outputlines[-1].split('\n')[-1]
@@ -731,7 +733,7 @@ class Po2Md:
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
-            if self._inside_quoteblock:
+            if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += '> '
             if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
-- 
2.43.0


From c4d19f4b5678538dfd6a469df06ddc0c7cb6b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 48/70] fix: keep the number of the first item of ordered lists

---
 src/mdpo/po2md/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 24f3aab..2905213 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -334,7 +334,7 @@ class Po2Md:
         # current UL marks by nesting levels
         self._ul_marks = []
 
-        # [numerical iterm order, current delimitier] for OL blocks
+        # [numerical iterm order, current delimitier, start] for OL blocks
         self._ol_marks = []
 
         # current lists type (list nesting): ['ul' or 'ol', [True, False]]
@@ -592,9 +592,14 @@ class Po2Md:
                     self._save_current_msgid()
                     if not self._ol_marks[-1][0]:
                         self._save_current_line()
+                # all the items with the same number, except the first of
+                # the lists that do not start by one
+                number = 1 if self._ol_marks[-1][0] else self._ol_marks[-1][2]
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
-                self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
+                self.current_line += (
+                    f'{indent}{number}{self._ol_marks[-1][1]} '
+                )
                 self._current_list_type[-1][-1].append(False)
             else:
                 # inside UL
@@ -618,7 +623,9 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._current_list_type.append(['ol', []])
-            self._ol_marks.append([0, details['mark_delimiter']])
+            self._ol_marks.append(
+                [0, details['mark_delimiter'], details['start']],
+            )
         elif block is md4c.BlockType.HR:
             if self._current_list_type and not self.current_line:
                 self._save_current_line()
-- 
2.43.0


From 1e211b276b8c7b6b1fe7e141179382d89be8244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 49/70] fix: fences of code blocks longer than the fences
 inside them

---
 src/mdpo/po2md/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2905213..e63f582 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -694,10 +694,17 @@ class Po2Md:
             self._save_current_msgid()
             self._inside_codeblock = False
 
+            if not self._inside_indented_codeblock:
+                # the fence must be longer than those inside the code block
+                fence_chars = details['fence_char'] * 3
+                while fence_chars in self.current_line:
+                    fence_chars += details['fence_char']
+                self.outputlines[-1] = self.outputlines[-1].replace(
+                    details['fence_char'] * 3, fence_chars, 1,
+                )
             if self.current_line:
                 self._save_current_line()
             if not self._inside_indented_codeblock:
-                fence_chars = details['fence_char'] * 3
                 self.current_line += f'{self._container_prefix()}{fence_chars}'
 
             self._save_current_line()
-- 
2.43.0


From 10294949d2d19728a891b6d5ec9e963414d0a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 50/70] fix: escape vertical bars in the cells of tables

---
 src/mdpo/po2md/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e63f582..5986c0f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -512,6 +512,14 @@ class Po2Md:
                 ]):
                     translation += '\n'
 
+        if self._current_thead_aligns:
+            # do not start other table cells
+            translation = re.sub(
+                r'(`+).*?\1|(?<!\\)\|',
+                lambda m: m.group(0) if m.group(1) else r'\|',
+                translation,
+            )
+
         if translation.rstrip('\n'):
             self.current_line += translation
 
-- 
2.43.0


From 8e252c084e7225202d576df3a2a76e5fc43f0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 51/70] fix: keep quotes inside other quotes

---
 src/mdpo/po2md/__init__.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5986c0f..0afc649 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -126,6 +126,7 @@ class Po2Md:
         '_codespan_backticks',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
+        '_quoteblocks_deep',
         '_quoteblock_list_depth',
         '_current_aspan_ref_target',
         '_current_aspan_href',
@@ -312,6 +313,7 @@ class Po2Md:
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
+        self._quoteblocks_deep = 0
         # number of lists in which the quote is
         self._quoteblock_list_depth = 0
 
@@ -538,9 +540,12 @@ class Po2Md:
         indent = '   ' * len(self._current_list_type)
         if self._inside_quoteblock:
             depth = 3 * self._quoteblock_list_depth
-            return f'{indent[:depth]}> {indent[depth:]}'
+            return f'{indent[:depth]}{self._quote_prefix()}{indent[depth:]}'
         return indent
 
+    def _quote_prefix(self):
+        return '> ' * self._quoteblocks_deep
+
     def _save_current_line(self):
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
@@ -567,7 +572,7 @@ class Po2Md:
                 md4c.BlockType.TABLE, md4c.BlockType.THEAD, md4c.BlockType.TR,
             }
         ):
-            self.current_line += '> '
+            self.current_line += self._quote_prefix()
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
@@ -645,12 +650,12 @@ class Po2Md:
             self._save_current_line()
             if not self._inside_liblock:
                 if self._inside_quoteblock:
-                    self.current_line += f'{indent}>'
+                    self.current_line += f'{indent}{self._quote_prefix()}'
                 self._save_current_line()
         elif block is md4c.BlockType.TR:
             self.current_line += '   ' * len(self._current_list_type)
             if self._inside_quoteblock and self._current_thead_aligns:
-                self.current_line += '> '
+                self.current_line += self._quote_prefix()
         elif block is md4c.BlockType.TH:
             self.current_line += '| '
             self._current_thead_aligns.append(details['align'].value)
@@ -660,7 +665,10 @@ class Po2Md:
             if self._inside_liblock:
                 self._save_current_msgid()
                 self._save_current_line()
+            elif self._quoteblocks_deep:  # quote inside other
+                self.current_line = ''
             self._inside_quoteblock = True
+            self._quoteblocks_deep += 1
             self._quoteblock_list_depth = len(self._current_list_type)
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
@@ -695,7 +703,7 @@ class Po2Md:
 
             self._inside_pblock = False
             if self._inside_quoteblock:
-                self.current_line = '>'
+                self.current_line = self._quote_prefix()
                 self._save_current_line()
 
         elif block is md4c.BlockType.CODE:
@@ -729,12 +737,12 @@ class Po2Md:
             self._save_current_msgid()
             if self._inside_quoteblock:
                 self._save_current_line()
-                self.current_line += '> '
+                self.current_line += self._quote_prefix()
             else:
                 self.current_line += '\n'
             self._save_current_line()
             if self._inside_quoteblock:
-                self.current_line += '> '
+                self.current_line += self._quote_prefix()
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
@@ -747,7 +755,7 @@ class Po2Md:
             self._ul_marks.pop()
             self._current_list_type.pop()
             if self._inside_quoteblock and not self._current_list_type:
-                self.current_line += '> '
+                self.current_line += self._quote_prefix()
             if not self._current_list_type and (
                 self.outputlines[-1].split('\n')[-1]
             ):
@@ -756,7 +764,7 @@ class Po2Md:
             self._ol_marks.pop()
             self._current_list_type.pop()
             if self._inside_quoteblock and not self._current_list_type:
-                self.current_line += '> '
+                self.current_line += self._quote_prefix()
             if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
@@ -769,7 +777,7 @@ class Po2Md:
             # build thead separator
             thead_separator = ''
             if self._inside_quoteblock:
-                thead_separator += '> '
+                thead_separator += self._quote_prefix()
             for align in self._current_thead_aligns:
                 if align == 0:
                     thead_separator += '| --- '
@@ -784,11 +792,15 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == '>':
+            if self.outputlines[-1] == self._quote_prefix().rstrip(' '):
                 self.outputlines.pop()
-            if not self._inside_liblock:
+            self._quoteblocks_deep -= 1
+            self._inside_quoteblock = self._quoteblocks_deep > 0
+            if self._inside_quoteblock:
+                self.current_line = self._quote_prefix()
+                self._save_current_line()
+            elif not self._inside_liblock:
                 self._save_current_line()
-            self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
             if not self._inside_quoteblock and not self._current_list_type:
                 self._save_current_line()
-- 
2.43.0


From 9e759cba61fa5d3a90752be61c1da3dd7e6bbec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 52/70] fix: do not fail with links and images without target

---
 src/mdpo/md2po/__init__.py | 14 +++++++++-----
 src/mdpo/po2md/__init__.py | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 12ff879..57258ec 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -723,7 +723,9 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = details['href'][0][1]
+            current_aspan_href = (
+                details['href'][0][1] if details['href'] else ''
+            )
             self._current_aspan_ref_target = None
 
             if details['title']:
@@ -753,7 +755,9 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['src'] = (
+                details['src'][0][1] if details['src'] else ''
+            )
             self._current_imgspan['title'] = '' if not details['title'] \
                 else details['title'][0][1]
             self._current_imgspan['text'] = ''
@@ -799,7 +803,8 @@ class Md2Po:
                 self._current_aspan_ref_target = None
             else:
                 title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
+                href = details['href'][0][1] if details['href'] else ''
+                if href and self._current_aspan_text == href:
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -807,7 +812,6 @@ class Md2Po:
                     self.current_msgid += '>'
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
                     self.current_msgid += (
                         f'[{self._current_aspan_text}]({href}{title_part})'
                     )
@@ -829,7 +833,7 @@ class Md2Po:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = details['src'][0][1] if details['src'] else ''
             if details['title']:
                 imgspan_title = details['title'][0][1]
                 for target, href, title in self.link_references:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0afc649..4990b72 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -839,7 +839,9 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = details['href'][0][1]
+            self._current_aspan_href = (
+                details['href'][0][1] if details['href'] else ''
+            )
             self._current_aspan_ref_target = None
 
             if details['title']:
@@ -866,7 +868,9 @@ class Po2Md:
 
             self._current_imgspan['title'] = '' if not details['title'] \
                 else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['src'] = (
+                details['src'][0][1] if details['src'] else ''
+            )
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = details['target'][0][1]
@@ -907,14 +911,15 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_text == self._current_aspan_href:
+            elif self._current_aspan_href and \
+                    self._current_aspan_text == self._current_aspan_href:
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
                     escaped_title = polib.escape(details['title'][0][1])
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
-            elif self._current_aspan_href:
+            elif self._current_aspan_href is not None:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
                     f'({self._current_aspan_href}'
@@ -935,7 +940,7 @@ class Po2Md:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = details['src'][0][1] if details['src'] else ''
             if details['title']:
                 imgspan_title = polib.escape(details['title'][0][1])
                 for target, href, title in self.link_references:
-- 
2.43.0


From 3acbf7737a5ee50443df409688fc81dda3534dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 53/70] fix: do not move the text of list items after the
 blocks that follow it in HTML files

---
 src/mdpo/mdpo2html/__init__.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ec7c1b4..35e1a97 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -31,6 +31,7 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+GROUPER_TAGS = ['ul', 'ol', 'blockquote', 'table']
 VOID_TAGS = ['br', 'hr', 'img']
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
@@ -353,8 +354,18 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
-        if tag in {'ul', 'ol'} and self.replacer:
-            # list inside other list
+        if self.replacer and (
+            tag in GROUPER_TAGS
+            or tag in self.ignore_grouper_tags
+            or (
+                tag in PROCESS_REPLACER_TAGS
+                and any(
+                    handle == 'data' and data.strip()
+                    for handle, data, _ in self.replacer
+                )
+            )
+        ):
+            # block after the text of a list item
             self._process_replacer()
 
         if tag in self.image_tags:
-- 
2.43.0


From 908b6f132fad9a0728cc6ee350fd26c18ce6846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:34 +0000
Subject: [PATCH 54/70] fix: indent the blocks of list items according to the
 width of their numbers

---
 src/mdpo/po2md/__init__.py | 56 ++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4990b72..2e2fcd1 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -127,7 +127,7 @@ class Po2Md:
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_quoteblocks_deep',
-        '_quoteblock_list_depth',
+        '_quoteblock_indent',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -137,6 +137,7 @@ class Po2Md:
         '_ul_marks',
         '_ol_marks',
         '_current_list_type',
+        '_list_marks_widths',
         '_current_wikilink_target',
         'link_references',
     }
@@ -314,8 +315,8 @@ class Po2Md:
 
         self._inside_quoteblock = False
         self._quoteblocks_deep = 0
-        # number of lists in which the quote is
-        self._quoteblock_list_depth = 0
+        # indentation of the lists in which the quote is
+        self._quoteblock_indent = ''
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -343,6 +344,9 @@ class Po2Md:
         # (second parameter is tasklist item or not)
         self._current_list_type = []
 
+        # width of the current item marks by list nesting levels
+        self._list_marks_widths = []
+
         self._current_wikilink_target = None
 
     def command(self, mdpo_command, comment, original_command):
@@ -460,6 +464,9 @@ class Po2Md:
 
         if self._inside_codeblock:
             prefix = self._container_prefix()
+            if self._inside_indented_codeblock and prefix.endswith(' ' * 3) \
+                    and self._current_list_type[-1][0] == 'ul':
+                prefix = prefix[:-1]  # the mark has only 2 characters
             empty_line = prefix.rstrip(' ')
             if self._inside_indented_codeblock:
                 prefix += '    '
@@ -537,12 +544,18 @@ class Po2Md:
 
     def _container_prefix(self):
         # start of the lines of the blocks inside lists and quotes
-        indent = '   ' * len(self._current_list_type)
+        indent = self._lists_indent()
         if self._inside_quoteblock:
-            depth = 3 * self._quoteblock_list_depth
-            return f'{indent[:depth]}{self._quote_prefix()}{indent[depth:]}'
+            quote_indent = self._quoteblock_indent
+            return (
+                f'{quote_indent}{self._quote_prefix()}'
+                f'{indent[len(quote_indent):]}'
+            )
         return indent
 
+    def _lists_indent(self):
+        return ' ' * sum(self._list_marks_widths)
+
     def _quote_prefix(self):
         return '> ' * self._quoteblocks_deep
 
@@ -589,6 +602,11 @@ class Po2Md:
                     self.current_line += details['lang'][0][1]
             else:
                 self._inside_indented_codeblock = True
+                # it can't follow the lines of a paragraph
+                if self._inside_liblock and not self._inside_liblock_first_p \
+                        and self.outputlines[-1].strip(' >'):
+                    self.current_line = self._container_prefix()
+                    self._save_current_line()
 
             if self.current_line.strip(' >'):
                 self._save_current_line()
@@ -609,14 +627,14 @@ class Po2Md:
                 # the lists that do not start by one
                 number = 1 if self._ol_marks[-1][0] else self._ol_marks[-1][2]
                 self._ol_marks[-1][0] += 1
-                indent = '   ' * (len(self._current_list_type) - 1)
-                self.current_line += (
-                    f'{indent}{number}{self._ol_marks[-1][1]} '
-                )
+                mark = f'{number}{self._ol_marks[-1][1]} '
+                indent = ' ' * sum(self._list_marks_widths[:-1])
+                self._list_marks_widths[-1] = len(mark)
+                self.current_line += f'{indent}{mark}'
                 self._current_list_type[-1][-1].append(False)
             else:
                 # inside UL
-                indent = '   ' * (len(self._current_list_type) - 1)
+                indent = ' ' * sum(self._list_marks_widths[:-1])
                 self.current_line += f'{indent}{self._ul_marks[-1]} '
                 if details['is_task']:
                     mark = details['task_mark']
@@ -629,6 +647,7 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._current_list_type.append(['ul', []])
+            self._list_marks_widths.append(3)
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
             if self._current_list_type and \
@@ -636,6 +655,7 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._current_list_type.append(['ol', []])
+            self._list_marks_widths.append(3)
             self._ol_marks.append(
                 [0, details['mark_delimiter'], details['start']],
             )
@@ -643,7 +663,7 @@ class Po2Md:
             if self._current_list_type and not self.current_line:
                 self._save_current_line()
             indent = (
-                '   ' * len(self._current_list_type)
+                self._lists_indent()
                 if not self.current_line.startswith(('- ', '> - ')) else ''
             )
             self.current_line += f'{indent}***'
@@ -653,7 +673,7 @@ class Po2Md:
                     self.current_line += f'{indent}{self._quote_prefix()}'
                 self._save_current_line()
         elif block is md4c.BlockType.TR:
-            self.current_line += '   ' * len(self._current_list_type)
+            self.current_line += self._lists_indent()
             if self._inside_quoteblock and self._current_thead_aligns:
                 self.current_line += self._quote_prefix()
         elif block is md4c.BlockType.TH:
@@ -669,7 +689,7 @@ class Po2Md:
                 self.current_line = ''
             self._inside_quoteblock = True
             self._quoteblocks_deep += 1
-            self._quoteblock_list_depth = len(self._current_list_type)
+            self._quoteblock_indent = self._lists_indent()
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
@@ -692,12 +712,12 @@ class Po2Md:
 
             if self._inside_liblock:
                 if self._inside_quoteblock:
-                    indent = '   ' * len(self._current_list_type)
+                    indent = self._lists_indent()
                     self.current_line = f'{indent}{self.current_line}'
                 elif self._inside_liblock_first_p:
                     self._inside_liblock_first_p = False
                 else:
-                    indent = '   ' * len(self._current_list_type)
+                    indent = self._lists_indent()
                     self.current_line = f'\n{indent}{self.current_line}'
             self._save_current_line()
 
@@ -754,6 +774,7 @@ class Po2Md:
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
             self._current_list_type.pop()
+            self._list_marks_widths.pop()
             if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += self._quote_prefix()
             if not self._current_list_type and (
@@ -763,6 +784,7 @@ class Po2Md:
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
+            self._list_marks_widths.pop()
             if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += self._quote_prefix()
             if not self._current_list_type and self.outputlines[-1]:
@@ -788,7 +810,7 @@ class Po2Md:
                 else:
                     thead_separator += '| --: '
 
-            indent = '   ' * len(self._current_list_type)
+            indent = self._lists_indent()
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-- 
2.43.0


From d7c726be8f1c947ba6e9a60a15bc618066d6fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:23 +0000
Subject: [PATCH 55/70] fix: keep in their containers the blocks of lists and
 quotes nested in each other

---
 src/mdpo/po2md/__init__.py | 165 +++++++++++++++++++++----------------
 1 file changed, 92 insertions(+), 73 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2e2fcd1..d8de5d1 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -127,7 +127,6 @@ class Po2Md:
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_quoteblocks_deep',
-        '_quoteblock_indent',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -137,7 +136,7 @@ class Po2Md:
         '_ul_marks',
         '_ol_marks',
         '_current_list_type',
-        '_list_marks_widths',
+        '_containers',
         '_current_wikilink_target',
         'link_references',
     }
@@ -315,8 +314,6 @@ class Po2Md:
 
         self._inside_quoteblock = False
         self._quoteblocks_deep = 0
-        # indentation of the lists in which the quote is
-        self._quoteblock_indent = ''
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -344,8 +341,8 @@ class Po2Md:
         # (second parameter is tasklist item or not)
         self._current_list_type = []
 
-        # width of the current item marks by list nesting levels
-        self._list_marks_widths = []
+        # start of the lines inside the current lists and quotes
+        self._containers = []
 
         self._current_wikilink_target = None
 
@@ -544,20 +541,36 @@ class Po2Md:
 
     def _container_prefix(self):
         # start of the lines of the blocks inside lists and quotes
-        indent = self._lists_indent()
-        if self._inside_quoteblock:
-            quote_indent = self._quoteblock_indent
-            return (
-                f'{quote_indent}{self._quote_prefix()}'
-                f'{indent[len(quote_indent):]}'
-            )
-        return indent
+        return ''.join(self._containers)
+
+    def _leave_list_item_text(self):
+        self._save_current_msgid()
+        if not self._inside_quoteblock or self.current_line.strip(' >'):
+            self._save_current_line()
 
-    def _lists_indent(self):
-        return ' ' * sum(self._list_marks_widths)
+    def _leave_list(self):
+        self._current_list_type.pop()
+        self._containers.pop()
+        if self._containers and self._containers[-1] == '> ':
+            # other blocks can follow the list in the quote
+            self.current_line = self._container_prefix()
+            if self._current_list_type:
+                self._save_current_line()
 
     def _quote_prefix(self):
-        return '> ' * self._quoteblocks_deep
+        # until the mark of the innermost quote
+        return self._container_prefix().rpartition('>')[0] + '>'
+
+    def _start_line(self, prefix):
+        # only if the line is not started; previous HTML blocks could be
+        # waiting in the lines before
+        *lines, line = self.current_line.split('\n')
+        if not line.strip(' >'):
+            self.current_line = '\n'.join([*lines, prefix])
+
+    def _start_list_item(self, mark):
+        self._start_line('')
+        self.current_line += f'{"".join(self._containers[:-1])}{mark}'
 
     def _save_current_line(self):
         # strip all spaces according to unicodedata database ignoring newlines,
@@ -579,13 +592,13 @@ class Po2Md:
 
         if (
             self._inside_quoteblock
-            and (not self.current_line or self.current_line[0] != '>')
             and not self._current_thead_aligns
             and block not in {
+                md4c.BlockType.UL, md4c.BlockType.OL, md4c.BlockType.LI,
                 md4c.BlockType.TABLE, md4c.BlockType.THEAD, md4c.BlockType.TR,
             }
         ):
-            self.current_line += self._quote_prefix()
+            self._start_line(self._container_prefix())
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
@@ -595,6 +608,18 @@ class Po2Md:
                 self._save_current_line()
             self._inside_codeblock = True
 
+            # indented code blocks can't follow the lines of a paragraph,
+            # and the fences of others are not part of tables
+            if self._inside_liblock and (
+                self.outputlines[-1].endswith('|') or (
+                    details['fence_char'] is None
+                    and not self._inside_liblock_first_p
+                    and self.outputlines[-1].strip(' >')
+                )
+            ):
+                self.current_line = self._container_prefix()
+                self._save_current_line()
+
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
                 self.current_line = f'{self._container_prefix()}{fence_chars}'
@@ -602,11 +627,6 @@ class Po2Md:
                     self.current_line += details['lang'][0][1]
             else:
                 self._inside_indented_codeblock = True
-                # it can't follow the lines of a paragraph
-                if self._inside_liblock and not self._inside_liblock_first_p \
-                        and self.outputlines[-1].strip(' >'):
-                    self.current_line = self._container_prefix()
-                    self._save_current_line()
 
             if self.current_line.strip(' >'):
                 self._save_current_line()
@@ -620,22 +640,21 @@ class Po2Md:
                 # inside OL
                 if self._current_list_type[-2:-1] and \
                         self._current_list_type[-2][0] == 'ol':
-                    self._save_current_msgid()
                     if not self._ol_marks[-1][0]:
-                        self._save_current_line()
+                        self._leave_list_item_text()
+                    else:
+                        self._save_current_msgid()
                 # all the items with the same number, except the first of
                 # the lists that do not start by one
                 number = 1 if self._ol_marks[-1][0] else self._ol_marks[-1][2]
                 self._ol_marks[-1][0] += 1
                 mark = f'{number}{self._ol_marks[-1][1]} '
-                indent = ' ' * sum(self._list_marks_widths[:-1])
-                self._list_marks_widths[-1] = len(mark)
-                self.current_line += f'{indent}{mark}'
+                self._start_list_item(mark)
+                self._containers[-1] = ' ' * len(mark)
                 self._current_list_type[-1][-1].append(False)
             else:
                 # inside UL
-                indent = ' ' * sum(self._list_marks_widths[:-1])
-                self.current_line += f'{indent}{self._ul_marks[-1]} '
+                self._start_list_item(f'{self._ul_marks[-1]} ')
                 if details['is_task']:
                     mark = details['task_mark']
                     self.current_line += f'[{mark}] '
@@ -644,38 +663,35 @@ class Po2Md:
             self._inside_liblock_first_p = True
         elif block is md4c.BlockType.UL:
             if self._current_list_type:
-                self._save_current_msgid()
-                self._save_current_line()
+                self._leave_list_item_text()
             self._current_list_type.append(['ul', []])
-            self._list_marks_widths.append(3)
+            self._containers.append(' ' * 3)
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
             if self._current_list_type and \
                     self._current_list_type[-1][0] == 'ul':
-                self._save_current_msgid()
-                self._save_current_line()
+                self._leave_list_item_text()
             self._current_list_type.append(['ol', []])
-            self._list_marks_widths.append(3)
+            self._containers.append(' ' * 3)
             self._ol_marks.append(
                 [0, details['mark_delimiter'], details['start']],
             )
         elif block is md4c.BlockType.HR:
+            if self.current_msgid:  # text of a list item
+                self._save_current_msgid()
+                self._save_current_line()
             if self._current_list_type and not self.current_line:
                 self._save_current_line()
-            indent = (
-                self._lists_indent()
-                if not self.current_line.startswith(('- ', '> - ')) else ''
-            )
-            self.current_line += f'{indent}***'
+            if not self.current_line.strip(' >'):
+                self.current_line = self._container_prefix()
+            self.current_line += '***'
             self._save_current_line()
             if not self._inside_liblock:
                 if self._inside_quoteblock:
-                    self.current_line += f'{indent}{self._quote_prefix()}'
+                    self.current_line += self._container_prefix()
                 self._save_current_line()
         elif block is md4c.BlockType.TR:
-            self.current_line += self._lists_indent()
-            if self._inside_quoteblock and self._current_thead_aligns:
-                self.current_line += self._quote_prefix()
+            self._start_line(self._container_prefix())
         elif block is md4c.BlockType.TH:
             self.current_line += '| '
             self._current_thead_aligns.append(details['align'].value)
@@ -689,10 +705,15 @@ class Po2Md:
                 self.current_line = ''
             self._inside_quoteblock = True
             self._quoteblocks_deep += 1
-            self._quoteblock_indent = self._lists_indent()
+            self._containers.append('> ')
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
+            elif self._inside_quoteblock and self.outputlines[-1].startswith(
+                self._quote_prefix() + ' ',
+            ):
+                self.current_line = self._container_prefix()
+                self._save_current_line()
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = [True, False, len(self.current_line)]
 
@@ -711,19 +732,21 @@ class Po2Md:
             self._save_current_msgid()
 
             if self._inside_liblock:
-                if self._inside_quoteblock:
-                    indent = self._lists_indent()
-                    self.current_line = f'{indent}{self.current_line}'
-                elif self._inside_liblock_first_p:
+                if self._inside_liblock_first_p:
                     self._inside_liblock_first_p = False
-                else:
-                    indent = self._lists_indent()
+                elif not self._inside_quoteblock:
+                    indent = self._container_prefix()
                     self.current_line = f'\n{indent}{self.current_line}'
+                elif self.outputlines[-1].startswith(
+                    self._quote_prefix() + ' ',
+                ):
+                    prefix = self._container_prefix().rstrip(' ')
+                    self.current_line = f'{prefix}\n{self.current_line}'
             self._save_current_line()
 
             self._inside_pblock = False
             if self._inside_quoteblock:
-                self.current_line = self._quote_prefix()
+                self.current_line = self._container_prefix()
                 self._save_current_line()
 
         elif block is md4c.BlockType.CODE:
@@ -743,7 +766,8 @@ class Po2Md:
             if not self._inside_indented_codeblock:
                 self.current_line += f'{self._container_prefix()}{fence_chars}'
 
-            self._save_current_line()
+            if self.current_line or not self._inside_quoteblock:
+                self._save_current_line()
             if self._inside_quoteblock:
                 self.current_line += self._container_prefix()
                 self._save_current_line()
@@ -757,12 +781,12 @@ class Po2Md:
             self._save_current_msgid()
             if self._inside_quoteblock:
                 self._save_current_line()
-                self.current_line += self._quote_prefix()
+                self.current_line += self._container_prefix()
             else:
                 self.current_line += '\n'
             self._save_current_line()
             if self._inside_quoteblock:
-                self.current_line += self._quote_prefix()
+                self.current_line += self._container_prefix()
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
@@ -773,20 +797,14 @@ class Po2Md:
                 self._save_current_line()
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
-            self._current_list_type.pop()
-            self._list_marks_widths.pop()
-            if self._inside_quoteblock and not self._current_list_type:
-                self.current_line += self._quote_prefix()
+            self._leave_list()
             if not self._current_list_type and (
                 self.outputlines[-1].split('\n')[-1]
             ):
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
-            self._current_list_type.pop()
-            self._list_marks_widths.pop()
-            if self._inside_quoteblock and not self._current_list_type:
-                self.current_line += self._quote_prefix()
+            self._leave_list()
             if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
@@ -797,9 +815,7 @@ class Po2Md:
             self._save_current_line()
         elif block is md4c.BlockType.THEAD:
             # build thead separator
-            thead_separator = ''
-            if self._inside_quoteblock:
-                thead_separator += self._quote_prefix()
+            thead_separator = self._container_prefix()
             for align in self._current_thead_aligns:
                 if align == 0:
                     thead_separator += '| --- '
@@ -810,21 +826,24 @@ class Po2Md:
                 else:
                     thead_separator += '| --: '
 
-            indent = self._lists_indent()
-            self.current_line += f'{indent}{thead_separator}|'
+            self.current_line += f'{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == self._quote_prefix().rstrip(' '):
+            if self.outputlines[-1] == self._container_prefix().rstrip(' '):
                 self.outputlines.pop()
             self._quoteblocks_deep -= 1
+            self._containers.pop()
+            self.current_line = ''
             self._inside_quoteblock = self._quoteblocks_deep > 0
             if self._inside_quoteblock:
-                self.current_line = self._quote_prefix()
+                self.current_line = self._container_prefix()
                 self._save_current_line()
             elif not self._inside_liblock:
                 self._save_current_line()
         elif block is md4c.BlockType.TABLE:
-            if not self._inside_quoteblock and not self._current_list_type:
+            if self._inside_quoteblock:
+                self.current_line = self._container_prefix()
+            if self._inside_quoteblock or not self._current_list_type:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-- 
2.43.0


From 95eebfd9a35f0cec10e3ba9a56ed4c3182e14388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:25 +0000
Subject: [PATCH 56/70] fix: do not join the text of list items with their
 headings and code blocks

---
 src/mdpo/md2po/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 57258ec..b80861d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -592,6 +592,8 @@ class Md2Po:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.P.value
         elif block is md4c.BlockType.CODE:
+            if self._inside_liblock and self.current_msgid:
+                self._save_current_msgid()
             self._inside_codeblock = True
             if not any([
                 self._quoteblocks_deep,
@@ -614,6 +616,8 @@ class Md2Po:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
         elif block is md4c.BlockType.H:
+            if self._inside_liblock and self.current_msgid:
+                self._save_current_msgid()
             self._inside_hblock = True
             if not any([
                 self._quoteblocks_deep,
-- 
2.43.0


From d885afe296ca9e914c071aa4fa01a1e5d73966e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 57/70] fix: save changed bytes of outputs with --check

---
 src/mdpo/io.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 1170df9..b8bf052 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -2,6 +2,7 @@
 
 import contextlib
 import glob
+import io
 import os
 import uuid
 from contextlib import contextmanager
@@ -183,13 +184,18 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
         save_file(filepath, content, encoding=encoding)
         return True
 
+    # compare the bytes, the previous file could have other line endings or
+    # not be text in the encoding
     if isinstance(content, bytes):
-        with open(filepath, 'rb') as f:
-            prev_content = f.read()
+        new_content = content
     else:
-        with open(filepath, encoding=encoding) as f:
-            prev_content = f.read()
-    changed = prev_content != content
+        with io.TextIOWrapper(io.BytesIO(), encoding=encoding) as f:
+            f.write(content)
+            f.flush()
+            new_content = f.buffer.getvalue()
+    with open(filepath, 'rb') as f:
+        prev_content = f.read()
+    changed = prev_content != new_content
     if changed:
         save_file(filepath, content, encoding=encoding)
     return changed
-- 
2.43.0


From 8dfbf2f5b679504d47c7ee309dfec8d3b8d1bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 58/70] fix: do not wrap wikilinks before their text

---
 src/mdpo/po2md/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d8de5d1..25d0436 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -37,6 +37,9 @@ BLOCK_START_REGEX = re.compile(
     re.IGNORECASE,
 )
 
+# line that ends just before the text of a wikilink
+OPEN_WIKILINK_REGEX = re.compile(r'\[\[[^\[\]|]+\|$')
+
 
 class Po2Md:
     """PO files to Markdown translator implementation.
@@ -509,6 +512,9 @@ class Po2Md:
                         for unwrapped_line in unwrapped_lines
                     ):
                         separator = ' '
+                    elif OPEN_WIKILINK_REGEX.search(translation):
+                        # the text of a wikilink would start with the break
+                        separator = ''
                     translation += f'{separator}{line}'
 
                 if not any([
-- 
2.43.0


From 98cd61b035dc322502405742f7050a5cd210b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:48 +0000
Subject: [PATCH 59/70] fix: call every function of an event passed several
 times to --event

---
 src/mdpo/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/cli.py b/src/mdpo/cli.py
index 497fbd3..b1ade8d 100644
--- a/src/mdpo/cli.py
+++ b/src/mdpo/cli.py
@@ -329,12 +329,12 @@ def parse_event_argument(value):
             ``event_name: path/to/file.py::func``.
 
     Returns:
-        dict: Mapping of event names and `file::function` paths.
+        dict: Mapping of event names and lists of `file::function` paths.
     """
     events = {}
     for event_name_filefunc in value:
         event_name, filefunc = event_name_filefunc.split(':', maxsplit=1)
-        events[event_name.strip()] = filefunc.strip()
+        events.setdefault(event_name.strip(), []).append(filefunc.strip())
     return events
 
 
-- 
2.43.0


From cb709987eb595fc5e440c5fdf8b010217ffc0bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 60/70] fix: translate pages with anchors without target and
 images without source

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 35e1a97..449611a 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -186,7 +186,7 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
                     raw_html_template += f'<{handled}{attrs_repr}>'
-                elif handled in self.link_tags:
+                elif handled in self.link_tags and attrs.get('href'):
                     title, href = attrs.get('title'), attrs['href']
                     _current_link_target = f'({href}'
                     if title:
@@ -263,7 +263,7 @@ class MdPo2HTML(HTMLParser):
                 )
                 original_html += f'<{handled}{attrs_repr}/>'
 
-                if handled in self.image_tags:
+                if handled in self.image_tags and attrs.get('src'):
                     alt, src = attrs.get('alt', ''), attrs['src']
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
-- 
2.43.0


From 4cc732af712de25adba9b23b9436abfbb39399a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:02 +0000
Subject: [PATCH 61/70] fix: keep doctypes, processing instructions and CDATA
 of HTML pages

---
 src/mdpo/mdpo2html/__init__.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 449611a..db2dfe6 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -254,9 +254,9 @@ class MdPo2HTML(HTMLParser):
                 _last_end_tag = handled
                 if _last_end_tag == 'code':
                     _inside_code = False
-            elif handle == 'comment':
-                original_html += f'<!--{handled}-->'
-                raw_html_template += f'<!--{handled}-->'
+            elif handle == 'raw':
+                original_html += handled
+                raw_html_template += handled
             elif handle == 'startend':
                 attrs_repr = (
                     f' {_html_attrs_to_str(attrs)}' if attrs else ''
@@ -454,12 +454,27 @@ class MdPo2HTML(HTMLParser):
             else:
                 self.replacer.append(('data', data, None))
 
+    def _handle_raw(self, text):
+        if self.replacer:
+            self.replacer.append(('raw', text, None))
+        else:
+            self.output += text
+
+    def handle_decl(self, decl):
+        self._handle_raw(f'<!{decl}>')
+
+    def handle_pi(self, data):
+        self._handle_raw(f'<?{data}>')
+
+    def unknown_decl(self, data):
+        self._handle_raw(f'<![{data}]]>')
+
     def handle_comment(self, data):
 
+        data_as_comment = f'<!--{data}-->'
         if self.replacer:
-            self.replacer.append(('comment', data, None))
+            self._handle_raw(data_as_comment)
         else:
-            data_as_comment = f'<!--{data}-->'
             command, comment = parse_mdpo_html_command(
                 data_as_comment,
             )
-- 
2.43.0


From e96f5764bd443a9b8753f036378bce4b09d20162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 62/70] fix: keep the HTML out of the texts of a page as it is

---
 src/mdpo/mdpo2html/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index db2dfe6..8086162 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -386,6 +386,9 @@ class MdPo2HTML(HTMLParser):
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
             )
             self.output += f'<{tag}{attrs_repr}>'
+        elif not self.replacer and tag not in PROCESS_REPLACER_TAGS:
+            # out of the texts
+            self.output += self.get_starttag_text()
         else:
             if tag == 'a':
                 self._solve_link_references()
@@ -404,7 +407,9 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif not self.replacer or tag in {
+            'ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody',
+        }:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
@@ -525,6 +530,9 @@ class MdPo2HTML(HTMLParser):
         )
 
         self.feed(content)
+        self.close()
+        if self.replacer:
+            self._process_replacer()
 
         if save:
             if self._saved_files_changed is False:
-- 
2.43.0


From 78625926e17a4bc5a5aa380e90d3d39ed876d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:27 +0000
Subject: [PATCH 63/70] fix: keep escaped the titles of HTML pages

---
 src/mdpo/mdpo2html/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 8086162..c98005c 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -454,7 +454,8 @@ class MdPo2HTML(HTMLParser):
                 or not self.context
             ):
                 self.output += (
-                    data if self.cdata_elem else html.escape(data, quote=False)
+                    data if self.cdata_elem in self.CDATA_CONTENT_ELEMENTS
+                    else html.escape(data, quote=False)
                 )
             else:
                 self.replacer.append(('data', data, None))
-- 
2.43.0


From 9f1836734f5aad794161289251e7d04e3747cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:41 +0000
Subject: [PATCH 64/70] fix: do not join the texts of ordered lists after a
 nested one

---
 src/mdpo/md2po/__init__.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index b80861d..e60e9d6 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -128,7 +128,7 @@ class Md2Po:
         '_inside_aspan',
         '_inside_liblock',
         '_inside_codespan',
-        '_inside_olblock',
+        '_ols_deep',
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
@@ -375,7 +375,7 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
+        self._ols_deep = 0
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
@@ -587,7 +587,7 @@ class Md2Po:
                 self._inside_hblock,
                 self._uls_deep,
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.P.value
@@ -598,7 +598,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.CODE.value
@@ -606,12 +606,12 @@ class Md2Po:
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
             self._uls_deep += 1
-            if self._uls_deep > 1 or self._inside_olblock:
+            if self._uls_deep > 1 or self._ols_deep:
                 # changing UL deeep
                 self._save_current_msgid()
             elif not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
@@ -622,7 +622,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.H.value
@@ -637,26 +637,26 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
 
-            if self._inside_olblock or self._uls_deep:
+            if self._ols_deep or self._uls_deep:
                 self._save_current_msgid()
-            self._inside_olblock = True
+            self._ols_deep += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
                 self._uls_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.HTML.value
         elif block is md4c.BlockType.TABLE and not any([
             self._quoteblocks_deep,
-            self._inside_olblock,
+            self._ols_deep,
             self._uls_deep,
         ]):
             self._current_top_level_block_number += 1
@@ -689,7 +689,7 @@ class Md2Po:
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._ols_deep -= 1
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From da5610eb4ee919948a8460636e80757dc5a704a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 65/70] fix: do not join texts of list items with the blocks
 after nested lists

---
 src/mdpo/md2po/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index e60e9d6..d667438 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -592,7 +592,7 @@ class Md2Po:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.P.value
         elif block is md4c.BlockType.CODE:
-            if self._inside_liblock and self.current_msgid:
+            if self.current_msgid:  # text of a list item
                 self._save_current_msgid()
             self._inside_codeblock = True
             if not any([
@@ -616,7 +616,7 @@ class Md2Po:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
         elif block is md4c.BlockType.H:
-            if self._inside_liblock and self.current_msgid:
+            if self.current_msgid:  # text of a list item
                 self._save_current_msgid()
             self._inside_hblock = True
             if not any([
@@ -628,7 +628,7 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.H.value
         elif block is md4c.BlockType.QUOTE:
             self._quoteblocks_deep += 1
-            if self._inside_liblock and self.current_msgid:
+            if self.current_msgid:  # text of a list item
                 self._save_current_msgid()
             if self._quoteblocks_deep == 1:
                 self._current_top_level_block_number += 1
-- 
2.43.0


From 300208d41adecc975e7679e6ce220fb5c106348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:46 +0000
Subject: [PATCH 66/70] fix: keep in list items the headings and the texts
 after other blocks

---
 src/mdpo/po2md/__init__.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 25d0436..be91b84 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -533,6 +533,12 @@ class Po2Md:
             )
 
         if translation.rstrip('\n'):
+            if self._inside_liblock and not (
+                self._inside_pblock or self._inside_codeblock
+                or self._current_thead_aligns
+            ):
+                # text of a list item could be after other blocks
+                self._start_line(self._container_prefix())
             self.current_line += translation
 
         self.current_msgid = ''
@@ -638,6 +644,17 @@ class Po2Md:
                 self._save_current_line()
             self.current_line = ''
         elif block is md4c.BlockType.H:
+            if self._inside_liblock and self.current_msgid:
+                # text of a list item
+                self._save_current_msgid()
+                self._save_current_line()
+            if self._inside_liblock:
+                if not self.current_line and self.outputlines[-1].endswith(
+                    '|',
+                ):
+                    # the heading is not part of the table
+                    self._save_current_line()
+                self._start_line(self._container_prefix())
             self._inside_hblock = True
             hash_signs = '#' * details['level']
             self.current_line += f'{hash_signs} '
@@ -715,8 +732,9 @@ class Po2Md:
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
-            elif self._inside_quoteblock and self.outputlines[-1].startswith(
-                self._quote_prefix() + ' ',
+            elif (
+                self._inside_quoteblock and self.outputlines
+                and self.outputlines[-1].startswith(self._quote_prefix() + ' ')
             ):
                 self.current_line = self._container_prefix()
                 self._save_current_line()
@@ -788,7 +806,7 @@ class Po2Md:
             if self._inside_quoteblock:
                 self._save_current_line()
                 self.current_line += self._container_prefix()
-            else:
+            elif not self._inside_liblock:
                 self.current_line += '\n'
             self._save_current_line()
             if self._inside_quoteblock:
@@ -835,7 +853,9 @@ class Po2Md:
             self.current_line += f'{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == self._container_prefix().rstrip(' '):
+            if self.outputlines and (
+                self.outputlines[-1] == self._container_prefix().rstrip(' ')
+            ):
                 self.outputlines.pop()
             self._quoteblocks_deep -= 1
             self._containers.pop()
-- 
2.43.0


From bce6b344ccb8facbe690d86741a6ff44c2dfe550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:49 +0000
Subject: [PATCH 67/70] fix: translate the texts of list items after other
 blocks in HTML files

---
 src/mdpo/mdpo2html/__init__.py | 44 ++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index c98005c..7bbf399 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -32,7 +32,10 @@ PROCESS_REPLACER_TAGS = [
     'h4', 'h5', 'h6', 'td', 'th',
 ]
 GROUPER_TAGS = ['ul', 'ol', 'blockquote', 'table']
-VOID_TAGS = ['br', 'hr', 'img']
+VOID_TAGS = [
+    'br', 'hr', 'img', 'input', 'wbr', 'area', 'base', 'col', 'embed', 'link',
+    'meta', 'param', 'source', 'track',
+]
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -124,6 +127,9 @@ class MdPo2HTML(HTMLParser):
 
         self.ignore_grouper_tags = ignore_grouper_tags
 
+        # opened tags, except those of the markup of the texts
+        self._open_tags = []
+
         self.markup_tags = []
         self.markup_tags.extend(self.code_tags)
         self.markup_tags.extend(self.bold_tags)
@@ -368,6 +374,12 @@ class MdPo2HTML(HTMLParser):
             # block after the text of a list item
             self._process_replacer()
 
+        if not self._is_markup_tag(tag):
+            if tag not in VOID_TAGS:
+                self._open_tags.append(tag)
+        elif tag not in self.image_tags:
+            self._continue_list_item()
+
         if tag in self.image_tags:
             self.handle_startendtag(tag, attrs)
         elif tag in self.ignore_grouper_tags:
@@ -386,7 +398,10 @@ class MdPo2HTML(HTMLParser):
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
             )
             self.output += f'<{tag}{attrs_repr}>'
-        elif not self.replacer and tag not in PROCESS_REPLACER_TAGS:
+        elif (
+            not self.replacer and self.context != ['li']
+            and tag not in PROCESS_REPLACER_TAGS
+        ):
             # out of the texts
             self.output += self.get_starttag_text()
         else:
@@ -396,7 +411,21 @@ class MdPo2HTML(HTMLParser):
             self.replacer.append(('start', tag, OrderedDict(attrs)))
             self.context.append(tag)
 
+    def _is_markup_tag(self, tag):
+        return (
+            tag in self.markup_tags or tag in self.link_tags
+            or tag in self.image_tags
+        )
+
+    def _continue_list_item(self):
+        # the text of a list item can be after other blocks
+        if not self.replacer and self._open_tags[-1:] == ['li']:
+            self.context = ['li']
+
     def handle_endtag(self, tag):
+        if tag in self._open_tags:
+            while self._open_tags.pop() != tag:
+                pass
 
         if tag in self.ignore_grouper_tags:
             self.output += f'</{tag}>'
@@ -436,8 +465,9 @@ class MdPo2HTML(HTMLParser):
     def handle_startendtag(self, tag, attrs):
         if tag in self.image_tags:
             self._solve_link_references()
+            self._continue_list_item()
 
-        if not self.replacer:
+        if not self.replacer and self.context != ['li']:
             self.output += self.get_starttag_text()
         else:
             self.replacer.append(('startend', tag, OrderedDict(attrs)))
@@ -445,8 +475,14 @@ class MdPo2HTML(HTMLParser):
     def handle_data(self, data):
 
         if data:
+            if data.strip():
+                self._continue_list_item()
+            if not self.replacer and self.context == ['li']:
+                text = data.lstrip()
+                self.output += data[:len(data) - len(text)]
+                data = text
             if (
-                not self.replacer
+                (not self.replacer and self.context != ['li'])
                 or (
                     self.context
                     and self.context[0] in self.ignore_grouper_tags
-- 
2.43.0


From a9ceba8ad68455a4219f6bf05b633073a3fd295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:53 +0000
Subject: [PATCH 68/70] fix: keep texts of HTML pages without words as they are

---
 src/mdpo/mdpo2html/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 7bbf399..b8a26e0 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -282,7 +282,7 @@ class MdPo2HTML(HTMLParser):
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
         if not _current_replacement.strip():  # there is no message
-            self.output += raw_html_template
+            self.output += original_html
             self.context = []
             return
 
-- 
2.43.0


From 5ce7279b00780da10496f94c2577ee5c97fef69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:56 +0000
Subject: [PATCH 69/70] fix: keep links to relative paths and URLs with
 entities

---
 docs/dev/implementation-notes.rst |  2 +-
 docs/rationale.rst                |  2 +-
 src/mdpo/md.py                    | 27 ++++++++++++++++++++
 src/mdpo/md2po/__init__.py        | 36 ++++++++++++++-------------
 src/mdpo/mdpo2html/__init__.py    |  4 +--
 src/mdpo/po2md/__init__.py        | 41 +++++++++++++++++--------------
 6 files changed, 73 insertions(+), 39 deletions(-)

diff --git a/docs/dev/implementation-notes.rst b/docs/dev/implementation-notes.rst
index 07f0612..7d88705 100644
--- a/docs/dev/implementation-notes.rst
+++ b/docs/dev/implementation-notes.rst
@@ -17,7 +17,7 @@ like ``[title](https://github.com)``.
 
 MD4C parser doesn't distinguish between an autolink and a link whose text and
 destination is the same. So, mdpo will treat all links whose text and
-destination is the same as autolinks.
+destination is the same as autolinks, unless is not an absolute URI.
 
 If a link has inside his text markup characters, even if its content if the
 same as its target, will be treated as different and rendered as a link. So,
diff --git a/docs/rationale.rst b/docs/rationale.rst
index a533152..f3f2b1b 100644
--- a/docs/rationale.rst
+++ b/docs/rationale.rst
@@ -58,7 +58,7 @@ the text that needs to be translated, including markdown characters:
   ```Code text```.
 * ``[Link text](target)`` is not changed if the text is different than the
   target, is dumped into msgids as is. In the case that link text and target
-  are equal, is converted to an `autolink`_ and dumped into msgids as
+  are the same absolute URI, is converted to an `autolink`_ and dumped into msgids as
   ``<link>``.
 * Images as ``![Image alternative text](/target.ext "Image title text")``,
   are not changed, but included as is.
diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 62a1608..440502a 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -91,3 +91,30 @@ def solve_link_reference_targets(translations, messages=None):
             solutions[new_msgid] = solve(msgstr, msgstr_definitions)
 
     return solutions
+
+
+def attribute_text(attribute):
+    """Return the text of an attribute of a block or span.
+
+    Args:
+        attribute (list): Types and texts of the parts of the attribute, which
+            are many if it contains entities.
+
+    Returns:
+        str: Text of the attribute, empty if is not defined.
+    """
+    return ''.join(text for _, text in attribute or [])
+
+
+def is_autolink(text):
+    """Check if a text can be written as an autolink, like ``<https://foo>``.
+
+    Args:
+        text (str): Text and destination of the link.
+
+    Returns:
+        bool: If the text is an URI with scheme.
+    """
+    import re
+
+    return re.match(r'[a-zA-Z][a-zA-Z0-9+.-]{1,31}:[^\s<>]*$', text) is not None
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d667438..cba79d4 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -19,7 +19,11 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_files_or_content,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import (
+    attribute_text,
+    is_autolink,
+    parse_link_references,
+)
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
@@ -699,7 +703,10 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title'] and self._is_extraction_enabled():
-            self._save_msgid(details['title'][0][1], msgstr=self.msgstr)
+            self._save_msgid(
+                attribute_text(details['title']),
+                msgstr=self.msgstr,
+            )
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
@@ -727,13 +734,11 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = (
-                details['href'][0][1] if details['href'] else ''
-            )
+            current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == current_aspan_href
@@ -759,16 +764,13 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = (
-                details['src'][0][1] if details['src'] else ''
-            )
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
+            self._current_imgspan['src'] = attribute_text(details['src'])
+            self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -806,9 +808,9 @@ class Md2Po:
                     )
                 self._current_aspan_ref_target = None
             else:
-                title = details['title'][0][1] if details['title'] else ''
-                href = details['href'][0][1] if details['href'] else ''
-                if href and self._current_aspan_text == href:
+                title = attribute_text(details['title'])
+                href = attribute_text(details['href'])
+                if self._current_aspan_text == href and is_autolink(href):
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -837,9 +839,9 @@ class Md2Po:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1] if details['src'] else ''
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = details['title'][0][1]
+                imgspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index b8a26e0..30d4390 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -19,7 +19,7 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_file_content_if_is_file,
 )
-from mdpo.md import solve_link_reference_targets
+from mdpo.md import is_autolink, solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
@@ -248,7 +248,7 @@ class MdPo2HTML(HTMLParser):
                     link_text = _current_replacement[_link_start:]
                     if (
                         _current_link_target == f'({link_text})'
-                        and re.match(r'[a-zA-Z][\w+.-]+:', link_text)
+                        and is_autolink(link_text)
                     ):
                         link = f'<{link_text}>'
                     else:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index be91b84..ef51462 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -17,7 +17,11 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_file_content_if_is_file,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import (
+    attribute_text,
+    is_autolink,
+    parse_link_references,
+)
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -636,7 +640,7 @@ class Po2Md:
                 fence_chars = details['fence_char'] * 3
                 self.current_line = f'{self._container_prefix()}{fence_chars}'
                 if details['lang']:
-                    self.current_line += details['lang'][0][1]
+                    self.current_line += attribute_text(details['lang'])
             else:
                 self._inside_indented_codeblock = True
 
@@ -906,13 +910,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = (
-                details['href'][0][1] if details['href'] else ''
-            )
+            self._current_aspan_href = attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == self._current_aspan_href
@@ -933,14 +935,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = (
-                details['src'][0][1] if details['src'] else ''
-            )
+            self._current_imgspan['title'] = attribute_text(details['title'])
+            self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -978,12 +977,16 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_href and \
-                    self._current_aspan_text == self._current_aspan_href:
+            elif (
+                self._current_aspan_text == self._current_aspan_href
+                and is_autolink(self._current_aspan_href)
+            ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
             elif self._current_aspan_href is not None:
@@ -993,7 +996,9 @@ class Po2Md:
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += ')'
             self._current_aspan_href = None
@@ -1007,9 +1012,9 @@ class Po2Md:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1] if details['src'] else ''
+            imgspan_src = attribute_text(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
+                imgspan_title = polib.escape(attribute_text(details['title']))
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
-- 
2.43.0


From b039997faced6b1bd6898da7f40e53c6922a771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:59 +0000
Subject: [PATCH 70/70] fix: keep the text of code spans and of images

---
 src/mdpo/md2po/__init__.py     | 76 ++++++++++++++++++++--------------
 src/mdpo/mdpo2html/__init__.py |  9 ++--
 src/mdpo/po2md/__init__.py     | 62 +++++++++++++++++++--------
 src/mdpo/text.py               | 22 ++++++++++
 4 files changed, 116 insertions(+), 53 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index cba79d4..81aec15 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -36,7 +36,7 @@ from mdpo.po import (
     pofile_encoding,
     remove_not_found_entries,
 )
-from mdpo.text import min_not_max_chars_in_a_row, parse_wrapwidth_argument
+from mdpo.text import codespan_delimiters, parse_wrapwidth_argument
 
 
 class Md2Po:
@@ -136,7 +136,6 @@ class Md2Po:
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
@@ -386,7 +385,6 @@ class Md2Po:
         self._uls_deep = 0
 
         self._codespan_start_index = None
-        self._codespan_backticks = None
 
         self._inside_aspan = False
         self._current_aspan_text = ''
@@ -713,6 +711,11 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_span', self, span, details):
             return
 
+        if self._current_imgspan:  # span inside image text
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['deep'] += 1
+            return
+
         # underline spans for double '_' character enters two times
         if not self._inside_uspan:
             if self._inside_aspan:  # span inside link text
@@ -758,8 +761,11 @@ class Md2Po:
             # entering a code span, literal backticks encountered inside
             # will be escaped
             #
-            # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
+            # save the index of the first char of the code
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            )
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -767,6 +773,7 @@ class Md2Po:
             self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['text'] = ''
+            self._current_imgspan['deep'] = 0
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
@@ -774,6 +781,18 @@ class Md2Po:
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
+    def _delimit_codespan(self, text):
+        code = text[self._codespan_start_index:]
+        start, end = codespan_delimiters(
+            code,
+            self.code_start_string,
+            self.code_end_string,
+        )
+        # first and last characters of delimiters are added with the span
+        return (
+            f'{text[:self._codespan_start_index]}{start[1:]}{code}{end[:-1]}'
+        )
+
     def leave_span(self, span, details):
         # raise 'leave_span' event
         if raise_skip_event(self.events, 'leave_span', self, span, details):
@@ -784,6 +803,24 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
+        if self._current_imgspan and (
+            span is not md4c.SpanType.IMG or self._current_imgspan['deep']
+        ):
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['deep'] -= 1
+            return
+
+        if span is md4c.SpanType.CODE:
+            # add the characters needed to escape the content of the code
+            if self._inside_aspan:
+                self._current_aspan_text = self._delimit_codespan(
+                    self._current_aspan_text,
+                )
+            else:
+                self.current_msgid = self._delimit_codespan(
+                    self.current_msgid,
+                )
+
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 self.current_msgid += self._current_wikilink_target
@@ -826,17 +863,6 @@ class Md2Po:
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
             self._codespan_start_index = None
-
-            # add backticks at the end for escape internal backticks
-            if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
-                )
-            else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
-                )
-            self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
@@ -889,23 +915,11 @@ class Md2Po:
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
-                        self._current_imgspan['text'] = text
+                        self._current_imgspan['text'] += (
+                            text.replace('\n', ' ')
+                        )
                         return
                     if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
-                        )
                         if self._inside_aspan:
                             self._current_aspan_text += text
                             return
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 30d4390..a32dbcd 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -24,7 +24,7 @@ from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
 )
-from mdpo.text import min_not_max_chars_in_a_row
+from mdpo.text import codespan_delimiters
 
 
 PROCESS_REPLACER_TAGS = [
@@ -235,10 +235,10 @@ class MdPo2HTML(HTMLParser):
                 raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
                     code = _current_replacement[_code_start:]
-                    backticks = '`' * min_not_max_chars_in_a_row('`', code)
+                    start, end = codespan_delimiters(code)
                     _current_replacement = (
                         _current_replacement[:_code_start] +
-                        f'{backticks}{code}{backticks}'
+                        f'{start}{code}{end}'
                     )
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
@@ -270,7 +270,8 @@ class MdPo2HTML(HTMLParser):
                 original_html += f'<{handled}{attrs_repr}/>'
 
                 if handled in self.image_tags and attrs.get('src'):
-                    alt, src = attrs.get('alt', ''), attrs['src']
+                    alt, src = (attrs.get('alt') or '', attrs['src'])
+                    alt = alt.replace('\n', ' ')
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
                     if title:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ef51462..9dc805f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -30,7 +30,7 @@ from mdpo.po import (
 )
 from mdpo.text import (
     INFINITE_WRAPWIDTH,
-    min_not_max_chars_in_a_row,
+    codespan_delimiters,
     parse_wrapwidth_argument,
 )
 
@@ -130,7 +130,6 @@ class Po2Md:
         '_inside_codespan',
         '_inside_latexmath_display',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_quoteblocks_deep',
@@ -316,7 +315,6 @@ class Po2Md:
 
         self._inside_codespan = False
         self._codespan_start_index = None
-        self._codespan_backticks = None
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
@@ -898,6 +896,11 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan:  # span inside image text
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['deep'] += 1
+            return
+
         with contextlib.suppress(KeyError):
             if self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
@@ -929,7 +932,11 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
+            # index of the first char of the code
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            )
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -938,6 +945,7 @@ class Po2Md:
             self._current_imgspan['title'] = attribute_text(details['title'])
             self._current_imgspan['src'] = attribute_text(details['src'])
             self._current_imgspan['text'] = ''
+            self._current_imgspan['deep'] = 0
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_text(details['target'])
         elif span is md4c.SpanType.LATEXMATH:
@@ -945,6 +953,18 @@ class Po2Md:
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
+    def _delimit_codespan(self, text):
+        code = text[self._codespan_start_index:]
+        start, end = codespan_delimiters(
+            code,
+            self.code_start_string,
+            self.code_end_string,
+        )
+        # first and last characters of delimiters are added with the span
+        return (
+            f'{text[:self._codespan_start_index]}{start[1:]}{code}{end[:-1]}'
+        )
+
     def leave_span(self, span, details):
         # raise 'leave_span' event
         if raise_skip_event(
@@ -956,6 +976,24 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan and (
+            span is not md4c.SpanType.IMG or self._current_imgspan['deep']
+        ):
+            if span is md4c.SpanType.IMG:
+                self._current_imgspan['deep'] -= 1
+            return
+
+        if span is md4c.SpanType.CODE:
+            # add the characters needed to escape the content of the code
+            if self._inside_aspan:
+                self._current_aspan_text = self._delimit_codespan(
+                    self._current_aspan_text,
+                )
+            else:
+                self.current_msgid = self._delimit_codespan(
+                    self.current_msgid,
+                )
+
         if span is md4c.SpanType.WIKILINK:
             self.current_msgid += polib.escape(self._current_wikilink_target)
             self._current_wikilink_target = None
@@ -1006,10 +1044,7 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
-            )
-            self._codespan_backticks = None
+            self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = attribute_text(details['src'])
@@ -1068,18 +1103,9 @@ class Po2Md:
                 if self._inside_liblock and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-                    self._current_imgspan['text'] = text
+                    self._current_imgspan['text'] += text.replace('\n', ' ')
                     return
                 if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
-                    )
                     if self._inside_aspan:
                         self._current_aspan_text += text
                         return
diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..1f81e50 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -60,6 +60,28 @@ def min_not_max_chars_in_a_row(char, text, default=1):
     return response
 
 
+def codespan_delimiters(text, start_char='`', end_char='`'):
+    """Return the delimiters that wrap a text inside a Markdown code span.
+
+    The delimiters include a space when otherwise the text would be joined
+    with them or would lose the spaces that surround it.
+
+    Args:
+        text (str): Content of the code span.
+        start_char (str): Character that starts code spans.
+        end_char (str): Character that ends code spans.
+
+    Returns:
+        tuple: Opening and closing delimiters.
+    """
+    n_chars = min_not_max_chars_in_a_row(start_char, text)
+    padding = ' ' if (
+        text.startswith(start_char) or text.endswith(end_char)
+        or (text.startswith(' ') and text.endswith(' ') and text.strip(' '))
+    ) else ''
+    return (start_char * n_chars + padding, padding + end_char * n_chars)
+
+
 def parse_escaped_pair(value, separator=':'):
     r"""Escapes a pair key-value separated by a character.
 
-- 
2.43.0

