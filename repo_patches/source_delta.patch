From 2ef2cab8a4698984f8fc7622d41cb5044be49db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 01/54] fix: do not parse the contents of literal tags nested
 in other tags

The tag parser, when it reprocesses a list of tags for a paragraph, parsed
the contents of tags with literal contents (verb, code...).
---
 src/disseminate/tags/receivers/content.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index c094aa2..3835474 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -68,6 +68,9 @@ def parse_tags(content, context, tag_factory, level=1):
     elif isinstance(content, list):
         return list(map(parse, content))
     elif hasattr(content, 'content'):
+        if not getattr(content, 'process_content', True):
+            # Tags with literal contents (ex: verb) should not be parsed
+            return content
         if isinstance(content.content, list):
             content.content = list(map(parse, content.content))
         else:
-- 
2.43.0


From cbc0d918e5b1268902e98dc74da1c4b364694c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 02/54] fix: substitute macros nested in other macros to any
 depth

Substitutions stopped as soon as a pass didn't replace more macros than the
last one, so that chains of more than two macros were not substituted, and
macros that reference themselves more than once were substituted endlessly.
---
 src/disseminate/utils/string.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f419b53..eba6203 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -495,7 +495,7 @@ def replace_macros(s, *dicts):
         not be found.
     """
     # Replace the values
-    def _substitute(m):
+    def _substitute(m, active=()):
         # Get the string for the match
         # ex: macro = '@friend.name'
         d = m.groupdict()
@@ -504,6 +504,7 @@ def replace_macros(s, *dicts):
         # Split at periods
         # ex: pieces = ['@friend', 'name']
         pieces = macro.split('.')
+        name = pieces[0]
 
         # See if the first piece corresponds to an entry in kwargs
         obj = None
@@ -528,14 +529,13 @@ def replace_macros(s, *dicts):
             return m.group()
         else:
             # match(es) found, replace with the string
-            return str(obj) + ''.join('.' + piece for piece in pieces)
+            string = str(obj) + ''.join('.' + piece for piece in pieces)
 
-    # Return a string with the dicts substituted. Keep substituting until
-    # all dicts are replaced or the string is no longer changing
-    s, num_subs = _re_macro.subn(_substitute, s)
-    last_num_subs = 0
-    while num_subs > 0 and num_subs > last_num_subs:
-        last_num_subs = num_subs
-        s, num_subs = _re_macro.subn(_substitute, s)
+            # Substitute the macros in this string too, unless the macro is
+            # recursive
+            if name in active:
+                return string
+            return _re_macro.sub(lambda m: _substitute(m, active + (name,)),
+                                 string)
 
-    return s
+    return _re_macro.sub(_substitute, s)
-- 
2.43.0


From a29c922745d8adc30ac31339ee8dd6d16e312e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:32 +0000
Subject: [PATCH 03/54] fix: find positional attributes for the given target

A positional attribute specific to another target was used when a general
one was available or instead of none, and the target's name matched the end
of general positional attributes (ex: 'vertex' for 'tex').
---
 src/disseminate/attributes/attributes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 2fdfdbf..2b3bf0f 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -255,18 +255,21 @@ class Attributes(dict):
             # ex: StringPositionalValue
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
+            # Entries that aren't target-specific
+            general_items = [(k, v) for k, v in items
+                             if not is_target_specific(k, sep=sep)]
+
             if target:
-                # Filter by target, if specific
-                target_items = [(k, v) for k, v in items if k.endswith(target)]
-            else:
-                # Otherwise remove entries that have target-specific
+                # Filter by target, if specific, or use the general entries
                 target_items = [(k, v) for k, v in items
-                                if not is_target_specific(k, sep=sep)]
+                                if k.endswith(sep + target)]
+                items = target_items + general_items
+            else:
+                # Otherwise prefer entries that aren't target-specific
+                items = general_items + items
 
             # Return the first item found
-            if target_items:
-                return target_items[0]
-            elif items:
+            if items:
                 return items[0]
 
         # Give up
-- 
2.43.0


From b50af6c9ca3289469d4565facda57f6798954048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:33 +0000
Subject: [PATCH 04/54] fix: use html and xhtml target-specific attributes in
 html tags

Target-specific attributes (ex: class.html) were dropped from html and xhtml
elements, instead of replacing the general attribute.
---
 src/disseminate/tags/tag.py  | 3 ++-
 src/disseminate/tags/text.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/tag.py b/src/disseminate/tags/tag.py
index e97eab0..0c8cbd7 100644
--- a/src/disseminate/tags/tag.py
+++ b/src/disseminate/tags/tag.py
@@ -325,7 +325,8 @@ class Tag(object):
 
         # Format the html tag
         return xhtml_tag(name=name, level=level, attributes=attributes,
-                         formatted_content=content, method=method)
+                         formatted_content=content, method=method,
+                         target=method)
 
     @property
     def xhtml(self):
diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index f377b05..96183c5 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -42,7 +42,7 @@ class Body(Tag):
         # Format the html tag
         return xhtml_tag(name=name, level=level, attributes=attributes,
                          formatted_content=content, method=method,
-                         nsmap=settings.xhtml_namespace)
+                         target=method, nsmap=settings.xhtml_namespace)
 
 
 class P(Tag):
-- 
2.43.0


From d1cd7c939b2f6476a2599abd9210ef1724c85e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 05/54] fix: copy nested mutables of inherited context entries

---
 src/disseminate/context/context.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 36b425d..3d7268e 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -18,6 +18,29 @@ class ContextException(Exception):
     pass
 
 
+def copy_mutable(value):
+    """Copy a mutable (list, set or dict) and the mutables nested within, so
+    that changes in the copy's nested mutables don't impact the original.
+
+    Examples
+    --------
+    >>> d = {'a': {'b'}}
+    >>> cp = copy_mutable(d)
+    >>> cp['a'].add('c')
+    >>> d
+    {'a': {'b'}}
+    """
+    if isinstance(value, dict):
+        cp = value.copy()
+        cp.update((k, copy_mutable(v)) for k, v in value.items())
+        return cp
+    elif isinstance(value, list):
+        return [copy_mutable(v) for v in value]
+    elif isinstance(value, set):
+        return value.copy()
+    return value
+
+
 class BaseContext(dict):
     """A context dict with entries used for rendering target documents.
 
@@ -404,8 +427,11 @@ class BaseContext(dict):
 
                 except TypeError:
                     # Other objects, like dicts, have a copy method to create
-                    # a shallow copy, but these do not accept keyword arguments
-                    self[key] = change_value.copy()
+                    # a copy, but these do not accept keyword arguments
+                    self[key] = (copy_mutable(change_value)
+                                 if isinstance(change_value,
+                                               (dict, list, set)) else
+                                 change_value.copy())
                 except AttributeError:
                     # Otherwise reference the value directly, like immutables
                     self[key] = change_value
-- 
2.43.0


From c81398bc38b5129dafdf31ce5b470105b5801458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 06/54] fix: update bool and number entries of contexts with
 values of other types

---
 src/disseminate/context/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 3d7268e..cbfcecd 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -498,7 +498,7 @@ class BaseContext(dict):
             # For immutable types, like ints, covert strings into their
             # proper format and replace the original's value
             elif isinstance(original_value, bool):
-                change_value_lower = change_value.lower().strip()
+                change_value_lower = str(change_value).lower().strip()
                 if change_value_lower == 'false':
                     self[key] = False
                 elif change_value_lower == 'true':
@@ -507,13 +507,13 @@ class BaseContext(dict):
             elif isinstance(original_value, int):
                 try:
                     self[key] = int(change_value)
-                except ValueError:
+                except (ValueError, TypeError):
                     pass
 
             elif isinstance(original_value, float):
                 try:
                     self[key] = float(change_value)
-                except ValueError:
+                except (ValueError, TypeError):
                     pass
 
             # Otherwise, if the original value's type and change value type
-- 
2.43.0


From d921995d00bb138395790e5890f5bec09fc7ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 07/54] fix: reload sub-documents of all levels when a document
 is reloaded

---
 src/disseminate/document/document.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a7efe78..2f15f31 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -393,7 +393,10 @@ class Document(object):
         # Load the sub-documents. This is done after processing the string
         # and ast since these may include sub-files, which should be read
         # in before being loaded.
-        document_loaded |= self.load_subdocuments(level=level + 1)
+        # If this document was (re)loaded, its sub-documents must be reloaded as
+        # well, since these inherit entries from this document's context.
+        document_loaded |= self.load_subdocuments(level=level + 1,
+                                                  reload=document_loaded)
 
         # Emit a signal if this is the root document and a document (or sub-
         # document) was reloaded
@@ -431,7 +434,7 @@ class Document(object):
 
         return mtime
 
-    def load_subdocuments(self, level=1):
+    def load_subdocuments(self, level=1, reload=False):
         """Load the sub-documents listed in the include entries in the
         context.
 
@@ -440,6 +443,8 @@ class Document(object):
         level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+        reload : Optional[bool]
+            If True, force the reload of the sub-documents.
 
         Returns
         -------
@@ -486,7 +491,8 @@ class Document(object):
             # document, copy it to the subdocuments ordered dict
             elif src_filepath in subs_dict:
                 subdoc = subs_dict[src_filepath]
-                document_loaded |= subdoc.load(level=level + 1)
+                document_loaded |= subdoc.load(reload=reload,
+                                               level=level + 1)
 
                 if self.src_filepath not in subdoc.subdocuments:
                     self.subdocuments[src_filepath] = subdoc
-- 
2.43.0


From d0742f99598f6bd016828cef9fb5171b3d0a588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 08/54] fix: normalize the paths of included documents

---
 src/disseminate/document/document_context.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/document/document_context.py b/src/disseminate/document/document_context.py
index bcc4cab..7afb33a 100644
--- a/src/disseminate/document/document_context.py
+++ b/src/disseminate/document/document_context.py
@@ -2,6 +2,7 @@
 The document context
 """
 import weakref
+from os.path import normpath
 from copy import deepcopy
 
 from .exceptions import TargetNotFound
@@ -330,12 +331,14 @@ class DocumentContext(BaseContext):
         includes = [path.strip() for path in includes.split('\n')
                     if not path.isspace() and path != '']
 
-        # Reconstruct the paths relative to the context's src_filepath.
+        # Reconstruct the paths relative to the context's src_filepath. The
+        # paths are normalized so that each document has one path--i.e.
+        # 'sub/../a.dm' and 'a.dm' are the same document.
         src_filepath = self['src_filepath']
         subpath = src_filepath.subpath.parent
         project_root = src_filepath.project_root
 
         includes = [SourcePath(project_root=project_root,
-                               subpath=subpath / path)
+                               subpath=normpath(str(subpath / path)))
                     for path in includes]
         return includes
-- 
2.43.0


From 2a4492d83fcc5058aa40ddbb4dbdb1e1ba37fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 09/54] fix: keep paragraph breaks next to dashes

---
 src/disseminate/tags/receivers/typography.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/receivers/typography.py b/src/disseminate/tags/receivers/typography.py
index 1f9c727..7d2d4e6 100644
--- a/src/disseminate/tags/receivers/typography.py
+++ b/src/disseminate/tags/receivers/typography.py
@@ -12,8 +12,8 @@ def process_typography(tag, tag_base_cls, **kwargs):
     return process_tag_typography(tag=tag, tag_base_cls=tag_base_cls)
 
 
-re_endash = regex.compile(r"[\s\u00a0]*(--|\u2013)[\s\u00a0]*")
-re_emdash = regex.compile(r"[\s\u00a0]*(---|\u2014)[\s\u00a0]*")
+re_endash = regex.compile(r"([\s\u00a0]*)(--|\u2013)([\s\u00a0]*)")
+re_emdash = regex.compile(r"([\s\u00a0]*)(---|\u2014)([\s\u00a0]*)")
 re_apostrophe = regex.compile(r"(?<=\w)'(?=\w)")
 re_single_start = regex.compile(r"(?<!\w)'(?=\S)")
 re_single_end = regex.compile(r"(?<=\S)'(?!\w)")
@@ -21,6 +21,18 @@ re_double_start = regex.compile(r"(?<!\w)\"(?=\S)")
 re_double_end = regex.compile(r"(?<=\S)\"(?!\w)")
 
 
+def replace_dash(string, re_dash, dash):
+    """Replace the dashes matched by re_dash in the string and strip the spaces
+    around these, unless the spaces contain an empty line, which separates
+    paragraphs."""
+    def substitute(match):
+        before, _, after = match.groups()
+        return ''.join((before if before.count('\n') > 1 else '',
+                        dash,
+                        after if after.count('\n') > 1 else ''))
+    return re_dash.sub(substitute, string)
+
+
 def process_tag_typography(tag, tag_base_cls, level=1):
     """Process the typography for an AST.
 
@@ -43,8 +55,8 @@ def process_tag_typography(tag, tag_base_cls, level=1):
     """
     if isinstance(tag, str):
         # Process the tag if it's simply a string
-        tag = re_emdash.sub('\u2014', tag)
-        tag = re_endash.sub('\u2013', tag)
+        tag = replace_dash(tag, re_dash=re_emdash, dash='\u2014')
+        tag = replace_dash(tag, re_dash=re_endash, dash='\u2013')
         tag = re_apostrophe.sub('’', tag)
         tag = re_single_start.sub('‘', tag)
         tag = re_single_end.sub('’', tag)
-- 
2.43.0


From fae77d56b3f4891ca419985b2d17d80031d9b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 10/54] fix: render the content of headings without labels in
 tex

---
 src/disseminate/tags/headings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index 389e456..ee1e237 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -87,6 +87,9 @@ class Heading(Tag, LabelMixin):
         if self.label_tag is not None:
             content += self.label_tag.tex_fmt(mathmode=mathmode,
                                               level=level + 1)
+        else:
+            content += content_to_str(self.content, target='.tex',
+                                      mathmode=mathmode, level=level + 1)
 
         # Format the heading tag. ex: \chapter{Chapter 1. My First Chapter}
         content = tex_cmd(cls_name, attributes=attributes,
-- 
2.43.0


From 25c1c8f6e677ec2f49fe90f82052d45ba7449a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 11/54] fix: keep the class attribute of figures in html

---
 src/disseminate/tags/figs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index edd859a..1f0b465 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -51,7 +51,7 @@ class BaseFigure(Tag):
         # Set the html class
         if self.html_class is not None:
             if 'class' in attrs:
-                attrs['class'] = ' ' + self.html_class
+                attrs['class'] += ' ' + self.html_class
             else:
                 attrs['class'] = self.html_class
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
-- 
2.43.0


From c9d53721426f7bba6339d6293e0dbfbda578a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:52 +0000
Subject: [PATCH 12/54] fix: escape the entries of xhtml templates

---
 src/disseminate/builders/jinja_render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 996ec2b..67a92a6 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -118,7 +118,7 @@ class JinjaRender(Builder):
             dl = jinja2.PackageLoader('disseminate', 'templates')
 
             # Create the environment
-            ae = jinja2.select_autoescape(['html', 'htm', 'xml'])
+            ae = jinja2.select_autoescape(['html', 'htm', 'xml', 'xhtml'])
             env = jinja2.Environment(autoescape=ae, loader=dl,
                                      keep_trailing_newline=True,)
             env.filters['rewrite_path'] = rewrite_path
-- 
2.43.0


From ae043d4adf92db914526a616dd3afbad5ab50ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:35 +0000
Subject: [PATCH 13/54] fix: do not drop tags with empty lists as content

---
 src/disseminate/utils/string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index eba6203..b92939a 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -437,8 +437,10 @@ def group_strings(lst):
     if hasattr(lst, 'content'):
         lst.content = group_strings(lst.content)
     elif isinstance(lst, list):
-        # Remove empty strings
-        new_list = list(filter(bool, lst))
+        # Remove empty strings (and lists). Tags with an empty list as content
+        # have a length of 0, and these should not be removed.
+        new_list = [item for item in lst
+                    if item or not isinstance(item, (str, list))]
         lst.clear()
         lst += new_list
 
-- 
2.43.0


From 2c8de1ca8ecda926a22384993b038d19150bc307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 14/54] fix: use further delimiters for verb in tex

---
 src/disseminate/formats/tex.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/formats/tex.py b/src/disseminate/formats/tex.py
index d56ee94..547b8e9 100644
--- a/src/disseminate/formats/tex.py
+++ b/src/disseminate/formats/tex.py
@@ -197,10 +197,8 @@ def tex_verb(formatted_content):
     """
     assert isinstance(formatted_content, str)
 
-    if '|' not in formatted_content:
-        return "\\verb|" + formatted_content + "|"
-    elif '!' not in formatted_content:
-        return "\\verb!" + formatted_content + "!"
-    elif '^' not in formatted_content:
-        return "\\verb^" + formatted_content + "^"
+    # Use the first delimiter that isn't in the content
+    for delimiter in '|!^+/"=?;:,.~`@':
+        if delimiter not in formatted_content:
+            return "\\verb" + delimiter + formatted_content + delimiter
     return formatted_content
-- 
2.43.0


From b85d1bde18d2c072795d29f3bcad1a64d5e8c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 15/54] fix: load each document of a project once, also with
 include cycles

---
 src/disseminate/document/document.py | 66 ++++++++++++++--------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 2f15f31..c1a1336 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -434,6 +434,28 @@ class Document(object):
 
         return mtime
 
+    def _loaded_src_filepaths(self):
+        """The src_filepaths for the documents loaded in the project up to this
+        document.
+
+        The documents that are being loaded are not yet listed in the
+        subdocuments of their parent documents, so these are found from the
+        parent contexts.
+
+        Returns
+        -------
+        src_filepaths : Set[:obj:`SourcePath <.paths.SourcePath>`]
+            The paths of this document, its parents and the documents loaded by
+            these.
+        """
+        src_filepaths = set()
+        context = self.context
+        while getattr(context, 'document', None) is not None:
+            src_filepaths.update(context.document.documents_dict(
+                recursive=True))
+            context = context.parent_context
+        return src_filepaths
+
     def load_subdocuments(self, level=1, reload=False):
         """Load the sub-documents listed in the include entries in the
         context.
@@ -453,62 +475,42 @@ class Document(object):
         """
         document_loaded = False
 
-        # Get the root document's src_filepath and the src_filepath for all of
-        # its included subdocuments to make sure we do not load documents
-        # recursively or twice
-        root_document = self.context.get('root_document', None)
-        root_document = root_document() if root_document is not None else None
-
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get a dict with all documents in a project
-        root_dict = root_document.documents_dict(document=root_document,
-                                                 only_subdocuments=False,
-                                                 recursive=True)
-
-        # Get a dict with all documents owned by this document. This document
-        # can control those documents, but it cannot control other documents in
-        # the root_dict. This avoids recursion.
-        subs_dict = self.documents_dict(only_subdocuments=False,
-                                        recursive=True)
-
         # Clear the subdocuments ordered dict and add new entries. Old entries
         # will automatically be deleted if the subdocument no longer holds a
-        # reference to it.
+        # reference to it. The documents already loaded by this document can be
+        # used again; other documents inherit from other contexts.
+        subdocuments = self.subdocuments.copy()
         self.subdocuments.clear()
 
         # Retrieve the file paths of included files in the context
         src_filepaths = self.context.includes
 
         for src_filepath in src_filepaths:
-            # If the src_filepath is the same as this document, do nothing, as
-            # a document shouldn't have itself as a subdocument
-            if src_filepath == self.src_filepath:
+            # If the document is this document or if it's already loaded in the
+            # project, do nothing. A document should neither be loaded
+            # recursively nor twice.
+            if src_filepath in self._loaded_src_filepaths():
                 continue
 
             # If the document is already loaded and controlled by this
             # document, copy it to the subdocuments ordered dict
-            elif src_filepath in subs_dict:
-                subdoc = subs_dict[src_filepath]
+            elif src_filepath in subdocuments:
+                subdoc = subdocuments[src_filepath]
                 document_loaded |= subdoc.load(reload=reload,
                                                level=level + 1)
+                self.subdocuments[src_filepath] = subdoc
 
-                if self.src_filepath not in subdoc.subdocuments:
-                    self.subdocuments[src_filepath] = subdoc
-
-            # The document could not be found, at this point. Create it--as
-            # long as it's not controlled by another document--i.e. it's not
-            # already loaded in root_dict
-            elif src_filepath not in root_dict:
+            # The document could not be found, at this point. Create it.
+            else:
                 subdoc = Document(src_filepath=src_filepath,
                                   environment=environment,
                                   parent_context=self.context,
                                   level=level + 1)
                 self.subdocuments[src_filepath] = subdoc
                 document_loaded |= True
-            else:
-                continue
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
-- 
2.43.0


From 9b08be54373e49e34d7febc70cb315a3133a6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 16/54] fix: use the labels of the same document for headings,
 captions and references

---
 .../label_manager/label_manager.py            | 19 +++++++++++++------
 src/disseminate/tags/headings.py              |  3 ++-
 src/disseminate/tags/label.py                 | 11 ++++++-----
 src/disseminate/tags/ref.py                   |  6 ++++--
 src/disseminate/tags/toc.py                   |  9 ++++++---
 5 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index ba6d983..daa32c4 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -193,7 +193,7 @@ class LabelManager(object):
         label.title = title
         return label
 
-    def get_label(self, id, register=True, context=None):
+    def get_label(self, id, register=True, context=None, doc_id=None):
         """Return the label for the given label id.
 
         .. note:: This function registers the added labels.
@@ -210,6 +210,10 @@ class LabelManager(object):
         context : :obj:`DocumentContext <.DocumentContext>`
             The context for the document adding the label. (This may be
             different from the context of the root document, self.root_context)
+        doc_id : Optional[str]
+            If specified, the label for this document is returned if the id
+            doesn't include a doc_id. (The same id may be used by more than one
+            document.)
 
         Returns
         -------
@@ -226,15 +230,16 @@ class LabelManager(object):
         self.register()
 
         # Parse the label_id
-        doc_id, label_id = parse_id(id, context=context or self.root_context)
+        id_doc_id, label_id = parse_id(id, context=context or self.root_context)
+        doc_id = doc_id if id_doc_id is None else id_doc_id
 
         # Try the label key
         if (doc_id, label_id) in self.labels:
             return self.labels[(doc_id, label_id)]
 
         # Try to find the first label with a matching label_id, if no
-        # doc_id is specified
-        if doc_id is None:
+        # doc_id is specified in the id
+        if id_doc_id is None:
             try:
                 return next(l for k, l in self.labels.items()
                             if k[1] == label_id)
@@ -331,7 +336,7 @@ class LabelManager(object):
 
         return returned_labels
 
-    def format_string(self, id, *keys, target=None):
+    def format_string(self, id, *keys, target=None, doc_id=None):
         """Retrieve the formatted label string for a label.
 
         Label format strings are intended to be replaced with the values of the
@@ -347,8 +352,10 @@ class LabelManager(object):
             dict. (see :func:`find_entry <disseminate.utils.dict.find_entry>`)
         target : Optional[str]
             If specified, try finding format strings for the given target.
+        doc_id : Optional[str]
+            If specified, use the label for this document. (see :meth:`get_label`)
         """
-        label = self.get_label(id=id)
+        label = self.get_label(id=id, doc_id=doc_id)
 
         dicts = []
         if 'label_fmts' in self.root_context:
diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index ee1e237..0a2d271 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -100,7 +100,8 @@ class Heading(Tag, LabelMixin):
             assert self.context.is_valid('label_manager')
 
             label_manager = self.context['label_manager']
-            label = label_manager.get_label(id=self.label_id)
+            label = label_manager.get_label(
+                id=self.label_id, doc_id=self.context.get('doc_id'))
 
             number = label.order[-1] if label.order else None
             number -= 1  # Offset by -1 as the counter is increased
diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 18f4511..53ec9d1 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -263,7 +263,8 @@ class LabelTag(Tag):
         context = self.context
 
         if all(i is not None for i in (label_manager, label_id, context)):
-            format_str = label_manager.format_string(id=self.label_id)
+            format_str = label_manager.format_string(
+                id=self.label_id, doc_id=context.get('doc_id'))
             processed_tag = Tag(name='label', content=format_str,
                                 attributes='', context=context)
             return content_to_str(processed_tag.content)
@@ -277,8 +278,8 @@ class LabelTag(Tag):
         context = self.context
 
         if all(i is not None for i in (label_manager, label_id, context)):
-            format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.tex')
+            format_str = label_manager.format_string(
+                id=self.label_id, target='.tex', doc_id=context.get('doc_id'))
 
             # Process the tags and format the contents for tex
             processed_tag = Tag(name='label', content=format_str,
@@ -300,8 +301,8 @@ class LabelTag(Tag):
         if all(i is not None for i in (label_manager, label_id, context)):
             # Retrieve the format string for the label
             # Use the 'html' format_str for html and xhtml
-            format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.html')
+            format_str = label_manager.format_string(
+                id=self.label_id, target='.html', doc_id=context.get('doc_id'))
 
             # Process the tags and format the contents for html (html_fmt) or
             # xhtml (xhtml_fmt)
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index c8ec6ec..fcb7297 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -273,7 +273,8 @@ class Ref(Tag):
             # Retrieve the format string for the reference
             keys = ('ref', *label.kind)
             format_str = label_manager.format_string(label.id, *keys,
-                                                     target='.tex')
+                                                     target='.tex',
+                                                     doc_id=label.doc_id)
 
             # process the tags and format the contents
             # for html
@@ -345,7 +346,8 @@ class Ref(Tag):
             # Use the 'html' format_str for html and xhtml
             keys = ('ref', *label.kind)
             format_str = label_manager.format_string(label.id, *keys,
-                                                     target='.html')
+                                                     target='.html',
+                                                     doc_id=label.doc_id)
 
             # substitute the link, process the tags and format the contents
             # for html (html_fmt) or xhtml (xhtml_fmt)
diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index ac275b7..775624c 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -185,6 +185,11 @@ class Toc(Tag):
                          attributes=self.attributes, context=self.context)
             tag.attributes['level'] = level
 
+            # Use this label, as the same label id may be used in more than one
+            # document
+            tag.label_id = self.context.get('label_sep', '::').join(
+                (label.doc_id, label.id))
+
             tags.append(tag)
 
         return tags
@@ -206,11 +211,9 @@ class Toc(Tag):
 
         # Get the labels
         labels = self.get_labels()
-        labels_by_id = {label.id: label for label in labels}
 
-        for tag in tags:
+        for tag, label in zip(tags, labels):
             listlevel = tag.attributes['level']
-            label = labels_by_id.get(tag.label_id, None)
 
             cache = dict() if cache is None else cache
             cache['label'] = label
-- 
2.43.0


From e6ec0ff8a47e5e1c9ce3eb5ecb83344ea2e94994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 17/54] fix: render references in txt

---
 src/disseminate/tags/ref.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index fcb7297..b2499be 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -224,8 +224,9 @@ class Ref(Tag):
 
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
-            keys = ('ref', *label.kinds)
-            format_str = label_manager.format_string(id=self.label.id, *keys)
+            keys = ('ref', *label.kind)
+            format_str = label_manager.format_string(label.id, *keys,
+                                                     doc_id=label.doc_id)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
-- 
2.43.0


From 7fae4c7e9d3ff150aa83153b245214700638c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:16 +0000
Subject: [PATCH 18/54] fix: do not convert the label ids of references to
 typographic characters

---
 src/disseminate/tags/ref.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index b2499be..9cd5c4a 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -64,6 +64,9 @@ class Ref(Tag):
 
     active = True
 
+    #: Do not convert typography characters, as the content is a label id.
+    process_typography = False
+
     doc_id = None
     label_id = None
 
-- 
2.43.0


From beda80c3a381b52a87fb8b1ae1f36abc50b8ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 19/54] fix: render references to documents without the target
 as text

---
 src/disseminate/tags/ref.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 9cd5c4a..8589baf 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -187,10 +187,11 @@ class Ref(Tag):
         # In this case, the label and tag documents are different. Return a
         # link to the label's document.
         document = self.document(cache=cache)
-        target_filepath = document.target_filepath(target)
 
-        if target_filepath is None:
+        # The other document may not have a file for this target.
+        if target not in document.targets:
             return None
+        target_filepath = document.target_filepath(target)
 
         link = target_filepath.get_url(context=self.context)
 
@@ -368,11 +369,15 @@ class Ref(Tag):
             # for a DocumentLabel. DocumentLabels should just point to the
             # file itself.
             include_anchor = not isinstance(label, DocumentLabel)
-            attrs['href'] = self.url(target=method, cache=cache,
-                                     include_anchor=include_anchor)
-
-            # wrap content in 'a' tag
-            return xhtml_tag('a', attributes=attrs, formatted_content=content,
+            url = self.url(target=method, cache=cache,
+                           include_anchor=include_anchor)
+            if url is not None:
+                attrs['href'] = url
+
+            # wrap content in 'a' tag, if a url is present, otherwise just use
+            # a 'span' tag
+            return xhtml_tag('a' if url is not None else 'span',
+                             attributes=attrs, formatted_content=content,
                              level=level, method=method,
                              pretty_print=False)  # no line breaks
         else:
-- 
2.43.0


From d903c48cae31ddb5254fd9866994578ca231c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 20/54] fix: use the doc_id of the header to identify documents

---
 src/disseminate/document/document.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index c1a1336..44583a9 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -109,6 +109,11 @@ class Document(object):
     @property
     def doc_id(self):
         """The unique string identifier (within a project) for the document."""
+        # The doc_id may be set in the header of the document.
+        doc_id = self.context.get('doc_id') if self.context else None
+        if doc_id is not None:
+            return str(doc_id)
+
         # The subpath of the src_filepath is guaranteed to be unique.
         return str(self.src_filepath.subpath)
 
-- 
2.43.0


From dec2540574450455e6614ef89d401aa6d8619e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 21/54] fix: do not truncate headings at periods

---
 src/disseminate/tags/label.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 53ec9d1..680a4bf 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -104,6 +104,11 @@ def create_label(tag, kind, label_id=None):
     # Form a title from the content
     if 'short' in attributes:
         content = attributes['short']
+    elif 'heading' in kind:
+        # The label's title is used to render headings, so all of its text is
+        # needed. Only strip extra spaces and newlines
+        content = content_to_str(content).replace('\n', ' ')
+        content = ' '.join(filter(bool, content.split(' ')))
     else:
         content = titlelize(content_to_str(content))
 
-- 
2.43.0


From e3095f98ee9c0ccbf7673517e4358ea774f25d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:16 +0000
Subject: [PATCH 22/54] fix: remove the weak references to labels that are
 reset to None

---
 src/disseminate/utils/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/utils/classes.py b/src/disseminate/utils/classes.py
index 5738162..6ab79a7 100644
--- a/src/disseminate/utils/classes.py
+++ b/src/disseminate/utils/classes.py
@@ -135,10 +135,11 @@ class weakattr(object):
         return value() if callable(value) else None
 
     def __set__(self, obj, value):
-        if value is None:  # do nothing is a value of None is assigned
-            return
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
         attrname = self.attrname(obj)
+        if value is None:  # remove a previous value if None is assigned
+            weakref_dict.pop(attrname, None)
+            return
         weakref_dict[attrname] = weakref.ref(value)
 
     def __delete__(self, obj):
-- 
2.43.0


From 997861899b3faab04830a35551fe8a57b26473c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 23/54] fix: set the navigation labels for the targets of all
 documents

---
 src/disseminate/tags/navigation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index ea59049..b18cf49 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -40,12 +40,16 @@ def set_navigation_labels(root_document):
     labels_by_doc_id = {doc_id: next(group) for doc_id, group in
                         groupby(labels, lambda l: l.doc_id)}
 
+    # Remove stale entries from a previous invocation of this function
+    for document in documents:
+        for key in list(document.context.keys()):
+            if (key.startswith(('prev_', 'curr_', 'next_')) and
+               isinstance(document.context[key], weakref.ref)):
+                del document.context[key]
+
     # Set the prev_labels and next_labels entries in the context of each
     # document
-    for target in targets:
-        if target not in doc_ids_by_target:
-            continue
-        doc_ids = doc_ids_by_target[target]
+    for target, doc_ids in doc_ids_by_target.items():
 
         for document in documents:
             doc_id = document.doc_id
-- 
2.43.0


From 0f27920a203dc77cecf3902892f3bf1e52bddd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:17 +0000
Subject: [PATCH 24/54] fix: do not take a project with an error for loaded

---
 src/disseminate/document/document.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 44583a9..548640e 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -407,7 +407,14 @@ class Document(object):
         # document) was reloaded
         if document_loaded and level == 1:
             root_document = self.context.root_document
+
+            # The loading isn't finished if the signal raises an exception
+            documents = (self, root_document)
+            for document in documents:
+                document._succesfully_loaded = False
             signals.document_tree_updated.emit(root_document=root_document)
+            for document in documents:
+                document._succesfully_loaded = True
 
         return document_loaded
 
-- 
2.43.0


From a5bffd981eb0fa1befe8ca7f0d14212a9159dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 25/54] fix: do not convert the label ids of anchors to
 typographic characters

---
 src/disseminate/tags/label.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 680a4bf..44b30ee 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -192,6 +192,9 @@ class LabelAnchor(Tag):
     tex_cmd = 'label'
     html_name = 'span'
 
+    #: Do not convert typography characters, as the content is a label id.
+    process_typography = False
+
     def __init__(self, *args, content, **kwargs):
         # Set the label_id from the content
         assert_content_str(content)
-- 
2.43.0


From a02382ae857e719a17094990d06db7cdb0ed09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:24 +0000
Subject: [PATCH 26/54] fix: render references as text in documents without the
 target

---
 src/disseminate/tags/ref.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 8589baf..340db04 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -188,8 +188,12 @@ class Ref(Tag):
         # link to the label's document.
         document = self.document(cache=cache)
 
-        # The other document may not have a file for this target.
-        if target not in document.targets:
+        # The other document or this document may not have a file for this
+        # target.
+        this_document = getattr(context, 'document', None)
+        if (target not in document.targets or
+           (this_document is not None and
+               target not in this_document.targets)):
             return None
         target_filepath = document.target_filepath(target)
 
-- 
2.43.0


From 23378207c0f60a5110a2754c50e7a9654d6519dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 27/54] fix: use urls with spaces for references in tex

---
 src/disseminate/tags/ref.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 340db04..ca3440d 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -4,9 +4,11 @@ The Ref tag to reference captions and other labels.
 from .tag import Tag
 from .exceptions import assert_content_str
 from .utils import content_to_str, format_content
+from ..attributes import Attributes
 from ..label_manager.types import DocumentLabel
 from ..signals import signal
 from ..formats import xhtml_tag, tex_cmd
+from ..utils.types import StringPositionalValue
 
 
 ref_label_dependencies = signal("ref_label_dependencies")
@@ -301,13 +303,17 @@ class Ref(Tag):
             url = self.url(target='.pdf', include_anchor=include_anchor,
                            cache=cache)
 
-            # Add a target-specific attribute to the url so that it's
-            # properly parsed for the '.tex' target
-            url = url + '.tex' if url else ''
+            # Use a target-specific attribute for the url so that it's
+            # used for the '.tex' target. The url may have spaces and equal
+            # signs so it shouldn't be parsed from a string.
+            attrs = Attributes()
+            if url:
+                attrs[url + '.tex'] = StringPositionalValue
 
             # wrap content in 'href' tag, if a url is present, otherwise
             # just return a regular text string
-            return (tex_cmd('href', attributes=url, formatted_content=content)
+            return (tex_cmd('href', attributes=attrs,
+                            formatted_content=content)
                     if url else content)
         else:
             return ''
-- 
2.43.0


From a1a8cb9239e088af6a2c8191554f87d03d6c9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 28/54] fix: render links to the previous and next documents in
 tex and xhtml

---
 src/disseminate/tags/navigation.py | 38 +++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index b18cf49..ec08669 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -117,7 +117,7 @@ class Next(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
@@ -134,8 +134,21 @@ class Next(Ref):
         else:
             return ""
 
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
+    def xhtml_fmt(self, cache=None, format_func='xhtml_fmt', method='xhtml',
+                  **kwargs):
+        context = self.context
+        cache = dict() if cache is None else cache
+
+        if 'label' not in cache and 'next_xhtml' in context:
+            label = context['next_xhtml']
+            cache['label'] = label()  # Dereference. See above.
+
+        if 'label' in cache:
+            return super(Next, self).html_fmt(cache=cache,
+                                            format_func=format_func,
+                                            method=method, **kwargs)
+        else:
+            return ""
 
 
 class Prev(Ref):
@@ -173,7 +186,7 @@ class Prev(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
@@ -190,8 +203,21 @@ class Prev(Ref):
         else:
             return ""
 
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
+    def xhtml_fmt(self, cache=None, format_func='xhtml_fmt', method='xhtml',
+                  **kwargs):
+        context = self.context
+        cache = dict() if cache is None else cache
+
+        if 'label' not in cache and 'prev_xhtml' in context:
+            label = context['prev_xhtml']
+            cache['label'] = label()  # Dereference. See above.
+
+        if 'label' in cache:
+            return super(Prev, self).html_fmt(cache=cache,
+                                            format_func=format_func,
+                                            method=method, **kwargs)
+        else:
+            return ""
 
 
 class OtherLink(Tag):
-- 
2.43.0


From 0a5631c7c148abd62c81b1ad413db8217acdd4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:39 +0000
Subject: [PATCH 29/54] fix: nest the entries of lists by their levels and list
 titles in tex

---
 src/disseminate/formats/xhtml.py | 8 +++++---
 src/disseminate/tags/toc.py      | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index e1582cc..438a9f5 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -272,11 +272,13 @@ def xhtml_list(*elements, attributes=None, listtype='ol', level=1,
 
     # Setup a counter function for list levels. When a new list item is
     # encountered, all sub items will receive the same number so that they're
-    # grouped together.
+    # grouped together. An item with a lower level than the first item isn't a
+    # sub item; the list continues with its level.
     def counter(item):
-        nonlocal _count
-        if item[0] == listlevel:
+        nonlocal _count, listlevel
+        if item[0] <= listlevel:
             _count += 1
+            listlevel = item[0]
         return _count
 
     # Go by each list item and its group of sublists
diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index 775624c..84ec4db 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -31,7 +31,8 @@ class TocRef(Ref):
         tex_content = super().tex_fmt(content=content, attributes=attributes,
                                       mathmode=mathmode, cache=cache,
                                       level=level, **kwargs)
-        return "§" * list_level + " " + tex_content + "\n"
+        # Titles are at level 0, but list items need at least 1 '§'
+        return "§" * max(list_level, 1) + " " + tex_content + "\n"
 
     def html_fmt(self, content=None, attributes=None, cache=None,
                  format_func='html_fmt', method='html', level=1, **kwargs):
-- 
2.43.0


From 0d812385cb95cf06f8594946c1b05090a65213de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:03 +0000
Subject: [PATCH 30/54] fix: list figures and tables in tables of contents

---
 src/disseminate/tags/toc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index 84ec4db..61767c9 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -138,6 +138,10 @@ class Toc(Tag):
         if 'document' in self.toc_kind or 'documents' in self.toc_kind:
             labels += label_manager.get_labels_by_kind(doc_id=doc_id,
                                                        kinds='document')
+        for kind in ('figure', 'table'):
+            if kind in self.toc_kind or kind + 's' in self.toc_kind:
+                labels += label_manager.get_labels_by_kind(doc_id=doc_id,
+                                                           kinds=kind)
 
         # Now filter apply additional filters
         doc_id = context.get('doc_id')
-- 
2.43.0


From 90667a9ae89d3d6f21c6b81e5a7563387af14c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 31/54] fix: render documents again when headers, labels or
 documents change

---
 src/disseminate/builders/jinja_render.py | 64 ++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 67a92a6..905c1f3 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -191,6 +191,19 @@ class JinjaRender(Builder):
     def parameters(self, value):
         self._parameters = value
 
+    def build_needed(self, reset=False):
+        """Decide whether a build is needed"""
+        if self.decision is None:
+            self.decision = self.env.decider.decision
+
+        # The rendered file depends on the state of the context as well as on
+        # the parameters
+        inputs = list(self.parameters) + [self.action]
+        inputs.append(context_state(self.context))
+        return self.decision.build_needed(inputs=inputs,
+                                          output=self.outfilepath,
+                                          reset=reset)
+
     @property
     def outfilepath(self):
         outfilepath = self._outfilepath
@@ -280,6 +293,57 @@ class JinjaRender(Builder):
 
 # Utilities
 
+def context_state(context):
+    """A string with the state of a context that may change its rendering,
+    aside from its tags.
+
+    Parameters
+    ----------
+    context : :obj:`.context.BaseContext`
+        The context to render.
+
+    Returns
+    -------
+    state : str
+        The values of the context that aren't tags or objects, the labels that
+        may be shown and the documents that may be linked to.
+    """
+    def is_value(value):
+        if isinstance(value, dict):
+            return all(map(is_value, value.values()))
+        elif isinstance(value, (list, tuple, set)):
+            return all(map(is_value, value))
+        return value is None or isinstance(value, (str, int, float))
+
+    def sort(value):
+        if isinstance(value, dict):
+            return sorted((str(k), sort(v)) for k, v in value.items())
+        return sorted(value, key=str) if isinstance(value, set) else value
+
+    if context is None:
+        return ''
+
+    # Add values in the context of a document, like the title. The mtime
+    # changes every time the source file is saved, and it is not rendered.
+    state = [(key, sort(value)) for key, value in sorted(context.items())
+             if 'document' in context and key != 'mtime' and is_value(value)]
+
+    # Add the labels
+    label_manager = context.get('label_manager', None)
+    labels = label_manager.get_labels_by_kind() if label_manager else []
+    state += [(label, getattr(label, 'title', None)) for label in labels]
+
+    # Add the documents
+    root_document = context.get('root_document', None)
+    root_document = root_document() if root_document is not None else None
+    if root_document is not None:
+        documents = root_document.documents_list(only_subdocuments=False,
+                                                 recursive=True)
+        state += [(doc.doc_id, str(doc.src_filepath.subpath),
+                   sorted(doc.targets)) for doc in documents]
+    return str(state)
+
+
 def template_filepaths(template, environment):
     """Return a list of filepaths from a Jinja2 template object.
 
-- 
2.43.0


From 5ced5e3f59cf0fc886ed5c1a99782d600c98c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 32/54] fix: copy images again when their files change

---
 src/disseminate/builders/jinja_render.py | 30 ++++++++++++++++++++++--
 src/disseminate/tags/img.py              | 18 ++++++--------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 905c1f3..a4027c2 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -12,6 +12,8 @@ from .exceptions import BuildError
 from .utils import generate_mock_parameters, generate_outfilepath
 from ..paths import SourcePath
 from ..paths.utils import find_file
+from ..tags import Tag
+from ..tags.img import Img
 from ..utils.list import uniq
 from ..utils.classes import weakattr
 from .. import settings
@@ -196,10 +198,12 @@ class JinjaRender(Builder):
         if self.decision is None:
             self.decision = self.env.decider.decision
 
-        # The rendered file depends on the state of the context as well as on
-        # the parameters
+        # The rendered file depends on the state of the context and the files
+        # for its tags, like images, as well as on the parameters. The files
+        # are added to the target builder when the context is rendered.
         inputs = list(self.parameters) + [self.action]
         inputs.append(context_state(self.context))
+        inputs += tag_filepaths(self.context)
         return self.decision.build_needed(inputs=inputs,
                                           output=self.outfilepath,
                                           reset=reset)
@@ -344,6 +348,28 @@ def context_state(context):
     return str(state)
 
 
+def tag_filepaths(context):
+    """Return a list of the filepaths for tags, like images, in a context.
+
+    Parameters
+    ----------
+    context : :obj:`.context.BaseContext`
+        The context to render.
+
+    Returns
+    -------
+    filepaths : List[:obj:`pathlib.Path`]
+        A list of paths for existing files.
+    """
+    filepaths = []
+    values = context.values() if context is not None else []
+    for value in values:
+        tags = value.flatten(filter_tags=True) if isinstance(value, Tag) else []
+        filepaths += [tag.content_as_filepath() for tag in tags
+                      if isinstance(tag, Img) and tag.in_ext is None]
+    return uniq([filepath for filepath in filepaths if filepath is not None])
+
+
 def template_filepaths(template, environment):
     """Return a list of filepaths from a Jinja2 template object.
 
diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 2a14a61..d2f69ed 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -114,16 +114,12 @@ class Img(Tag):
         BuildError
             If a builder could not be found for the builder
         """
-        # See if a cached path exists already. This can only be done if the
-        # content, attributes and context aren't specified because the
-        # values of this tag will be used for these parameters.
-        if all(i is None for i in (content, attributes, context)):
-            if target in self._outfilepaths:
-                return self._outfilepaths[target]
-            else:
-                can_cache = True
-        else:
-            can_cache = False
+        # The file is added to the target builder every time the tag is
+        # rendered, as the target builder may have changed or the file may have
+        # to be built again. The path is stored only if the content, attributes
+        # and context aren't specified because the values of this tag will be
+        # used for these parameters.
+        can_cache = all(i is None for i in (content, attributes, context))
 
         # Retrieve the unspecified arguments
         content = content or self.content
@@ -149,7 +145,7 @@ class Img(Tag):
 
         outfilepath = outfilepaths[0]
 
-        # Cache the outfilepath, if possible
+        # Store the outfilepath, if possible
         if can_cache:
             self._outfilepaths[target] = outfilepath
 
-- 
2.43.0


From f4180e0295079327181e71fd67a9ad081b4d221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 33/54] fix: create epubs again when their files change

---
 src/disseminate/builders/xhtml2epub.py | 32 ++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index eedb186..409beea 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -149,15 +149,43 @@ class XHtml2Epub(SequentialBuilder):
                        'is_toc': is_toc})
         return rv
 
-    def build(self, complete=False):
+    @property
+    def status(self):
+        # The epub should be built if its subbuilders are done, but the files
+        # in the epub have changed
+        status = super().status
+        return 'ready' if status == 'done' and self.build_needed() else status
+
+    def build_needed(self, reset=False):
         # Scan for additional dependencies. This is done during the build,
         # rather during __init__ (as is usually done), because the xhtml
         # files might not have been created until a previous builder has
         # built them
+        try:
+            self.scan_parameters()
+        except FileNotFoundError:
+            return True
+
+        if self.decision is None:
+            self.decision = self.env.decider.decision
+
+        # The contents of the epub depend on the order of the files and on
+        # entries in the context as well
+        inputs = list(self.parameters) + [self.action]
+        inputs.append(" ".join(map(str, self.infilepaths)))
+        inputs += [(key, str(self.context[key]))
+                   for key in ('title', 'date', 'epub') if key in self.context]
+        return self.decision.build_needed(inputs=inputs,
+                                          output=self.outfilepath,
+                                          reset=reset)
+
+    def build(self, complete=False):
+        # Scan for additional dependencies.
         self.scan_parameters()
 
         # Build subbuilders first
-        super().build(complete=complete)
+        for subbuilder in self.subbuilders:
+            subbuilder.build(complete=True)
 
         context = self.context
         outfilepath = self.outfilepath
-- 
2.43.0


From 5b24dca9992a8f2a44cf51023458a9539a45a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:27 +0000
Subject: [PATCH 34/54] fix: read the output of commands and end these after
 the timeout

---
 src/disseminate/builders/executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index 4c0924d..fde5e55 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -19,8 +19,14 @@ def run(timeout, **kwargs):
     """Run the command with the given arguments."""
     popen = subprocess.Popen(**kwargs, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, bufsize=4096,)
-    popen.wait(timeout=timeout)
-    stdout, stderr = popen.communicate()
+    try:
+        # The pipes have to be read while the process runs. Otherwise, the
+        # process waits once these are full.
+        stdout, stderr = popen.communicate(timeout=timeout)
+    except subprocess.TimeoutExpired:
+        popen.kill()
+        popen.wait()
+        raise
     return PopenResult(returncode=popen.returncode,
                        args=popen.args,
                        stdout=stdout.decode('latin1'),
-- 
2.43.0


From f4ee4af49b640f1cd7362e4362698b649d29f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:45 +0000
Subject: [PATCH 35/54] fix: run commands for files with spaces in their paths

---
 src/disseminate/builders/builder.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 9477a7f..1f8baa2 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -23,11 +23,15 @@ class CustomFormatter(Formatter):
     """A custom formatter class for preparing actions into command-line
     arguments."""
 
+    #: The separator for the items of lists. (It cannot be part of a path.)
+    separator = '\0'
+
     def get_field(self, field_name, args, kwargs):
         field_value, field_name = super().get_field(field_name, args, kwargs)
         if isinstance(field_value, list) or isinstance(field_value, tuple):
-            # Make lists/tuples into space-separated strings
-            field_value = " ".join(self.clean_field(f) for f in field_value)
+            # Make lists/tuples into separate arguments
+            field_value = self.separator.join(self.clean_field(f)
+                                              for f in field_value)
             return field_value, field_name
         return self.clean_field(field_value), field_name
 
@@ -431,8 +435,12 @@ class Builder(metaclass=ABCMeta):
         """
         if isinstance(self.action, str):
             fmt = CustomFormatter()
-            fmt_action = fmt.format(self.action, builder=self)
-            return tuple(fmt_action.split())
+            # Format the arguments separately so that the spaces in paths do
+            # not split these
+            args = []
+            for arg in self.action.split():
+                args += fmt.format(arg, builder=self).split(fmt.separator)
+            return tuple(filter(bool, args))
         else:
             return tuple()
 
-- 
2.43.0


From 0a933b0254462841fd3ca024d35fe2e4fcad5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:45 +0000
Subject: [PATCH 36/54] fix: run all of the builders after one that was built
 again in a sequence

---
 .../builders/composite_builders/composite_builder.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/composite_builders/composite_builder.py b/src/disseminate/builders/composite_builders/composite_builder.py
index 9863552..cd35e5f 100644
--- a/src/disseminate/builders/composite_builders/composite_builder.py
+++ b/src/disseminate/builders/composite_builders/composite_builder.py
@@ -104,11 +104,14 @@ class CompositeBuilder(Builder):
         if status == 'done':
             self.build_needed(reset=True)
 
-        # Remove finished builders, if specified by 'clear_done'
+        # Remove finished builders, if specified by 'clear_done'. In sequence,
+        # the builders after one that isn't finished depend on its result.
         if self.clear_done:
             for subbuilder in list(self.subbuilders):
                 if subbuilder.status == 'done':
                     self.subbuilders.remove(subbuilder)
+                elif not self.parallel:
+                    break
 
         return status
 
-- 
2.43.0


From c569c09899cbfcf58f96e7a9065b952c680cd376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:45 +0000
Subject: [PATCH 37/54] fix: run a command once for all builders that use its
 result, and again if it was unsuccessful or its files changed

---
 src/disseminate/builders/builder.py     | 56 +++++++++++++++++++++++--
 src/disseminate/builders/environment.py |  5 +++
 src/disseminate/builders/executor.py    |  3 ++
 3 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 1f8baa2..12fadc5 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -9,7 +9,9 @@ from distutils.spawn import find_executable
 
 import pathvalidate
 
-from .executor import executor, run, runtime_error, runtime_success
+from .executor import (executor, run, running, runtime_error,
+                       runtime_success)
+from .deciders.utils_hash import hash_items
 from .utils import generate_outfilepath, generate_mock_parameters
 from .exceptions import BuildError
 from ..signals import signal
@@ -251,6 +253,12 @@ class Builder(metaclass=ABCMeta):
             if self.future.cancelled():
                 return "cancelled"
 
+            if not self.future_current:
+                # The result is from other inputs. The command has to be run
+                # again.
+                self.future = None
+                return "ready"
+
             exc = self.future.exception()
             if exc is not None:
                 # Raise the exception, if an exception was raised
@@ -270,6 +278,8 @@ class Builder(metaclass=ABCMeta):
                 # It was a successful run and the generated file exists
                 else:
                     self.build_needed(reset=True)
+                    self.future.output = hash_items(self.outfilepath)
+                    self.future = None
                     return "done"
 
             # non-zero exit code. Unsuccessful. :(
@@ -283,7 +293,7 @@ class Builder(metaclass=ABCMeta):
         if self.decision is None:
             decider = self.env.decider
             self.decision = decider.decision
-        inputs = list(self.parameters)
+        inputs = list(self.parameters) + self.dependencies
         if self.action:
             inputs.append(self.action)
         return self.decision.build_needed(inputs=inputs,
@@ -385,6 +395,12 @@ class Builder(metaclass=ABCMeta):
         """
         return [p for p in self.parameters if not isinstance(p, pathlib.Path)]
 
+    @property
+    def dependencies(self):
+        """The filepaths of files that are used by the build, in addition to
+        the parameters."""
+        return []
+
     @property
     def outfilepath(self):
         """The output filename and path"""
@@ -453,10 +469,44 @@ class Builder(metaclass=ABCMeta):
             logging.debug("'{}' run with: '{}'".format(self.__class__.__name__,
                                                        " ".join(args)))
 
+            # Other builders may use the same command to create the same file,
+            # like those for an equation that is used more than once. It is
+            # only run once, and not while another builder is using the file.
+            key = (args, str(self.outfilepath))
+            inputs = self.inputs_hash()
+            future = running.get(key, None)
+
+            if future is not None and not future.done():
+                # Wait for a command that is using other inputs
+                if future.inputs != inputs:
+                    return None
+            elif future is not None:
+                self.future = future
+                if not (self.future_current and not future.exception() and
+                        self.runtime_success(future=future) and
+                        self.outfilepath.exists() and
+                        future.output in (hash_items(self.outfilepath), None)):
+                    future = None
+
             # add the process to the executor pool
-            future = executor.submit(run, args=args, timeout=self.timeout)
+            if future is None:
+                future = executor.submit(run, args=args, timeout=self.timeout)
+                future.inputs = inputs
+                future.output = None
+                running[key] = future
             self.future = future
 
+    def inputs_hash(self):
+        """The hash of the contents of the files that are used by the build."""
+        filepaths = self.infilepaths + self.dependencies
+        return hash_items(*[fp for fp in filepaths if fp.is_file()])
+
+    @property
+    def future_current(self):
+        """True if the result of the future is from the current inputs."""
+        inputs = getattr(self.future, 'inputs', None)
+        return inputs is None or inputs == self.inputs_hash()
+
     def build(self, complete=False):
         """Run the build.
 
diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index 007d566..ccb9c57 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -218,6 +218,11 @@ class Environment(object):
         subbuilders = self.collect_target_builders(document=document)
         root_builder.subbuilders += subbuilders
 
+        # Commands that were unsuccessful in a previous build are run again
+        for builder in root_builder.flatten():
+            if builder.future is not None and builder.future.done():
+                builder.future = None
+
         return root_builder
 
     def collect_target_builders(self, document=None):
diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index fde5e55..4201754 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -12,6 +12,9 @@ from .exceptions import BuildError
 # Setup a global pool for processes
 executor = ThreadPoolExecutor(max_workers=cpu_count() * 2)
 
+# The futures of the commands that were run
+running = dict()
+
 PopenResult = namedtuple('PopenResult', 'returncode args stdout stderr')
 
 
-- 
2.43.0


From 552b0d5ebb1fb0f73904c7b652c0d8781676eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:45 +0000
Subject: [PATCH 38/54] fix: create pdfs again when their images change

---
 src/disseminate/builders/pdflatex.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/disseminate/builders/pdflatex.py b/src/disseminate/builders/pdflatex.py
index df3885c..fe99400 100644
--- a/src/disseminate/builders/pdflatex.py
+++ b/src/disseminate/builders/pdflatex.py
@@ -1,8 +1,17 @@
 """
 A builder to convert from TEX to PDF
 """
+import pathlib
+import regex
+
 from .builder import Builder
 
+#: regex for the files of images in tex files
+#: matches: '\includegraphics[width=1.0\textwidth]{{/tmp/sample}.pdf}'
+#: matches: '\includegraphics{{\detokenize{/tmp/sample}}.pdf}'
+_re_graphics = regex.compile(r'\\includegraphics\s*(?:\[[^\]]*\])?\s*'
+                             r'\{\{(?:\\detokenize\{)?(.+?)\}*(\.\w+)\}')
+
 
 class Pdflatex(Builder):
     """Compile a latex document into pdf using pdflatex"""
@@ -21,6 +30,17 @@ class Pdflatex(Builder):
     infilepath_ext = '.tex'
     outfilepath_ext = '.pdf'
 
+    @property
+    def dependencies(self):
+        """The images in the tex files."""
+        images = []
+        for infilepath in self.infilepaths:
+            if infilepath.is_file():
+                tex = infilepath.read_text()
+                images += [pathlib.Path(base + ext)
+                           for base, ext in _re_graphics.findall(tex)]
+        return [image for image in images if image.is_file()]
+
     @property
     def cache_path(self):
         return self.outfilepath.parent
-- 
2.43.0


From c815a220bd5d414850207f759bc2e34332bb5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:45 +0000
Subject: [PATCH 39/54] fix: convert files that are used with different options
 to different files

---
 src/disseminate/builders/asy_builders.py      | 10 +++--
 src/disseminate/builders/builder.py           | 12 +++++-
 .../composite_builders/parallel_builder.py    | 13 +++++-
 src/disseminate/builders/pdf2svg.py           | 40 +++++++++++--------
 .../builders/target_builders/receivers.py     |  4 +-
 5 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/src/disseminate/builders/asy_builders.py b/src/disseminate/builders/asy_builders.py
index ce1760a..fa13b59 100644
--- a/src/disseminate/builders/asy_builders.py
+++ b/src/disseminate/builders/asy_builders.py
@@ -2,6 +2,7 @@
 Builder for asymptote (.asy) files
 """
 from .builder import Builder
+from .pdf2svg import Pdf2SvgCropScale
 from .save_temp import SaveTempFile
 from .composite_builders import SequentialBuilder
 
@@ -53,15 +54,17 @@ class Asy2svg(SequentialBuilder):
     priority = 1000
     infilepath_ext = '.asy'
     outfilepath_ext = '.svg'
+    options = Pdf2SvgCropScale.options
 
     def __init__(self, env, subbuilders=None, target=None, use_cache=None,
-                 **kwargs):
+                 outfilepath_append=None, **kwargs):
         # Setup parameters
         subbuilders = (list(subbuilders) if isinstance(subbuilders, list) or
                        isinstance(subbuilders, tuple) else [])
 
         # Create the subbuilders
-        asy2pdf = Asy2pdf(env=env, target=target, use_cache=True, **kwargs)
+        asy2pdf = Asy2pdf(env=env, target=target, use_cache=True,
+                          outfilepath_append=outfilepath_append, **kwargs)
         subbuilders.append(asy2pdf)
 
         pdf2svg_cls = self.find_builder_cls(in_ext='.pdf', out_ext='.svg',
@@ -70,7 +73,8 @@ class Asy2svg(SequentialBuilder):
         subbuilders.append(pdf2svg)
 
         super().__init__(env, subbuilders=subbuilders, use_cache=use_cache,
-                         target=target, **kwargs)
+                         target=target,
+                         outfilepath_append=outfilepath_append, **kwargs)
 
 
 class SaveAsySvg(SequentialBuilder):
diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 12fadc5..367505c 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -98,6 +98,9 @@ class Builder(metaclass=ABCMeta):
     outfilepath_append : str
         For automatically generated outfilepaths, the following string will
         be appended to the name of the file. ex: '_scale'
+    options : Tuple[str]
+        The names of the (tuple) parameters that change the contents of the
+        output file. ex: 'scale'
     target : Optional[str]
         If specified, use the given document target for the build. This is used
         in formatting the TargetPath.
@@ -128,6 +131,9 @@ class Builder(metaclass=ABCMeta):
     outfilepath_append = None
     target = None
 
+    # Names of parameters that change the contents of the output file
+    options = ()
+
     parameters_from_signals = None
 
     future = None
@@ -143,7 +149,8 @@ class Builder(metaclass=ABCMeta):
     runtime_success = runtime_success  # handler to test succesful run
 
     def __init__(self, env, target=None, parameters=None, outfilepath=None,
-                 use_cache=None, use_media=None, **kwargs):
+                 use_cache=None, use_media=None, outfilepath_append=None,
+                 **kwargs):
         self.env = env
         self.target = target.strip('.') if isinstance(target, str) else None
         self.use_cache = use_cache if use_cache is not None else self.use_cache
@@ -161,6 +168,9 @@ class Builder(metaclass=ABCMeta):
             self.scan_parameters()
 
         # Load the outfilepath
+        if outfilepath_append:
+            self.outfilepath_append = (outfilepath_append +
+                                       (self.outfilepath_append or ''))
         self.outfilepath = (outfilepath if isinstance(outfilepath, TargetPath)
                             else None)
 
diff --git a/src/disseminate/builders/composite_builders/parallel_builder.py b/src/disseminate/builders/composite_builders/parallel_builder.py
index 8ee8d3d..d7cb5df 100644
--- a/src/disseminate/builders/composite_builders/parallel_builder.py
+++ b/src/disseminate/builders/composite_builders/parallel_builder.py
@@ -1,4 +1,5 @@
 from .composite_builder import CompositeBuilder
+from ..deciders.utils_hash import hash_items
 from ...paths.utils import find_file
 
 
@@ -14,7 +15,7 @@ class ParallelBuilder(CompositeBuilder):
 
     def add_build(self, parameters, outfilepath=None, target=None,
                   context=None, in_ext=None, out_ext=None, builder_cls=None,
-                  **kwargs):
+                  append_options=False, **kwargs):
         """
         Add a subbuilder to the ParallelBuilder.
 
@@ -39,6 +40,9 @@ class ParallelBuilder(CompositeBuilder):
             the outfilepath should be specified.
         builder_cls : Optional[:obj:`.builders.Builder`]
             The builder class to use in create a new build.
+        append_options : Optional[bool]
+            If True, append a hash for the options in the parameters, like
+            the scale, to the name of the automatically generated outfilepath.
         **kwargs
             Optional keyword arguments to use in creating the builder.
 
@@ -85,6 +89,13 @@ class ParallelBuilder(CompositeBuilder):
             builder_cls = self.find_builder_cls(in_ext=in_ext, out_ext=out_ext,
                                                 target=target)
 
+        # A file that is used with different options is converted to different
+        # files
+        options = [p for p in parameters if isinstance(p, tuple) and
+                   p and p[0] in builder_cls.options]
+        if append_options and outfilepath is None and options:
+            kwargs['outfilepath_append'] = '_' + hash_items(*options)[:12]
+
         # Create the builder
         builder = builder_cls(env=self.env, parameters=parameters,
                               outfilepath=outfilepath, context=context,
diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index d0d22e4..43e09e9 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -18,22 +18,16 @@ class Pdf2svg(Builder):
     infilepath_ext = '.pdf'
     outfilepath_ext = '.svg'
 
-    page_no = None
-
-    def __init__(self, env, **kwargs):
-        super().__init__(env, **kwargs)
-
-        # Get the page number
+    @property
+    def page_no(self):
+        """The page number, or None if it wasn't specified."""
         page_no = self.get_parameter('page') or self.get_parameter('page_no')
-        try:
-            self.page_no = int(page_no)
-        except TypeError:
-            pass
+        return int(page_no) if page_no is not None else None
 
     def run_cmd_args(self):
         args = list(super().run_cmd_args())
-        if isinstance(self.page_no, int):
-            args += [self.page_no]
+        if self.page_no is not None:
+            args += [str(self.page_no)]
         return tuple(args)
 
 
@@ -46,9 +40,10 @@ class Pdf2SvgCropScale(SequentialBuilder):
     priority = 1000
     infilepath_ext = '.pdf'
     outfilepath_ext = '.svg'
+    options = ('crop', 'crop_percentage', 'offset', 'page', 'page_no', 'scale')
 
     def __init__(self, env, parameters=None, subbuilders=None, use_cache=None,
-                 **kwargs):
+                 outfilepath_append=None, **kwargs):
         # Setup parameters. The parameters list should be a copy.
         subbuilders = (list(subbuilders) if (isinstance(subbuilders, list) or
                        isinstance(subbuilders, tuple)) else [])
@@ -61,19 +56,30 @@ class Pdf2SvgCropScale(SequentialBuilder):
         crop = (crop if crop is not None else
                 self.get_parameter('crop_percentage', *parameters))
 
+        # The first subbuilder appends to the name of the file, and the other
+        # subbuilders use that name
+        append = outfilepath_append or ''
+
         if crop is not None:
             pdfcrop = PdfCrop(env, parameters=parameters, use_cache=True,
-                              **kwargs)
+                              outfilepath_append=append, **kwargs)
             subbuilders.append(pdfcrop)
+            append = ''
 
-        pdf2svg = Pdf2svg(env, use_cache=True, **kwargs)
+        # The unscaled svg must have a different name from the final svg, in
+        # case both are placed in the cache directory.
+        scale = self.get_parameter('scale', *parameters)
+        append += '_unscaled' if scale is not None else ''
+
+        pdf2svg = Pdf2svg(env, use_cache=True, outfilepath_append=append,
+                          **kwargs)
         subbuilders.append(pdf2svg)
 
-        scale = self.get_parameter('scale', *parameters)
         if scale is not None:
             scalesvg = ScaleSvg(env, parameters=parameters, use_cache=True,
                                 **kwargs)
             subbuilders.append(scalesvg)
 
         super().__init__(env, parameters=parameters, subbuilders=subbuilders,
-                         use_cache=use_cache, **kwargs)
+                         use_cache=use_cache,
+                         outfilepath_append=outfilepath_append, **kwargs)
diff --git a/src/disseminate/builders/target_builders/receivers.py b/src/disseminate/builders/target_builders/receivers.py
index 3c565cd..37eb5ae 100644
--- a/src/disseminate/builders/target_builders/receivers.py
+++ b/src/disseminate/builders/target_builders/receivers.py
@@ -44,11 +44,13 @@ def add_file(parameters, context, in_ext, target, use_cache=False):
     assert target_builder, ("A target builder for '{}' is needed in the "
                             "document context".format(target))
 
+    # The same file may be used with different options by different tags
     build = target_builder.add_build(parameters=parameters,
                                      context=context,
                                      in_ext=in_ext,
                                      target=target,
-                                     use_cache=use_cache)
+                                     use_cache=use_cache,
+                                     append_options=True)
     return build.outfilepath
 
 
-- 
2.43.0


From ca7cda32071c6416c98a721923e9a759faf1d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:45 +0000
Subject: [PATCH 40/54] fix: render bold terms apart from other equations with
 the same contents

---
 src/disseminate/tags/eqs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 9e47d7d..6e1edae 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -110,6 +110,11 @@ class Eq(Img):
         attrs['crop'] = (100, 100, 0, 0)
         attrs['offset'] = (0, 0, -1, 0)
 
+        # Bold terms have a different image from other equations with the same
+        # contents
+        if self.name == 'termb':
+            attrs['bold'] = True
+
         if self.block_equation:
             attrs['class'] = 'eq blockeq'
         else:
-- 
2.43.0


From a841999494a847e9f69317a7b5f0fd20676827c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:10 +0000
Subject: [PATCH 41/54] fix: create epubs with images that have quotes and
 special characters in their names

---
 src/disseminate/builders/scanners/html_scanner.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/builders/scanners/html_scanner.py b/src/disseminate/builders/scanners/html_scanner.py
index 7d5cd45..8812954 100644
--- a/src/disseminate/builders/scanners/html_scanner.py
+++ b/src/disseminate/builders/scanners/html_scanner.py
@@ -1,6 +1,8 @@
 """
 A scanner for html files.
 """
+import html
+
 import regex
 
 from .scanner import Scanner
@@ -10,17 +12,17 @@ from .scanner import Scanner
 #: matches: '<link rel="stylesheet" href="/media/css/bootstrap.min.css">'
 #: matches: '<link href="{{ "/media/css/default.css" | rewrite_path }}">'
 _re_html_link = regex.compile(r'<link\s+(?:[^>]*?\s+)?'
-                              r'href=\s*[\"\'\s\{]+'
+                              r'href=\s*[\"\'\s\{]*([\"\'])'
                               r'(.*?)'
-                              r'[\"\']')
+                              r'\1')
 
 #: regex for processing <img> tags in html templates
 #: matches: '<img src="/media/icons/menu_inactive.svg">'
 #: matches: '<img src="{{ "/media/icons/menu_inactive.svg" | rewrite_path }}">'
 _re_html_img = regex.compile(r'<img\s+(?:[^>]*?\s+)?'
-                             r'src=\s*[\"\'\s\{]+'
+                             r'src=\s*[\"\'\s\{]*([\"\'])'
                              r'(.*?)'
-                             r'[\"\']')
+                             r'\1')
 
 
 class HtmlScanner(Scanner):
@@ -37,8 +39,9 @@ class HtmlScanner(Scanner):
         # Find the matches
         for re_func in (_re_html_link, _re_html_img):
             for match in re_func.finditer(content):
-                # Retrieve the link
-                link = match.groups()[0]
+                # Retrieve the link. Special characters, like those in the
+                # names of files, may be written as character references
+                link = html.unescape(match.groups()[1])
 
                 # Skip protocols; we're looking for actual files
                 if '://' in link:
-- 
2.43.0


From af026f95a9ec7356a1e14bf874ce8ac82ade62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:10 +0000
Subject: [PATCH 42/54] fix: build again when the contents of the files of a
 build are exchanged

---
 src/disseminate/builders/builder.py             | 3 ++-
 src/disseminate/builders/deciders/md5decider.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 367505c..7cf85c8 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -509,7 +509,8 @@ class Builder(metaclass=ABCMeta):
     def inputs_hash(self):
         """The hash of the contents of the files that are used by the build."""
         filepaths = self.infilepaths + self.dependencies
-        return hash_items(*[fp for fp in filepaths if fp.is_file()])
+        return hash_items(*[fp for fp in filepaths if fp.is_file()],
+                          sort=False)
 
     @property
     def future_current(self):
diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index efca2ad..7dadb27 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -44,8 +44,10 @@ class Md5Decision(Decision):
     @staticmethod
     def calculate_hash(inputs, output):
         """Calculate the md5 hash for the inputs, output and args."""
+        # The order of the inputs doesn't matter, but which of the files has
+        # which contents does
         sorted_inputs = sorted(inputs, key=str)
-        hash_input = hash_items(*sorted_inputs)
+        hash_input = hash_items(*sorted_inputs, sort=False)
         hash_output = hash_items(output)
 
         return (hash_input, hash_output)
-- 
2.43.0


From 10aec16e8fd1bfd58d236dad3c23da5dcf061003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 43/54] fix: allow headings and captions with the same contents
 in a document

---
 src/disseminate/tags/label.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 44b30ee..9193226 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -62,6 +62,31 @@ def generate_label_id(tag):
         return slugify(title)
 
 
+def unique_label_id(tag, label_id):
+    """Append a number to a generated label_id, if it is already used in the
+    tag's document.
+
+    Parameters
+    ----------
+    tag : :obj:`Tag <.Tag>`
+        The tag creating the label.
+    label_id : str
+        The generated label_id.
+
+    Returns
+    -------
+    label_id : str
+        The label_id that isn't used yet.
+    """
+    labels = getattr(tag.context.get('label_manager'), 'labels', dict())
+    doc_id = tag.context.get('doc_id')
+    unique_id, count = label_id, 1
+    while (doc_id, unique_id) in labels:
+        count += 1
+        unique_id = "-".join((label_id, str(count)))
+    return unique_id
+
+
 def create_label(tag, kind, label_id=None):
     """Create a label in the label_manager for the given tag.
 
@@ -166,8 +191,12 @@ class LabelMixin(object):
 
     def create_label(self):
         """Create the label in the label_manager for this tag."""
-        # Create the label. First,
+        # Create the label. First, get the label_id. A generated label_id may
+        # already be used by another tag with the same contents.
+        generated = self.label_id is None and 'id' not in self.attributes
         label_id = self.generate_label_id()
+        if generated:
+            label_id = unique_label_id(tag=self, label_id=label_id)
         kind = self.generate_label_kind()
         label_id = create_label(tag=self, kind=kind, label_id=label_id)
 
-- 
2.43.0


From 56f811cc488c0b1c5df2e05d7e3920a7d31e1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 44/54] fix: set the widths of images from 33% to 34%

---
 src/disseminate/tags/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index e742e5a..d54a448 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -238,7 +238,7 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
                74: (67, 75),
                65: (50, 67),
                49: (34, 50),
-               32: (25, 33),
+               32: (25, 34),
                24: (0, 25)}
 
     fit_percent_width = None
@@ -307,7 +307,7 @@ def xhtml_percentwidth(attributes, target='.html'):
                'w75': (67, 75),
                'w66': (50, 67),
                'w50': (34, 50),
-               'w33': (25, 33),
+               'w33': (25, 34),
                'w25': (0, 25)}
 
     for html_class, (range_min, range_max) in windows.items():
-- 
2.43.0


From 48ffe10fdb7b19a044d7697a1789452bae0bf3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 45/54] fix: load documents that changed when an environment is
 built

---
 src/disseminate/builders/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index ccb9c57..a397e3b 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -260,5 +260,8 @@ class Environment(object):
         status : str
             The current status of the build.
         """
+        # Make sure the document (and subdocuments) are loaded
+        self.root_document.load()
+
         root_builder = self.create_root_builder()
         return root_builder.build(complete=complete)
-- 
2.43.0


From 55123e3c8b26e8e0ac2055255d00f386f134ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:45 +0000
Subject: [PATCH 46/54] fix: create figures again when their asymptote files
 change

---
 src/disseminate/builders/jinja_render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index a4027c2..97465e7 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -366,7 +366,7 @@ def tag_filepaths(context):
     for value in values:
         tags = value.flatten(filter_tags=True) if isinstance(value, Tag) else []
         filepaths += [tag.content_as_filepath() for tag in tags
-                      if isinstance(tag, Img) and tag.in_ext is None]
+                      if isinstance(tag, Img) and tag.in_ext != '.render']
     return uniq([filepath for filepath in filepaths if filepath is not None])
 
 
-- 
2.43.0


From 91f21ecbb365bbd8bc8a94cc2c9f0d9318a54677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:06 +0000
Subject: [PATCH 47/54] fix: create pdfs again when images with dots in their
 names change

---
 src/disseminate/builders/pdflatex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/pdflatex.py b/src/disseminate/builders/pdflatex.py
index fe99400..bcaf2ab 100644
--- a/src/disseminate/builders/pdflatex.py
+++ b/src/disseminate/builders/pdflatex.py
@@ -10,7 +10,7 @@ from .builder import Builder
 #: matches: '\includegraphics[width=1.0\textwidth]{{/tmp/sample}.pdf}'
 #: matches: '\includegraphics{{\detokenize{/tmp/sample}}.pdf}'
 _re_graphics = regex.compile(r'\\includegraphics\s*(?:\[[^\]]*\])?\s*'
-                             r'\{\{(?:\\detokenize\{)?(.+?)\}*(\.\w+)\}')
+                             r'\{\{(?:\\detokenize\{)?(.+?)\}+(\.\w+)\}')
 
 
 class Pdflatex(Builder):
-- 
2.43.0


From 6f0214ef92f05aad6f022a20b84083f422f37e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:22 +0000
Subject: [PATCH 48/54] fix: create the files of equations again in a kept
 environment

---
 src/disseminate/tags/eqs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 6e1edae..f33c661 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -128,6 +128,11 @@ class Eq(Img):
             context['template'] = 'default/tex/eq'
             self._target_context[method] = context
 
-        context = context or self._target_context[method]
+        if context is None:
+            # The target builders may have changed since the last render
+            context = self._target_context[method]
+            if 'builders' in self.context:
+                context['builders'] = self.context['builders']
+
         return super(Eq, self).html_fmt(attributes=attrs, context=context,
                                         method=method, **kwargs)
-- 
2.43.0


From e52c02ba84c4158f67a1e9506bf065e8844b9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:22 +0000
Subject: [PATCH 49/54] fix: create the files of pages again after a build that
 was unsuccessful or interrupted

---
 src/disseminate/builders/jinja_render.py      | 26 +++++++++++++++++++
 .../target_builders/target_builder.py         |  8 ++++++
 2 files changed, 34 insertions(+)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 97465e7..15a5057 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -8,6 +8,7 @@ import jinja2
 import jinja2.meta
 
 from .builder import Builder
+from .deciders.utils_hash import hash_items
 from .exceptions import BuildError
 from .utils import generate_mock_parameters, generate_outfilepath
 from ..paths import SourcePath
@@ -103,6 +104,11 @@ class JinjaRender(Builder):
 
     render_ext = None
 
+    #: If True, the rendered file is built once the builds for the files of its
+    #: tags, like images, are finished, and the finish method is called.
+    wait_for_files = False
+    _rendered = None
+
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
 
@@ -204,10 +210,30 @@ class JinjaRender(Builder):
         inputs = list(self.parameters) + [self.action]
         inputs.append(context_state(self.context))
         inputs += tag_filepaths(self.context)
+
+        build_needed = self.decision.build_needed(inputs=inputs,
+                                                  output=self.outfilepath)
+        if self.wait_for_files and (reset or self._rendered) and build_needed:
+            # The file isn't needed to be rendered again by this builder, but
+            # it is by others, in case the builds for its files aren't finished
+            current = (self.outfilepath.exists() and
+                       hash_items(*inputs, self.outfilepath))
+            self._rendered = current if reset else self._rendered
+            return self._rendered != current
+
         return self.decision.build_needed(inputs=inputs,
                                           output=self.outfilepath,
                                           reset=reset)
 
+    def finish(self):
+        """Set the rendered file as built, after its files are built as well.
+        """
+        if self._rendered and not self.build_needed():
+            self._rendered = None
+            self.wait_for_files = False
+            self.build_needed(reset=True)
+            self.wait_for_files = True
+
     @property
     def outfilepath(self):
         outfilepath = self._outfilepath
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 1b988cc..5317de1 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -125,6 +125,7 @@ class TargetBuilder(SequentialBuilder):
                                          **kwargs)
             # Add ref label dependencies
             render_builder.parameters_from_signals = 'ref_label_dependencies'
+            render_builder.wait_for_files = True
 
             subbuilders.append(render_builder)
             self._render_builder = render_builder
@@ -161,6 +162,13 @@ class TargetBuilder(SequentialBuilder):
                                         **kwargs)
         return builder
 
+    @property
+    def status(self):
+        status = super().status
+        if status == 'done' and self._render_builder is not None:
+            self._render_builder.finish()
+        return status
+
     def build(self, complete=False):
         # Reload the document
         context = self.context
-- 
2.43.0


From 1ec679e6549d2840b6d8356b6ed393f76681fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:39 +0000
Subject: [PATCH 50/54] fix: create the files of pages again when earlier
 contents are restored or the files are removed

---
 src/disseminate/builders/deciders/decider.py  |  5 +++-
 .../builders/deciders/md5decider.py           | 23 +++++++++++++------
 src/disseminate/builders/jinja_render.py      |  6 ++++-
 .../target_builders/target_builder.py         |  3 +++
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/disseminate/builders/deciders/decider.py b/src/disseminate/builders/deciders/decider.py
index 7df6ab6..d5fc6ed 100644
--- a/src/disseminate/builders/deciders/decider.py
+++ b/src/disseminate/builders/deciders/decider.py
@@ -23,7 +23,7 @@ class Decision(object):
     def __init__(self, parent_decider):
         self.parent_decider = parent_decider
 
-    def build_needed(self, inputs, output, reset=False):
+    def build_needed(self, inputs, output, reset=False, filepaths=()):
         """Determine whether a build is needed.
 
         Parameters
@@ -35,6 +35,9 @@ class Decision(object):
         reset : Optional[bool]
             If True, reset cached values in determining whether the build is
             needed.
+        filepaths : Optional[Iterable[:obj:`pathlib.Path`]]
+            When reset, the filepaths of other files built with the output,
+            which should exist and not have changed either.
 
         Raises
         ------
diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index 7dadb27..edd3268 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -1,6 +1,8 @@
 """
 A decider that uses MD5 hashes.
 """
+import pathlib
+
 import diskcache
 
 from .decider import Decider, Decision
@@ -10,7 +12,7 @@ from .utils_hash import hash_items
 class Md5Decision(Decision):
     """A decision for the Md5Decider"""
 
-    def build_needed(self, inputs, output, reset=False):
+    def build_needed(self, inputs, output, reset=False, filepaths=()):
         build_needed = super().build_needed(inputs, output)
 
         if build_needed:
@@ -27,19 +29,26 @@ class Md5Decision(Decision):
                                                       output=output)
 
         # Check the database hash (input_hash is the key, output_hash is the
-        # value)
-        key = input_hash
-        cached_output_hash = db.get(key, None)
+        # value, with the hashes for other files built with the output)
+        cached = db.get(input_hash, None)
+        cached_output_hash, cached_files = (cached if isinstance(cached, tuple)
+                                            else (cached, ()))
 
         # Reset the cached hash, if needed
         if reset:
             # Recalculate the hash
             input_hash, output_hash = self.calculate_hash(inputs=inputs,
                                                           output=output)
-            db[input_hash] = output_hash
+            files = [(str(p), hash_items(p)) for p in filepaths if p.is_file()]
+            db[input_hash] = (output_hash, files)
             return False
-        else:
-            return cached_output_hash != output_hash
+        elif cached_output_hash != output_hash:
+            return True
+
+        # Check that the other files are the same as well
+        return any(not path.is_file() or hash_items(path) != file_hash
+                   for path, file_hash in ((pathlib.Path(p), file_hash)
+                                           for p, file_hash in cached_files))
 
     @staticmethod
     def calculate_hash(inputs, output):
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 15a5057..3e56631 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -109,6 +109,9 @@ class JinjaRender(Builder):
     wait_for_files = False
     _rendered = None
 
+    #: The filepaths of the files built for the rendered file, like images.
+    built_filepaths = ()
+
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
 
@@ -223,7 +226,8 @@ class JinjaRender(Builder):
 
         return self.decision.build_needed(inputs=inputs,
                                           output=self.outfilepath,
-                                          reset=reset)
+                                          reset=reset,
+                                          filepaths=self.built_filepaths)
 
     def finish(self):
         """Set the rendered file as built, after its files are built as well.
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 5317de1..cd1bc3a 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -126,6 +126,7 @@ class TargetBuilder(SequentialBuilder):
             # Add ref label dependencies
             render_builder.parameters_from_signals = 'ref_label_dependencies'
             render_builder.wait_for_files = True
+            render_builder.built_filepaths = set()
 
             subbuilders.append(render_builder)
             self._render_builder = render_builder
@@ -160,6 +161,8 @@ class TargetBuilder(SequentialBuilder):
                                         context=context,
                                         use_cache=use_cache,
                                         **kwargs)
+        if self._render_builder is not None:
+            self._render_builder.built_filepaths.add(builder.outfilepath)
         return builder
 
     @property
-- 
2.43.0


From 9de0e7100f763bce9d4a36792266f87962ff41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:22 +0000
Subject: [PATCH 51/54] fix: add only the files that the pages use to epub
 files

---
 src/disseminate/builders/xhtml2epub.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index 409beea..2b65f40 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -11,6 +11,7 @@ from datetime import datetime, timezone
 from .composite_builders import SequentialBuilder
 from ..paths.utils import find_file
 from ..utils.classes import weakattr
+from ..utils.list import uniq
 from ..utils.string import slugify
 
 
@@ -38,6 +39,7 @@ class XHtml2Epub(SequentialBuilder):
     toc_filename = 'toc.xhtml'
 
     _render_context = None
+    _scanned_parameters = ()
 
     def __init__(self, env, context, **kwargs):
         # Setup the arguments
@@ -58,6 +60,7 @@ class XHtml2Epub(SequentialBuilder):
     @property
     def parameters(self):
         parameters = SequentialBuilder.parameters.fget(self)
+        parameters += list(self._scanned_parameters)
 
         # The parameters may included multiple references to the same files,
         # like css files, when building a tree. Remove these
@@ -78,6 +81,14 @@ class XHtml2Epub(SequentialBuilder):
     @parameters.setter
     def parameters(self, value):
         SequentialBuilder.parameters.fset(self, value)
+        self._scanned_parameters = []
+
+    def scan_parameters(self):
+        # The xhtml files may have been rendered since the last scan, and they
+        # may not have the same dependencies as before
+        self._scanned_parameters = []
+        parameters = self.env.scanner.scan(parameters=self.parameters)
+        self._scanned_parameters = uniq(parameters)
 
     def create_opf_builder(self, template_name='default/xhtml/content.opf'):
         """Create a render builder for the content.opf file.
-- 
2.43.0


From 1fd0d802b9041aecb3148f1cda6073cbc58fb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:11 +0000
Subject: [PATCH 52/54] fix: present all of the cells of csv data in tables

The columns were lost with blank lines (including the one that opens the data
in the documented example), shorter rows, headers without rows, single rows
without headers and repeated names of columns. The tsv tag did not split values
at tabs, and num_rows raised an exception.
---
 src/disseminate/tags/data.py | 73 +++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 60b3da5..0c239af 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -45,6 +45,9 @@ class Data(Tag):
     data : Dict[Union[str, int], Tuple(str)]
         A data dict with the column names (str) or column index (int) as keys
         and the rows (tuple) as values.
+    columns : List[Tuple[Union[str, int], Tuple[str]]]
+        The column names and rows for each column, in order. More than one
+        column may have the same name.
     processed_headers : Union[List[:obj:`tags.Tag`], None]
         The headers processed into tags
     processed_rows : List[List[:obj:`tags.tag`]]
@@ -55,6 +58,7 @@ class Data(Tag):
     process_content = False
 
     data = None
+    columns = None
     processed_headers = None
     processed_rows = None
 
@@ -99,35 +103,38 @@ class Data(Tag):
                 rows.append(tuple(parsed))
             self.processed_rows = rows
 
+    @property
+    def _columns(self):
+        """The column names and rows for each column."""
+        return (self.columns if self.columns is not None else
+                list(self.data.items()))
+
     @property
     def headers(self):
         """The tuple of the data headers"""
-        return tuple(self.data.keys())
+        return tuple(name for name, column in self._columns)
 
     @property
     def rows(self):
         """An iterator for the data rows"""
-        return (row for row in self.data.values())
+        return (column for name, column in self._columns)
 
     @property
     def rows_transpose(self):
         """An iterator for the data rows (transposed)"""
-        rows = [row for row in self.data.values()]
-        return (tuple(row) for row in transpose(rows))
+        return (tuple(row) for row in transpose(list(self.rows)))
 
     @property
     def num_cols(self):
         """The number of columns in the data"""
-        return len(self.data) if self.data is not None else None
+        return len(self._columns) if self.data is not None else None
 
     @property
     def num_rows(self):
-        """The number of columns in the data"""
+        """The number of rows in the data"""
         if self.data is None:
             return None
-        first_key = self.data.keys()[0]
-        first_row = self.data[first_key]
-        return len(first_row)
+        return max((len(column) for column in self.rows), default=0)
 
 
 class DelimData(Data):
@@ -139,7 +146,9 @@ class DelimData(Data):
     skipinitialspace = True
 
     def __init__(self, delimiter=',', *args, **kwargs):
-        self.delimiter = delimiter
+        # Tab-separated values have tabs between values
+        name = args[0] if args else kwargs.get('name')
+        self.delimiter = '\t' if name == 'tsv' else delimiter
         super().__init__(*args, **kwargs)
 
     def load(self, filepath_or_buffer, delimiter=None):
@@ -149,34 +158,30 @@ class DelimData(Data):
             # Load a file or string stream from the filepath_or_buffer
             stream = load_io_stream(filepath_or_buffer, context=self.context)
 
-            # Parse the csv data.
-            # first_row is an len(cols) list
-            # rows is a len(rows) list of len(cols) lists
+            # Parse the csv data. The lines without data are skipped.
+            # rows is a len(rows) list of lists with the cells
             csv_reader = csv.reader(stream, delimiter=delimiter,
                                     skipinitialspace=self.skipinitialspace)
-            first_row = next(csv_reader)
-            rows = [row for row in csv_reader]
-
-            # Transpose the rows so that rows is a len(cols) list of len(rows)
-            # lists
-            rows = transpose(rows)
-
-            # Convert the rows into a data dict with the keys as column names
-            # (header) or column numbers (no header)
-            data = OrderedDict()
-
-            if 'noheader' in self.attributes:
-                # Prepend the first row to each row
-                for col_num, (first, row) in enumerate(zip(first_row, rows)):
-                    row.insert(0, first)
-                    data[col_num] = tuple(row)
-            else:
-                # Use the first_row as the column names
-                for first, row in zip(first_row, rows):
-                    data[first] = tuple(row)
+            rows = [row for row in csv_reader
+                    if len(row) > 1 or any(cell.strip() for cell in row)]
+
+            # Fill the missing cells of shorter rows, so that rows is a
+            # len(rows) list of len(cols) lists
+            num_cols = max(map(len, rows), default=0)
+            rows = [row + [''] * (num_cols - len(row)) for row in rows]
+
+            # Use the first row for the column names (header) or the column
+            # numbers (no header)
+            headers = (range(num_cols) if 'noheader' in self.attributes or
+                       not rows else rows.pop(0))
+
+            # Convert the rows into columns
+            columns = [(header, tuple(row[col_num] for row in rows))
+                       for col_num, header in enumerate(headers)]
 
             # Set the data attributes
-            self.data = data
+            self.columns = columns
+            self.data = OrderedDict(columns)
 
     def tex_table(self, content=None, attributes=None, mathmode=False,
                   level=1):
-- 
2.43.0


From 760dea75bc86a6700db9dffd3fd2e6c1b4692cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:29 +0000
Subject: [PATCH 53/54] fix: ignore blank lines in the levels of list items and
 keep the class of lists

Spaces on the blank lines before an item were added to the indentation of the
item, and the attributes of lists were not used in html.
---
 src/disseminate/tags/list.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index 4838b9c..df70820 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -36,6 +36,11 @@ def parse_string_list(s):
     ...                   "  - This is my first subitem\n")
     [(0, 'This is my first item.'), (2, 'This is my first subitem')]
     """
+    def count_spaces(match):
+        # Only count the spaces on the line with the bullet, and not those on
+        # blank lines before it
+        return match.group().rpartition('\n')[2].count(' ')
+
     parsed_list = []
     current_match = None
     current_pos = 0
@@ -49,7 +54,7 @@ def parse_string_list(s):
             current_pos = match.end()
 
             # Find the level. The number of spaces determines the level
-            list_level = match.group().count(' ')
+            list_level = count_spaces(match)
             continue
 
         # Retrieve the string up to this point. Remove leading spaces.
@@ -62,7 +67,7 @@ def parse_string_list(s):
         # Set the current position and current match for the next iteration
         current_match = match
         current_pos = match.end()
-        list_level = match.group().count(' ')
+        list_level = count_spaces(match)
 
     # Add the remaining match to the returned list
     if current_match is not None:
@@ -241,6 +246,7 @@ class List(Tag):
     def html_fmt(self, content=None, attributes=None, format_func='html_fmt',
                  method='html', level=1, **kwargs):
         elements = []
+        attributes = self.attributes if attributes is None else attributes
 
         for tag in self.content:
             listlevel = tag.attributes['level']
-- 
2.43.0


From c3e22f5528ffe31b3a8affc1e2a8542632c2680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:50 +0000
Subject: [PATCH 54/54] fix: write valid package documents for epub files

The title was not escaped, png images were missing from the manifest, documents
with similar names had the same identifiers, and documents named toc in
subdirectories were taken for the table of contents.
---
 src/disseminate/builders/jinja_render.py      |  3 +-
 src/disseminate/builders/xhtml2epub.py        | 31 ++++++++++++++++---
 .../templates/default/xhtml/content.opf       | 11 +++++--
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 3e56631..a98313b 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -129,7 +129,8 @@ class JinjaRender(Builder):
             dl = jinja2.PackageLoader('disseminate', 'templates')
 
             # Create the environment
-            ae = jinja2.select_autoescape(['html', 'htm', 'xml', 'xhtml'])
+            ae = jinja2.select_autoescape(['html', 'htm', 'xml', 'xhtml',
+                                           'opf'])
             env = jinja2.Environment(autoescape=ae, loader=dl,
                                      keep_trailing_newline=True,)
             env.filters['rewrite_path'] = rewrite_path
diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index 2b65f40..fb3c21f 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -7,6 +7,7 @@ import uuid
 import logging
 import os.path
 from datetime import datetime, timezone
+from urllib.parse import quote
 
 from .composite_builders import SequentialBuilder
 from ..paths.utils import find_file
@@ -107,7 +108,7 @@ class XHtml2Epub(SequentialBuilder):
         # Place the title.xhtml and toc.xhtml file at the front of the
         # filepaths
         front_fps = ([fp for fp in fps if fp.name == 'title.xhtml'] +
-                     [fp for fp in fps if fp.name == 'toc.xhtml'])
+                     [fp for fp in fps if str(fp.subpath) == 'toc.xhtml'])
         fps = front_fps + [fp for fp in fps if fp not in front_fps]
 
         render_context = (self._render_context or
@@ -117,6 +118,14 @@ class XHtml2Epub(SequentialBuilder):
         render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
         render_context['svg_files'] = self.filepath_dict_list(fps, '.svg')
         render_context['css_files'] = self.filepath_dict_list(fps, '.css')
+        render_context['png_files'] = self.filepath_dict_list(fps, '.png')
+
+        # The identifiers in the manifest must be unique
+        ids = {'toc'}
+        for key in ('xhtml_files', 'svg_files', 'css_files', 'png_files'):
+            for file in render_context[key]:
+                if not file['is_toc']:
+                    file['id'] = self.unique_id(file['id'], ids)
 
         # Add required entries, if not present
         now = datetime.now(timezone.utc).replace(microsecond=0)
@@ -144,22 +153,36 @@ class XHtml2Epub(SequentialBuilder):
             if filepath.suffix != suffix:
                 continue
 
-            # Is the filepath a toc file?
-            is_toc = filepath.name == self.toc_filename
-
             # Generate the subpath for the file, as this is the relative
             # path in the epub container. Make sure to strip '..' relpath
             # elements, as this can create compatibility issues.
             subpath = str(os.path.normpath(filepath.subpath))
 
+            # Is the filepath the toc file? Other documents may have the same
+            # name in subdirectories
+            is_toc = subpath == self.toc_filename
+
             # Generate the navigation identifier for the file
             id = slugify(subpath) if not is_toc else 'toc'
 
             rv.append({'id': id,
                        'subpath': subpath,
+                       'href': quote(subpath),
                        'is_toc': is_toc})
         return rv
 
+    @staticmethod
+    def unique_id(id, ids):
+        """Create a valid XML id from the given id, which isn't in the given
+        set of ids yet, and add it to this set."""
+        id = id if id[:1].isalpha() else 'id-' + id
+        unique_id, count = id, 1
+        while unique_id in ids:
+            count += 1
+            unique_id = '{}-{}'.format(id, count)
+        ids.add(unique_id)
+        return unique_id
+
     @property
     def status(self):
         # The epub should be built if its subbuilders are done, but the files
diff --git a/src/disseminate/templates/default/xhtml/content.opf b/src/disseminate/templates/default/xhtml/content.opf
index a0a5c4f..b323eb1 100644
--- a/src/disseminate/templates/default/xhtml/content.opf
+++ b/src/disseminate/templates/default/xhtml/content.opf
@@ -48,21 +48,26 @@
   <manifest>
     <!-- Main content files in ebook -->
     {%- for file in xhtml_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.href }}"
           id="{{ file.id }}"
           media-type="application/xhtml+xml"{% if file.is_toc %} properties="nav"{% endif %}/>
     {%- endfor %}
     <!-- Media files -->
     {%- for file in css_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.href }}"
           id="{{ file.id }}"
           media-type="text/css"/>
     {%- endfor %}
     {%- for file in svg_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.href }}"
           id="{{ file.id }}"
           media-type="image/svg+xml"/>
     {%- endfor %}
+    {%- for file in png_files %}
+    <item href="{{ file.href }}"
+          id="{{ file.id }}"
+          media-type="image/png"/>
+    {%- endfor %}
   </manifest>
   <spine>
     <!-- The default reading order of elements -->
-- 
2.43.0

