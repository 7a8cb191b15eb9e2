From 0a06b24d5fe5d0de102b966ae09d79e5820fd4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 01/76] fix: don't raise StopIteration when a file ends in an
 open continuation or function

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..05b9297 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From ccb92fd75c6032f377c7e3e43312f087ed42afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 02/76] fix: start a function block only at a function header

Text that merely mentions a function, e.g. a comment, and functions that are
complete on a single line no longer swallow the statements following them.
---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 05b9297..5dc6c50 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -60,7 +60,7 @@ __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
-    r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+    r"^\s*(((?P<py>python(?=(\s|\()))|(?P<fr>fakeroot(?=\s)))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?!.*\}\s*$)")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
 
-- 
2.43.0


From 38abfba1722e1aefe0b4c5d9187835bd4c5f021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 03/76] fix: don't take a function name starting with python or
 fakeroot for the keyword

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5dc6c50..2b80b51 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -31,7 +31,7 @@ INLINE_BLOCK = "!!!inlineblock!!!"
 __regex_var = regex.compile(
     r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
-    r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
+    r"^((?P<py>python(?=(\s|\()))\s*|(?P<fr>fakeroot(?=\s)\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-- 
2.43.0


From 4a0a608c858fdf6635225c1f9eaceda3f9b1f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 04/76] fix: end a function block at its closing brace line

As in bitbake a brace on a line of its own ends the function. Unbalanced braces
inside of the body, e.g. echo "{", don't stretch or truncate it anymore.
---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 2b80b51..6308371 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -126,7 +126,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
                 res += line
                 scope_level += line.count('{')
                 scope_level -= line.count('}')
-                if scope_level < 0:
+                if line.rstrip() == '}' or (scope_level < 0 and line.lstrip().startswith('}')):
                     stopiter = True
                     break
                 try:
-- 
2.43.0


From 1bf79e69edf96c33b8269b755b67f3bf5ee69e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 05/76] fix: report the full name of an unset variable

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 6308371..9e188e2 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^\s*unset\s+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])?")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From 9854a0392dbb02601da81205b297e12027788073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 06/76] fix: parse exports using single quotes or another
 operator than =

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 9e188e2..0153834 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>[^\s=]+?)\s*(\+|\?|\:|\.)*=(\+|\.)*\s*(?P<quote>[\"'])(?P<value>.*)(?P=quote)")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 4f04116f79d4e9f20f7eadcbaa48c9973b95a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 07/76] fix: accept +, / and ~ in variable and + in flag names

They are valid in bitbake, e.g. FILES:libstdc++ or PACKAGECONFIG[gtk+].
---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 0153834..f3134d9 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -29,7 +29,7 @@ from oelint_parser.constants import CONSTANTS
 INLINE_BLOCK = "!!!inlineblock!!!"
 
 __regex_var = regex.compile(
-    r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(?P<varname>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
     r"^((?P<py>python(?=(\s|\()))\s*|(?P<fr>fakeroot(?=\s)\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
@@ -50,7 +50,7 @@ __regex_addtask = regex.compile(
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_|\+)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
-- 
2.43.0


From f28a9f438161f75873d8c067c95a42a36876eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 08/76] fix: recognise python helpers with upper case names or
 return annotations

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f3134d9..52748e3 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -42,7 +42,7 @@ __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
-    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
+    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)(\s*->.*)?\s*\:")
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-- 
2.43.0


From 409e9c89f4708864fca4164c535cea34e67ee60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 09/76] fix: don't cut include names at +, ~ or @

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 52748e3..bef3460 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)(\s*->.*)?\s*\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+~@]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From 7c31fa9374592b3fdb749fdf9705eaf2cd363537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 10/76] fix: split addpylib and addfragments operands at any
 amount of whitespace

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index bef3460..14c1882 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,11 +53,11 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_|\+)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/\S+)(\s+|\t+)(?P<namespace>\S+)")
 __regex_unset = regex.compile(
     r"^\s*unset\s+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])?")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
+    r"addfragments\s+(?P<path>\S+)\s+(?P<variable>\S+)\s+(?P<flagged>\S.*?)\s*$")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*(((?P<py>python(?=(\s|\()))|(?P<fr>fakeroot(?=\s)))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?!.*\}\s*$)")
-- 
2.43.0


From fa71bdb9e27bccac8e2db7b36551aa57f2031cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 11/76] fix: don't split addtask operands inside of task names

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 14c1882..f87cd33 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+~@]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((\bbefore\b\s*(?P<before>(([^#\n]*(?=\bafter\b))|([^#\n]*))))|(\bafter\b\s*(?P<after>(([^#\n]*(?=\bbefore\b))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From 5bf70e45a8508d0bd3024fcada731d422ea6fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:42 +0000
Subject: [PATCH 12/76] fix: find the start of a function body after the
 parentheses

The name of a function may contain braces as well, e.g. pkg_postinst:${PN}.
---
 oelint_parser/cls_item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..56bb4be 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -10,6 +10,7 @@ from oelint_parser.rpl_regex import RegexRpl
 __safeline_split_regex__ = regex.compile(r"\s|\t|\x1b(?!x)")
 __id_regex__ = regex.compile(r"[a-z0-9{}$]+")  # noqa: P103
 __versioned_regex__ = regex.compile(r"\s*\(.*?\)")
+__func_body_start_regex__ = regex.compile(r"\(\s*\)\s*\{")
 
 
 class Item():
@@ -629,8 +630,9 @@ class Function(Item):
         self.__SubItems = [x for x in self.SubItem.split(
             self.OverrideDelimiter) if x]
         self.__FuncBody = body
+        _start = RegexRpl.search(__func_body_start_regex__, self.Raw)
         self.__FuncBodyRaw = textwrap.dedent(
-            self.Raw[self.Raw.find("{") + 1:].rstrip().rstrip("}"))
+            self.Raw[_start.end() if _start else self.Raw.find("{") + 1:].rstrip().removesuffix("}"))
 
     @property
     def IsPython(self) -> bool:
-- 
2.43.0


From 56bfc9d4c1eb96bfd0f88d9e1fc41c3f1ebf1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 13/76] fix: strip single quotes and quotes followed by
 whitespace from values

---
 oelint_parser/cls_item.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 56bb4be..eb00b42 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -166,6 +166,12 @@ class Item():
     def _safe_linesplit(self, string: str) -> List[str]:
         return [x for x in RegexRpl.split(__safeline_split_regex__, string) if x]
 
+    @staticmethod
+    def _strip_quotes(string: str) -> str:
+        if len(string) > 1 and string[0] == string[-1] == "'":
+            return string[1:-1]
+        return string.strip('"')
+
     def get_items(self) -> List[str]:
         """Return single items
 
@@ -376,7 +382,7 @@ class Variable(Item):
         Returns:
             str: stripped version of variable value
         """
-        return self.VarValue.strip().lstrip('"').rstrip('"')
+        return self._strip_quotes(self.VarValue.strip())
 
     def IsAppend(self) -> bool:
         """Check if operation is an append
@@ -413,7 +419,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip('"')
+        _x = override.strip('"') or self.VarValueStripped
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
@@ -865,7 +871,7 @@ class FlagAssignment(Item):
         Returns:
             str: value set
         """
-        return self.__value.strip('"')
+        return self._strip_quotes(self.__value.strip())
 
     def get_items(self) -> Tuple[str, str, str, str]:
         """Get items
-- 
2.43.0


From d1eb8eeb8acddecdd96a00286b5729ca36a91178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 14/76] fix: let FunctionExports.ATTR_FUNCNAME name an existing
 attribute

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index eb00b42..5b478c6 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -885,7 +885,7 @@ class FlagAssignment(Item):
 class FunctionExports(Item):
     """Items representing EXPORT_FUNCTIONS in bitbake."""
 
-    ATTR_FUNCNAME = "FuncName"
+    ATTR_FUNCNAME = "FuncNames"
     CLASSIFIER = "FunctionExports"
 
     def __init__(self,
-- 
2.43.0


From 1c3f4dd66b5c864efe2210e606e68d77369c51a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 15/76] fix: split task and function lists at any whitespace

---
 oelint_parser/cls_item.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5b478c6..09eb4d3 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -914,7 +914,7 @@ class FunctionExports(Item):
         Returns:
             list -- function names
         """
-        return [x for x in self.__FuncNames.split(" ") if x]
+        return self._safe_linesplit(self.__FuncNames)
 
     def get_items_unaliased(self) -> List[str]:
         """Get items with their bbclass scope names
@@ -953,8 +953,8 @@ class TaskAdd(Item):
         """
         super().__init__(*args, **kwargs)
         self.__FuncName = name
-        self.__Before = [x for x in (before or "").split(" ") if x]
-        self.__After = [x for x in (after or "").split(" ") if x]
+        self.__Before = self._safe_linesplit(before or "")
+        self.__After = self._safe_linesplit(after or "")
         self.__Comment = comment or ''
 
     @property
-- 
2.43.0


From e334664a8f225b1975e375514a5bb0ebb9eb432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 16/76] fix: make the textual form of items independent of hash
 randomisation

It feeds the fingerprint of the stash.
---
 oelint_parser/cls_item.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 09eb4d3..2624e33 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -265,7 +265,8 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        _attr = {k: sorted(v) if isinstance(v, set) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=_attr)
 
 
 class Variable(Item):
-- 
2.43.0


From 473354f943e8402f8f7c15fe5d83b7b2a6d0956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 17/76] fix: don't glue list entries starting with x to a line
 continuation

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 2624e33..aff6a5b 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -7,7 +7,7 @@ import regex
 from oelint_parser.constants import CONSTANTS
 from oelint_parser.rpl_regex import RegexRpl
 
-__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b(?!x)")
+__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b(?!x)|(?<=^|\s|\x1b)\x1b")
 __id_regex__ = regex.compile(r"[a-z0-9{}$]+")  # noqa: P103
 __versioned_regex__ = regex.compile(r"\s*\(.*?\)")
 __func_body_start_regex__ = regex.compile(r"\(\s*\)\s*\{")
-- 
2.43.0


From fcac84e1917d37790f78a21634e4fe1b51106263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 18/76] fix: map inline block placeholders one to one to the
 blocks they stand for

Repeated identical blocks and blocks next to evaluated ones were mixed up.
---
 oelint_parser/cls_stash.py | 3 ++-
 oelint_parser/parser.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..4348e1c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -726,7 +726,8 @@ class Stash():
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
         for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+            if item[1] == INLINE_BLOCK:
+                res = res.replace(*reversed(item), 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f87cd33..092aee4 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From bb98b45410519c027d0a0d60d64d640d74cd6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 19/76] fix: expand assignments regardless of the whitespace
 around the operator

---
 oelint_parser/cls_stash.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 4348e1c..ec6fbc8 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -495,31 +495,31 @@ class Stash():
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if INLINE_BLOCK in item.VarValueStripped:
                 _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
+            elif varop in ["=", ":="]:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ?= " and _exp[name] is None:
+            elif varop == "?=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ??= " and _exp[name] is None:
+            elif varop == "??=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " += ":
+            elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += " " + item.VarValueStripped
-            elif varop == " =+ ":
+            elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + " " + _exp[name]
-            elif varop in [" .= "]:
+            elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += item.VarValueStripped
-            elif varop in [" =. "]:
+            elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + _exp[name]
@@ -529,7 +529,7 @@ class Stash():
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
@@ -550,7 +550,7 @@ class Stash():
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-- 
2.43.0


From 38114f7f7fb8d1fb19965321250645f345dc71b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 20/76] fix: apply the operator of assignments holding an
 unevaluated inline block

Such values replaced the variable or leaked the internal placeholder.
---
 oelint_parser/cls_stash.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index ec6fbc8..837b21b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -499,30 +499,29 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
-                _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in ["=", ":="]:
-                _exp[name] = item.VarValueStripped
+            value = self._ReverseInlineBlock(item)
+            if varop in ["=", ":="]:
+                _exp[name] = value
             elif varop == "?=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == "??=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
+                _exp[name] += " " + value
             elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
+                _exp[name] = value + " " + _exp[name]
             elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -531,19 +530,20 @@ class Stash():
                 continue
             varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
+            value = self._ReverseInlineBlock(item)
             if name not in _exp.keys():
                 _exp[name] = None
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for the run with remove
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -557,7 +557,7 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _exp[name] = _exp[name].replace(self._ReverseInlineBlock(item), "")
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From 9d7db601a2f1708b8b736083c8ae3974e8dd02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 21/76] fix: let remove overrides drop whole entries only

As in bitbake 'foo' doesn't affect an entry 'foobar', and every listed entry is
removed. A leading remove override is not taken for an assignment anymore.
---
 oelint_parser/cls_stash.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 837b21b..f709126 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -533,10 +533,7 @@ class Stash():
             value = self._ReverseInlineBlock(item)
             if name not in _exp.keys():
                 _exp[name] = None
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += value
-            elif "append" in item.SubItems:
+            if "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += value
@@ -557,7 +554,8 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(self._ReverseInlineBlock(item), "")
+                _removed = Item.safe_linesplit(item.VarValueStripped)
+                _exp[name] = " ".join(x for x in Item.safe_linesplit(_exp[name]) if x not in _removed)
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From dd01ec73d6a7888c3e5b29512d157a431cfb7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 22/76] fix: treat ??= as the default of last resort when
 expanding

The last weak default applies, and only to variables that aren't set otherwise.
---
 oelint_parser/cls_stash.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f709126..acfd221 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -486,12 +486,14 @@ class Stash():
             "BPN": self.GuessBaseRecipeName(filename),
         }
         _exp = {**_exp, **CONSTANTS.SetsBase}
+        _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 if item.Flag:
                     continue
                 if item.VarName in _exp:
                     del _exp[item.VarName]
+                _weak.pop(item.VarName, None)
                 continue
             if not item.IsImmediateModify():
                 continue
@@ -504,8 +506,8 @@ class Stash():
                 _exp[name] = value
             elif varop == "?=" and _exp[name] is None:
                 _exp[name] = value
-            elif varop == "??=" and _exp[name] is None:
-                _exp[name] = value
+            elif varop == "??=":
+                _weak[name] = value
             elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
@@ -522,6 +524,10 @@ class Stash():
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = value + _exp[name]
+        # weak defaults only apply to what is still not set, last one wins
+        for name, value in _weak.items():
+            if _exp[name] is None:
+                _exp[name] = value
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
-- 
2.43.0


From 68a657363c5a3c01d322d161864c0acbc044e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:17 +0000
Subject: [PATCH 23/76] fix: keep spared references unexpanded in nested values
 as well

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index acfd221..f3a82c5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -768,7 +768,7 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -777,7 +777,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
-- 
2.43.0


From 13bad8df91e47307ea74ea006f4da3e61a82bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 24/76] fix: treat unreadable files and directories like
 missing ones

---
 oelint_parser/cls_stash.py | 2 +-
 oelint_parser/parser.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f3a82c5..60674cf 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -805,7 +805,7 @@ class Stash():
                     "file"), spare=spare, seen=seen).strip("'\"")
                 with open(_fullpath) as i:
                     res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+            except (OSError, ValueError):
                 res = ''
         return res
 
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 092aee4..129e896 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -227,7 +227,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
                         _iter, lineOffset, num, nextbuf, negative=negative)
                     num += length
                     prep_lines.append(item)
-    except FileNotFoundError:
+    except OSError:
         pass
     return prep_lines
 
-- 
2.43.0


From d72b5698c02bcc710524d840b0023fbe041a0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:44 +0000
Subject: [PATCH 25/76] fix: reset all cached query results when the stash
 changes

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 60674cf..2aaea09 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -140,13 +140,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 2333046abf627d4e910a0fad1e9125b72e4b76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 26/76] fix: ignore empty and malformed dynamic package
 patterns

An empty pattern made every name a dynamic package.
---
 oelint_parser/cls_stash.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2aaea09..6556cb5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -919,8 +919,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
         return packages_dynamic
 
@@ -937,7 +937,11 @@ class Stash():
         """
         expanded = self.ExpandTerm(_file, name)
         for pattern in self.GetPackagesDynamic(_file):
-            if RegexRpl.match(pattern, expanded):
-                return True
+            try:
+                if RegexRpl.match(pattern, expanded):
+                    return True
+            except regex.error:
+                # not a valid pattern, so it cannot match anything
+                continue
 
         return False
-- 
2.43.0


From 3e9ec1ab2bea6a308bddf40354a4da58cff0d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:14 +0000
Subject: [PATCH 27/76] fix: don't cut SRC_URI option values at an equals sign

---
 oelint_parser/cls_stash.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 6556cb5..5ed7e27 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -671,8 +671,7 @@ class Stash():
             _tmp += "/" + _url.path.lstrip("/")
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
-        _parsed_opt = {x.split("=")[0]: x.split("=")[1]
-                       for x in _options if "=" in x}
+        _parsed_opt = dict(x.split("=", 1) for x in _options if "=" in x)
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From fa84ceaae1472dd97daca74fb40e7bf84a8a5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 28/76] fix: return query results in a reproducible order

---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 5ed7e27..12cc126 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -334,7 +334,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -388,7 +388,7 @@ class Stash():
         """
         if not filename:
             return []
-        return [x.Origin for x in self.__get_items_by_file(frozenset(self.__list), filename) if x.Origin != filename]
+        return [x.Origin for x in self.__get_items_by_file(tuple(self.__list), filename) if x.Origin != filename]
 
     def Reduce(self,
                in_list: Iterable[Item],
@@ -425,7 +425,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue))
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From fc8e0b631bb3d9b8dcc0fd51c2cc66153472ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 29/76] fix: report items as included from those files only
 that include them

Finalize listed sibling files too and worked on links cached before.
---
 oelint_parser/cls_stash.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 12cc126..c2150ed 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -295,9 +295,12 @@ class Stash():
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
 
-        for k, v in self.__map.items():
+        # drop what has been cached based on the previous links
+        self._clear_cached()
+
+        for k in self.__map.keys():
             for item in self.GetItemsFor(k):
-                item.IncludedFrom = v
+                item.IncludedFrom = {k}
 
         # Reset caches
         self._clear_cached()
-- 
2.43.0


From 5195eb656bf8cd1693f090ceadee4cb6f153dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 30/76] fix: link a class to every recipe inheriting it, not
 only to the first one

---
 oelint_parser/cls_stash.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index c2150ed..cd71e78 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -175,6 +175,10 @@ class Stash():
         if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
             return []
         if _file in self.__seen_classes:
+            if forcedLink:
+                # the items are known already, but the link might be new
+                self.__map.setdefault(forcedLink, []).append(_file)
+                self._clear_cached()
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
-- 
2.43.0


From 21bb16c32a52ca0fa707051d0f924f47329ca8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 31/76] fix: don't recurse endlessly into files including each
 other

---
 oelint_parser/cls_stash.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index cd71e78..6f60a27 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -130,6 +130,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__active = []
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -174,9 +175,9 @@ class Stash():
         _, _ext = os.path.splitext(_file)
         if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
             return []
-        if _file in self.__seen_classes:
+        if _file in self.__seen_classes or _file in self.__active:
             if forcedLink:
-                # the items are known already, but the link might be new
+                # the items are known already or about to be, but the link might be new
                 self.__map.setdefault(forcedLink, []).append(_file)
                 self._clear_cached()
             return []
@@ -185,11 +186,15 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        self.__active.append(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__active.remove(_file)
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-- 
2.43.0


From a7af7e314370e9d9927052ca08daf1134a8acbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 32/76] fix: match appends to recipes by their literal name in
 any order

Special characters, e.g. in libsigc++, were taken as a pattern, and an append
loaded before its recipe matched every recipe starting with its name.
---
 oelint_parser/cls_stash.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 6f60a27..d319c98 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -204,11 +204,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if self.__is_append_for(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -216,14 +214,11 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
+                if self.__is_append_for(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
                     # pretend that we are adding that bbappend to the end of this recipe
                     item.Line = max(item.Line, item.InFileLine + _maxline)
@@ -240,6 +235,12 @@ class Stash():
 
         return res
 
+    def __is_append_for(self, append: str, recipe: str) -> bool:
+        _append, _ = os.path.splitext(os.path.basename(append))
+        _recipe, _ext = os.path.splitext(os.path.basename(recipe))
+        _pattern = ".*".join(regex.escape(x) for x in _append.split("%"))
+        return _ext == ".bb" and bool(RegexRpl.match(rf"{_pattern}\Z", _recipe))
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
-- 
2.43.0


From 2bb39be333c933488f6d81de33cb9a27a14eec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 33/76] fix: order items of included files at the place of the
 include statement

Lines of previously included and of nested files were not accounted for.
---
 oelint_parser/cls_stash.py | 15 +++++++++++++++
 oelint_parser/parser.py    | 18 ++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d319c98..0f068d6 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -235,6 +235,21 @@ class Stash():
 
         return res
 
+    def _AddNestedFile(self, _file: str, lineOffset: int, forcedLink: str) -> int:
+        """Adds a file included or inherited by another file
+
+        Args:
+            _file (str): Full path to file
+            lineOffset (int): Line of the statement that pulls in the file
+            forcedLink (str): Full path to the file containing that statement
+
+        Returns:
+            int: number of lines taken by the file and everything nested in it
+        """
+        _known = len(self.__list)
+        self.AddFile(_file, lineOffset=lineOffset, forcedLink=forcedLink)
+        return max((x.Line for x in self.__list[_known:]), default=lineOffset) - lineOffset
+
     def __is_append_for(self, append: str, recipe: str) -> bool:
         _append, _ = os.path.splitext(os.path.basename(append))
         _recipe, _ext = os.path.splitext(os.path.basename(recipe))
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 129e896..da5c006 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -344,10 +344,8 @@ def get_items(stash: object,
                             if inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset += stash._AddNestedFile(
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                     parameter['statement'] = m.group("statement")
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -371,10 +369,8 @@ def get_items(stash: object,
                             if inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset += stash._AddNestedFile(
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                     parameter['statement'] = 'INHERIT'
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -435,10 +431,8 @@ def get_items(stash: object,
                     if _path:
                         if includename in CONSTANTS.IncludeIgnore:
                             continue
-                        tmp = stash.AddFile(
-                            _path, lineOffset=line["line"], forcedLink=_file)
-                        if any(tmp):
-                            includeOffset += max([x.InFileLine for x in tmp])
+                        includeOffset += stash._AddNestedFile(
+                            _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                     parameter['incname'] = m.group("incname")
                     parameter['fileincluded'] = _path or ''
                     parameter['statement'] = m.group("statement")
-- 
2.43.0


From 3cb57e027ace63a27b45caf4e95a0627d8cb70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:15 +0000
Subject: [PATCH 34/76] fix: order items of an append after all items of its
 recipe

This includes files included by the recipe or the append, several appends and
appends that are loaded before the recipe.
---
 oelint_parser/cls_stash.py | 46 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0f068d6..ec8331b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -131,6 +131,7 @@ class Stash():
         self.__seen_files = set()
         self.__seen_classes = set()
         self.__active = []
+        self.__appends = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -186,6 +187,14 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
+        _known = len(self.__list)
+        if _ext == ".bbappend":
+            # pretend that we are adding the file to the end of the original
+            _recipes = [x for x in self.__map if self.__is_append_for(_file, x)]
+            for x in _recipes:
+                self.__map[x].append(_file)
+            _scope = {y for x in _recipes for y in self.__get_scope(x)}
+            lineOffset += max((x.Line for x in self.__list if x.Origin in _scope), default=0)
         self.__active.append(_file)
         try:
             res = get_items(self,
@@ -203,25 +212,19 @@ class Stash():
             self.__map[forcedLink].append(_file)
 
         # Match bbappends to bbs
-        if _file.endswith(".bbappend"):
-            _maxline = 0
-            for x in self.__map:
-                if self.__is_append_for(_file, x):
-                    self.__map[x].append(_file)
-                    _maxline = max(_maxline, max(
-                        (i.Line for i in self.__list if i.Origin == x), default=0))
-            for r in res:
-                # pretend that we are adding the file to the end of the original
-                r.Line += _maxline
-        elif _file.endswith(".bb"):
-            _maxline = max((r.Line for r in res), default=0)
-            for item in self.__list:
-                if not item.Origin.endswith(".bbappend"):
+        if _ext == ".bbappend":
+            self.__appends[_file] = self.__list[_known:] + res
+        elif _ext == ".bb":
+            _maxline = max((x.Line for x in self.__list[_known:] + res), default=0)
+            for append, items in self.__appends.items():
+                if not self.__is_append_for(append, _file):
                     continue
-                if self.__is_append_for(item.Origin, _file):
-                    self.__map[_file].append(item.Origin)
-                    # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+                self.__map[_file].append(append)
+                # pretend that we are adding that bbappend to the end of this recipe
+                _base = min((x.Line - x.InFileLine for x in items if x.Origin == append), default=0)
+                for item in items:
+                    item.Line += max(0, _maxline - _base)
+                _maxline = max((x.Line for x in items), default=_maxline)
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
@@ -235,6 +238,13 @@ class Stash():
 
         return res
 
+    def __get_scope(self, _file: str) -> List[str]:
+        # the file itself and all files directly or indirectly linked to it
+        res = [_file]
+        for x in res:
+            res += [y for y in dict.fromkeys(self.__map.get(x, [])) if y not in res]
+        return res
+
     def _AddNestedFile(self, _file: str, lineOffset: int, forcedLink: str) -> int:
         """Adds a file included or inherited by another file
 
-- 
2.43.0


From 975f05612d642fff55660d7c9fee4f6e530ee7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 35/76] fix: consider the directory of a file itself when
 looking for its layer root

---
 oelint_parser/cls_stash.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index ec8331b..156ff0a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -648,11 +648,11 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 return _curdir
+            if _curdir == os.path.dirname(_curdir):
+                break
+            _curdir = os.path.dirname(_curdir)
         return ""
 
     @functools.cache  # noqa: B019
@@ -670,14 +670,14 @@ class Stash():
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 if os.path.exists(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
+            if _curdir == os.path.dirname(_curdir):
+                break
+            _curdir = os.path.dirname(_curdir)
         return ""
 
     def _replace_with_known_mirrors(self, _in: dict) -> dict:
-- 
2.43.0


From 7c2e02f40cd20cb4d44f8d7846b466179361e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 36/76] fix: ignore single classes of an inherit and split them
 at any whitespace

---
 oelint_parser/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index da5c006..7ff1960 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -330,7 +330,8 @@ def get_items(stash: object,
                 elif k == "inherit":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
+                        _ignored = inh_item in CONSTANTS.ClassIgnore
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -341,7 +342,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if _ignored or inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             includeOffset += stash._AddNestedFile(
@@ -355,7 +356,8 @@ def get_items(stash: object,
                 elif k == "inherit_glob":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
+                        _ignored = inh_item in CONSTANTS.ClassIgnore
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -366,7 +368,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if _ignored or inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             includeOffset += stash._AddNestedFile(
-- 
2.43.0


From 7a2395cdec9d21c234882beb7ce0ad2acb3a9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 37/76] fix: don't keep references to dictionaries handed in to
 the constants

They were modified by later changes of the constants and the other way round.
---
 oelint_parser/constants.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..03e23f0 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -56,7 +57,7 @@ class Constants():
                 else:
                     a[k] += v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -90,7 +91,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From 91530b2a5797a22c783e26df8ba2e1668948dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 38/76] fix: remove mapping entries from the constants instead
 of breaking them

Removing a mirror or a base variable replaced it by a list of characters.
---
 oelint_parser/constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 03e23f0..105886e 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -71,8 +71,12 @@ class Constants():
                     pass
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
-                else:
+                elif isinstance(a[k], dict):
+                    a[k] = {x: y for x, y in a[k].items() if x not in v}
+                elif isinstance(a[k], list):
                     a[k] = [x for x in a[k] if x not in v]
+                else:
+                    del a[k]
             return a
         self.__db = dict_merge(self.__db, _dict)
 
-- 
2.43.0


From 0a09394dfcefc58aa61d06310bc3bf8826ae2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 39/76] fix: return an empty mapping for constant paths leading
 through a leaf

---
 oelint_parser/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 105886e..965200f 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -39,7 +39,7 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
-            data = data.get(value, {})
+            data = data.get(value, {}) if isinstance(data, dict) else {}
         return data
 
     def AddConstants(self, _dict: dict) -> None:
-- 
2.43.0


From fdb17bd5e2b756fb2c028b969904b3e8cd236b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 40/76] fix: let StashList support the operations of a list

extend did nothing, slicing, copying, concatenation and repetition raised, and
in-place concatenation gave up the type.
---
 oelint_parser/cls_stash.py | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 156ff0a..519ab5b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -39,13 +39,38 @@ class Stash():
             """
             self._stash = stash
             super().__init__()
-            self.data = items
+            self.data = list(items)
 
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
-        def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+        def __getitem__(self, index: Union[int, slice]) -> Union[Item, 'Stash.StashList']:
+            if isinstance(index, slice):
+                return Stash.StashList(self._stash, self.data[index])
+            return self.data[index]
+
+        def __add__(self, __value: Iterable) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data + list(__value))
+
+        def __radd__(self, __value: Iterable) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, list(__value) + self.data)
+
+        def __mul__(self, __value: int) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data * __value)
+
+        __rmul__ = __mul__
+
+        def __iadd__(self, __value: Iterable) -> 'Stash.StashList':
+            self.data += list(__value)
+            return self
+
+        def copy(self) -> 'Stash.StashList':
+            """Copy list
+
+            Returns:
+                Stash.StashList: shallow copy of the list
+            """
+            return Stash.StashList(self._stash, self.data)
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
@@ -62,8 +87,8 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.append(_item)
             else:
                 self.data.append(item)
@@ -74,8 +99,7 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            if isinstance(other, type(Stash.StashList)):
-                self.data.extend(other.data)
+            self.data.extend(list(other))
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
@@ -83,8 +107,8 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.remove(_item)
             else:
                 self.data.remove(item)
-- 
2.43.0


From c31b169a4636d00d72ca45a982467d67b99d31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 41/76] fix: don't let a timeout escape while iterating over
 regex matches

---
 oelint_parser/cls_stash.py | 6 +++---
 oelint_parser/rpl_regex.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 519ab5b..d809de5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -859,11 +859,11 @@ class Stash():
                 res = res.replace(
                     m.group(0), f'{quote}{os.path.dirname(_file)}{quote}')
             return res
-        for m in list(RegexRpl.finditer(__variable_pattern_regex__, value)):
+        for m in list(RegexRpl.finditer(__variable_pattern_regex__, value, default=[])):
             res = _expand(res, _file, m)
-        for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value)):
+        for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value, default=[])):
             res = _expand(res, _file, m, quote='"')
-        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value)):
+        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value, default=[])):
             try:
                 _fullpath = self.ExpandTerm(_file, m.group(
                     "file"), spare=spare, seen=seen).strip("'\"")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..61f0459 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -101,6 +101,7 @@ class RegexRpl():
             Scanner: Scanner object or None
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            # consume here, as the timeout is raised while iterating only
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
             return default
-- 
2.43.0


From 602b994501f5d073b46140a09ef806cbae387d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 42/76] fix: pass flags on to the regex engine when matching

---
 oelint_parser/parser.py    | 2 +-
 oelint_parser/rpl_regex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 7ff1960..6d32102 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -289,7 +289,7 @@ def get_items(stash: object,
             'realraw': line['realraw'],
         }
         for k, v in _order.items():
-            m = RegexRpl.match(v, line["cnt"], regex.regex.MULTILINE)
+            m = RegexRpl.match(v, line["cnt"])
             if m:
                 if k == "python":
                     parameter['name'] = m.group("funcname")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index 61f0459..e7ef500 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -61,7 +61,7 @@ class RegexRpl():
             Match: Match object or None
         """
         try:
-            return regex.match(pattern, string, timeout=timeout, **kwargs)
+            return regex.match(pattern, string, flags=flags, timeout=timeout, **kwargs)
         except TimeoutError:
             return default
 
-- 
2.43.0


From 6c195a933b41a8b36a82389d73b2e46da13d187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 43/76] fix: evaluate d.getVar only if it is the whole inline
 expression

d.getVar('A', True) turned into a broken reference and expressions that only
start with d.getVar, e.g. d.getVar('A').split()[0], into the plain value.
---
 oelint_parser/inlinerep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..adf630f 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -24,7 +24,8 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
+__d_getvar_regex__ = regex.compile(
+    r'\s*d\.getVar\(\s*(?P<quote>["\'])(?P<val>[^"\']+)(?P=quote)\s*(,\s*(expand\s*=\s*)?(True|False|1|0)\s*)?\)\s*$')
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
-- 
2.43.0


From 430f662814a2d1a852ccc1f38e51a12eef512c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 44/76] fix: avoid catastrophic backtracking in
 any/all_distro_features emulation

---
 oelint_parser/inlinerep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index adf630f..67b037c 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -13,9 +13,9 @@ __oe_utils_conditional_regex__ = regex.compile(
 __oe_utils_ifelse_regex__ = regex.compile(
     r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))?)?\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))?)?\)")
 __oe_utils_vartrue_regex__ = regex.compile(
     r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-- 
2.43.0


From 9bdcf4af9da63f17901be3bbb51fd161d3cd5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 45/76] fix: split modifiers off function names with repeated
 parts correctly

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index aff6a5b..9991ce3 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -229,9 +229,9 @@ class Item():
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
-        for i in chunks[1:]:
+        for index, i in enumerate(chunks[1:], start=1):
             if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
-                _suffix = chunks[chunks.index(i):]
+                _suffix = chunks[index:]
                 break
             else:
                 _var.append(i)
-- 
2.43.0


From 176bff990aae2eaf018372db996d354518373881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 46/76] fix: keep leading and repeated underscores in names

---
 oelint_parser/cls_item.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 9991ce3..8d9e873 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -207,7 +207,6 @@ class Item():
                 _suffix.append(i + tmp)
             else:
                 _var.append(i + tmp)
-        _var = [x for x in _var if x]
         _suffix = [x for x in _suffix if x]
         return (self.__OverrideDelimiter.join(_var), self.__OverrideDelimiter.join(_suffix))
 
@@ -235,7 +234,6 @@ class Item():
                 break
             else:
                 _var.append(i)
-        _var = [x for x in _var if x]
         _suffix = [x for x in _suffix if x]
         return (self.__OverrideDelimiter.join(_var), self.__OverrideDelimiter.join(_suffix))
 
-- 
2.43.0


From 55f7e3e7fa05cc83947ca8060644068a719386d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 47/76] fix: end a def block at any unindented line

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 6d32102..959ed06 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,7 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*(((?P<py>python(?=(\s|\()))|(?P<fr>fakeroot(?=\s)))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?!.*\}\s*$)")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
+__valid_func_name_regex__ = regex.compile(r"^\S")
 
 
 def get_full_scope(_string: str, offset: int, _sstart: int, _send: int) -> str:
-- 
2.43.0


From eb928baf7d7c56258d59a15c086c5861ce194ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 48/76] fix: split overrides off function names in the new
 override syntax

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 8d9e873..da2b563 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -229,7 +229,7 @@ class Item():
         _suffix = []
         _var = [chunks[0]]
         for index, i in enumerate(chunks[1:], start=1):
-            if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
+            if self.__OverrideDelimiter == ':' or i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
                 _suffix = chunks[index:]
                 break
             else:
-- 
2.43.0


From 3cfe126467ad91ffa047dedb7b29145d598d8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 49/76] fix: treat class-nativesdk as class override of
 functions

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index da2b563..970fa19 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -224,7 +224,7 @@ class Item():
         chunks = name.split(self.__OverrideDelimiter)
         if name in ['__anonymous']:
             return (name, '')
-        _marker = ["append", "prepend", "class-native",
+        _marker = ["append", "prepend", "class-native", "class-nativesdk",
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
@@ -741,7 +741,7 @@ class Function(Item):
             str -- machine specific modifier or ""
         """
         for x in self.SubItems:
-            if x not in ["append", "prepend", "class-native", "class-cross", "class-target", "remove", "machine"]:
+            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-cross", "class-target", "remove", "machine"]:
                 return x
         return ""
 
-- 
2.43.0


From 46bb58f9150acd0c1db7ebd8b32eb65fc5610be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 50/76] fix: don't cut arguments of inline helpers at commas
 inside of quotes or calls

---
 oelint_parser/inlinerep.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 67b037c..57fa2e2 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -2,28 +2,31 @@ import regex
 
 from oelint_parser.rpl_regex import RegexRpl
 
+# a single argument of a call, commas inside of quotes or nested calls don't end it
+__arg__ = r"""(?:[^,()'"\n]|'[^'\n]*'|"[^"\n]*"|\((?:[^()'"\n]|'[^'\n]*'|"[^"\n]*")*\))*?"""
+
 __bb_utils_filter_regex__ = regex.compile(
-    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?),.*?,.*?\)')
+    rf"(.*)bb\.utils\.filter\(\s*(?P<trueval>{__arg__})\s*,{__arg__},{__arg__}\)")
 __bb_utils_contains_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains_any\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
 __oe_utils_conditional_regex__ = regex.compile(
-    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.*?\)")
+    rf"(.*)oe\.utils\.conditional\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
 __oe_utils_ifelse_regex__ = regex.compile(
-    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
+    rf"(.*)oe\.utils\.ifelse\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))?)?\)")
+    rf"(.*)oe\.utils\.any_distro_features\({__arg__},\s*(?P<feature>{__arg__})\s*(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)?)?\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))?)?\)")
+    rf"(.*)oe\.utils\.all_distro_features\({__arg__},\s*(?P<feature>{__arg__})\s*(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)?)?\)")
 __oe_utils_vartrue_regex__ = regex.compile(
-    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.vartrue\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.version_less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
 __oe_utils_both_contain_regex__ = regex.compile(
-    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.both_contain\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,{__arg__}\)")
 __d_getvar_regex__ = regex.compile(
     r'\s*d\.getVar\(\s*(?P<quote>["\'])(?P<val>[^"\']+)(?P=quote)\s*(,\s*(expand\s*=\s*)?(True|False|1|0)\s*)?\)\s*$')
 
-- 
2.43.0


From ff7d2588c86e6709e493d8a4d84ef0d1c13cd203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 51/76] fix: don't leak inline block placeholders into package
 and resource names

---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d809de5..0d522da 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -895,7 +895,7 @@ class Stash():
             res.update(["{recipe}-{pkg}".format(recipe=_pn, pkg=x)
                         for x in ["src", "dbg", "staticdev", "dev", "doc", "locale"]])
             for item in _comp:
-                for pkg in [x for x in self.SafeLineSplit(self.ExpandTerm(_file, item.VarValueStripped, spare=["PN"])) if x]:
+                for pkg in [x for x in self.SafeLineSplit(self.ExpandTerm(_file, self._ReverseInlineBlock(item), spare=["PN"])) if x]:
                     if not strippn:
                         _pkg = pkg.replace("${PN}", _pn)
                     else:
@@ -919,7 +919,7 @@ class Stash():
         _recipe_name = self.GuessRecipeName(_file)
         res.add(_recipe_name)
         for item in _comp:
-            for name in [x for x in self.SafeLineSplit(item.VarValueStripped) if x]:
+            for name in [x for x in self.SafeLineSplit(self._ReverseInlineBlock(item)) if x]:
                 _url = self.GetScrComponents(name)
                 if "name" in _url["options"]:
                     res.add(_url["options"]["name"].replace(
@@ -981,7 +981,7 @@ class Stash():
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
             packages_dynamic.update(x for x in self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)) if x)
+                self.ExpandTerm(_file, self._ReverseInlineBlock(i))) if x)
 
         return packages_dynamic
 
-- 
2.43.0


From e459d2d33e4201d2e99d81f910741372300eaebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 52/76] fix: treat line continuations inside of inline blocks
 like any other

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0d522da..441cda2 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -795,7 +795,8 @@ class Stash():
         res = varref.VarValueStripped
         for item in varref.InlineBlocks:
             if item[1] == INLINE_BLOCK:
-                res = res.replace(*reversed(item), 1)
+                # line continuations are treated like in any other part of the value
+                res = res.replace(INLINE_BLOCK, item[0].replace("\\\n", "\x1b"), 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
-- 
2.43.0


From 940502f88d2bba23a0c1bf84a8a00fb748ade888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 53/76] fix: do not multiply repeated links of files including
 themselves

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 441cda2..a4a695c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -349,7 +349,7 @@ class Stash():
         """
         # cross link all the files
         for k in self.__map.keys():
-            for item in self.__map[k][:]:
+            for item in dict.fromkeys(self.__map[k]):
                 self.__map[k] += self.__map[item]
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
-- 
2.43.0


From 6c92fd2faa4b10c19d573565b406fd0c555695a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 54/76] fix: let % in bbappend names match any text

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index a4a695c..7a40471 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -287,7 +287,7 @@ class Stash():
     def __is_append_for(self, append: str, recipe: str) -> bool:
         _append, _ = os.path.splitext(os.path.basename(append))
         _recipe, _ext = os.path.splitext(os.path.basename(recipe))
-        _pattern = ".*".join(regex.escape(x) for x in _append.split("%"))
+        _pattern = "(?s:.*)".join(regex.escape(x) for x in _append.split("%"))
         return _ext == ".bb" and bool(RegexRpl.match(rf"{_pattern}\Z", _recipe))
 
     @property
-- 
2.43.0


From 85fa39e3423da20b5e0cfcc6f2bbef68aee28cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 55/76] fix: keep bbappends of a common recipe in order when
 another recipe is added

---
 oelint_parser/cls_stash.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7a40471..70b45b0 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -240,15 +240,19 @@ class Stash():
             self.__appends[_file] = self.__list[_known:] + res
         elif _ext == ".bb":
             _maxline = max((x.Line for x in self.__list[_known:] + res), default=0)
+            _moved = {}
             for append, items in self.__appends.items():
-                if not self.__is_append_for(append, _file):
-                    continue
-                self.__map[_file].append(append)
-                # pretend that we are adding that bbappend to the end of this recipe
-                _base = min((x.Line - x.InFileLine for x in items if x.Origin == append), default=0)
+                # appends of a common recipe stay in the order they were added
+                _shift = max((v for k, v in _moved.items() if any(k in x and append in x for x in self.__map.values())), default=0)
+                if self.__is_append_for(append, _file):
+                    self.__map[_file].append(append)
+                    # pretend that we are adding that bbappend to the end of this recipe
+                    _base = min((x.Line - x.InFileLine for x in items if x.Origin == append), default=0)
+                    _shift = max(_shift, _maxline - _base)
+                    _maxline = max((x.Line + _shift for x in items), default=_maxline)
                 for item in items:
-                    item.Line += max(0, _maxline - _base)
-                _maxline = max((x.Line for x in items), default=_maxline)
+                    item.Line += _shift
+                _moved[append] = _shift
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
-- 
2.43.0


From 5e3c32e5f882756f301ac64145ab9c54ac95c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 56/76] fix: let every added file count for the fingerprint

---
 oelint_parser/cls_stash.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 70b45b0..b8af052 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -261,6 +261,7 @@ class Stash():
         self._clear_cached()
 
         # update fingerprint
+        self.__fingerprint.update(repr(_file).encode())
         for item in res:
             self.__fingerprint.update(str(item).encode())
 
-- 
2.43.0


From 4cfc9c6ef9f9b8c96864e83d8e0c60c112096bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:04 +0000
Subject: [PATCH 57/76] fix: report ignored include statements as include items

---
 oelint_parser/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 959ed06..dc4269a 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -430,9 +430,7 @@ def get_items(stash: object,
                     includename = stash.ExpandTerm(_file, m.group("incname"))
                     _path = stash.FindLocalOrLayer(
                         includename, os.path.dirname(_file))
-                    if _path:
-                        if includename in CONSTANTS.IncludeIgnore:
-                            continue
+                    if _path and includename not in CONSTANTS.IncludeIgnore:
                         includeOffset += stash._AddNestedFile(
                             _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                     parameter['incname'] = m.group("incname")
-- 
2.43.0


From 472e205fe70ba01fe6fd50ce4680eba5e01be860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 58/76] fix: report the location of a SRC_URI entry as it is
 written

---
 oelint_parser/cls_stash.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b8af052..9793bda 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -729,13 +729,16 @@ class Stash():
         """
         _raw = self._replace_with_known_mirrors(string)
         try:
-            _url = urlparse(self._replace_with_known_mirrors(string))
+            _url = urlparse(_raw.split(";")[0])
         except ValueError:
             return {"scheme": '', "src": '', "options": {}}
         _scheme = _url.scheme
-        _tmp = _url.netloc
-        if _url.path:
-            _tmp += "/" + _url.path.lstrip("/")
+        if _scheme and "://" in _raw:
+            _tmp = _raw.split("://", 1)[1]
+        else:
+            _tmp = _url.netloc
+            if _url.path:
+                _tmp += "/" + _url.path.lstrip("/")
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
         _parsed_opt = dict(x.split("=", 1) for x in _options if "=" in x)
-- 
2.43.0


From babca21d7006095a1ac2acd42a9298abf12dcf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:57 +0000
Subject: [PATCH 59/76] fix: find files in directories with glob characters in
 their name

---
 oelint_parser/cls_stash.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9793bda..84e2cae 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -342,10 +342,10 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in glob.glob(os.path.join(_root, "conf", "distro", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "distro", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in glob.glob(os.path.join(_root, "conf", "machine", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "machine", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
@@ -657,9 +657,9 @@ class Stash():
         src_uris = self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                     attribute=Variable.ATTR_VAR, attributeValue="SRC_URI")
         files_paths = {
-            "{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern) for x in src_uris}
+            "{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern) for x in src_uris}
         for item in src_uris:
-            files_paths.update({"{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern)
+            files_paths.update({"{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern)
                                 for x in self.GetItemsFor(filename=item.Origin)})
         for item in files_paths:
             res.update(glob.glob(item))
-- 
2.43.0


From a73d854a30a070c12a921fef44be60bc2d1b6e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 60/76] fix: don't fail on files that are not valid UTF-8

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index dc4269a..7983acd 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -200,7 +200,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
     """
     try:
         prep_lines = []
-        with open(_file) as i:
+        with open(_file, errors='surrogateescape') as i:
             _iter = enumerate(i.readlines())
             nextbuf = ''
             num = 1
-- 
2.43.0


From 87a40fabb30ee51c9fe0c20e3d2e701ee7c58f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 61/76] fix: treat only backslashes in front of a line end as
 line continuation

---
 oelint_parser/cls_item.py | 2 +-
 oelint_parser/parser.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 970fa19..e10537f 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -7,7 +7,7 @@ import regex
 from oelint_parser.constants import CONSTANTS
 from oelint_parser.rpl_regex import RegexRpl
 
-__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b(?!x)|(?<=^|\s|\x1b)\x1b")
+__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b")
 __id_regex__ = regex.compile(r"[a-z0-9{}$]+")  # noqa: P103
 __versioned_regex__ = regex.compile(r"\s*\(.*?\)")
 __func_body_start_regex__ = regex.compile(r"\(\s*\)\s*\{")
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 7983acd..30232cd 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,6 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*(((?P<py>python(?=(\s|\()))|(?P<fr>fakeroot(?=\s)))\s*)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?!.*\}\s*$)")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
+__continuation_regex__ = regex.compile(r"\\(?=[^\S\n]*(\n|\Z))")
 __valid_func_name_regex__ = regex.compile(r"^\S")
 
 
@@ -183,7 +184,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
-           "cnt": raw_line.replace("\n", "").replace("\\", chr(0x1b))}
+           "cnt": RegexRpl.sub(__continuation_regex__, chr(0x1b), raw_line, default=raw_line).replace("\n", "")}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From ce83ee84c3b7a68b6b2a9847e6190b3a1efce586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 62/76] fix: don't report values holding a literal \x1b as
 multiline

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index e10537f..d06c360 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -429,7 +429,7 @@ class Variable(Item):
         Returns:
             bool -- True if multiline
         """
-        return "\\x1b" in self.Raw or "\\\n" in self.Raw
+        return "\x1b" in self.Raw or "\\\n" in self.Raw
 
     def GetDistroEntry(self) -> str:
         """Get distro specific entries in variable
-- 
2.43.0


From 443c3b6100a389b53cb4175d66d7b68ca5ea62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 63/76] fix: keep the text around an expanded read_file block

---
 oelint_parser/cls_stash.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 84e2cae..03f9247 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -21,7 +21,7 @@ __variable_pattern_regex__ = regex.compile(r"\$\{(.+?)\}")
 __variable_pattern_regex_2__ = regex.compile(
     r"d.getVar\(.(.+?).(True|False|,|\s+)*\)")
 __oe_utils_read_file_regex__ = regex.compile(
-    r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
+    r"\$\{@\s*(?:[^{}]*)oe\.utils\.read_file\((?P<file>(?:(?!\$\{@).)*?)\)\s*\}")
 
 
 class Stash():
@@ -825,6 +825,21 @@ class Stash():
         spare = spare or []
         if INLINE_BLOCK in value and objref is not None:
             value = self._ReverseInlineBlock(objref)
+        _blocks = list(RegexRpl.finditer(__oe_utils_read_file_regex__, value, default=[]))
+        if _blocks:
+            # replace the blocks by what they read, expand everything around them
+            res = ""
+            _pos = 0
+            for m in _blocks:
+                res += self.ExpandTerm(_file, value[_pos:m.start()], spare=spare, seen=seen)
+                try:
+                    _fullpath = self.ExpandTerm(_file, m.group("file"), spare=spare, seen=seen).strip(" \t'\"")
+                    with open(_fullpath) as i:
+                        res += i.read()
+                except (OSError, ValueError):
+                    pass
+                _pos = m.end()
+            return res + self.ExpandTerm(_file, value[_pos:], spare=spare, seen=seen)
         res = str(value)
 
         def _expand(res, _file, m, quote: str = ''):
@@ -872,14 +887,6 @@ class Stash():
             res = _expand(res, _file, m)
         for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value, default=[])):
             res = _expand(res, _file, m, quote='"')
-        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value, default=[])):
-            try:
-                _fullpath = self.ExpandTerm(_file, m.group(
-                    "file"), spare=spare, seen=seen).strip("'\"")
-                with open(_fullpath) as i:
-                    res = i.read()
-            except (OSError, ValueError):
-                res = ''
         return res
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From 1bf12966e3abaae19666640acaf7353fbfe15083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 64/76] fix: consider the unsets of a file only when expanding
 without links

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 03f9247..4c2bf67 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -543,7 +543,8 @@ class Stash():
                                 nolink=nolink)
 
         _res += self.GetItemsFor(filename=filename,
-                                 classifier=Unset.CLASSIFIER)
+                                 classifier=Unset.CLASSIFIER,
+                                 nolink=nolink)
 
         if filename is None:
             if _res:
-- 
2.43.0


From 98bf71a0ce73c405c6c7d01eb7147b634919c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:54 +0000
Subject: [PATCH 65/76] fix: don't let callers alter cached query results

---
 oelint_parser/cls_stash.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 4c2bf67..f645edf 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1,9 +1,10 @@
+import copy
 import functools
 import glob
 import hashlib
 import os
 from collections import UserList
-from typing import Iterable, List, Set, Union
+from typing import Any, Callable, Iterable, List, Set, Union
 from urllib.parse import urlparse
 
 import regex
@@ -24,6 +25,18 @@ __oe_utils_read_file_regex__ = regex.compile(
     r"\$\{@\s*(?:[^{}]*)oe\.utils\.read_file\((?P<file>(?:(?!\$\{@).)*?)\)\s*\}")
 
 
+def _cache_copied(func: Callable) -> Callable:
+    # cache results that the caller might alter, so everyone gets a copy of their own
+    _cached = functools.cache(func)
+
+    @functools.wraps(func)
+    def _wrapper(*args, **kwargs) -> Any:
+        return copy.deepcopy(_cached(*args, **kwargs))
+
+    _wrapper.cache_clear = _cached.cache_clear
+    return _wrapper
+
+
 class Stash():
     """The Stash object is the central storage for extracting the bitbake information."""
 
@@ -369,7 +382,7 @@ class Stash():
         # Reset caches
         self._clear_cached()
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetRecipes(self) -> None:
         """Get bb files in stash
 
@@ -378,7 +391,7 @@ class Stash():
         """
         return sorted({x for x in self.__map if x.endswith(".bb")})
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetLoneAppends(self) -> List[str]:
         """Get bbappend without a matching bb
 
@@ -394,7 +407,7 @@ class Stash():
                     x for x in v if x.endswith('.bbappend'))
         return sorted({x for x in __appends if x not in __linked_appends})
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetConfFiles(self) -> List[str]:
         """Get configurations files
 
@@ -403,7 +416,7 @@ class Stash():
         """
         return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetBBClasses(self) -> List[str]:
         """Get bbclass files
 
@@ -443,7 +456,7 @@ class Stash():
 
         return [x for x in items if _filter(x, attname, attvalue)]
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetLinksForFile(self, filename: str) -> List[str]:
         """Get file which this file is linked against
 
@@ -643,7 +656,7 @@ class Stash():
                 self.ExpandTerm(filename, v or ""))
         return _finalexp
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetFiles(self, _file: str, pattern: str) -> List[str]:
         """Get files matching SRC_URI entries
 
@@ -718,7 +731,7 @@ class Stash():
             _in = _in.replace(k, v)
         return _in
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetScrComponents(self, string: str) -> dict:
         """Return SRC_URI components
 
@@ -745,7 +758,7 @@ class Stash():
         _parsed_opt = dict(x.split("=", 1) for x in _options if "=" in x)
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def SafeLineSplit(self, string: str) -> List[str]:
         """Split line in a safe manner
 
@@ -890,7 +903,7 @@ class Stash():
             res = _expand(res, _file, m, quote='"')
         return res
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetValidPackageNames(self, _file: str, strippn: bool = False) -> List[str]:
         """Get known valid names for packages
 
@@ -920,7 +933,7 @@ class Stash():
                     res.add(_pkg)
         return res
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetValidNamedResources(self, _file: str) -> List[str]:
         """Get list of valid SRCREV resource names
 
@@ -981,7 +994,7 @@ class Stash():
             filename=_file, classifier=Inherit.CLASSIFIER)
         return any(x for x in _inherits if "packagegroup" in x.get_items())
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def GetPackagesDynamic(self, _file: str) -> Set[str]:
         """returns set of dynamic package patterns defined for _file
 
-- 
2.43.0


From 60d8dad6b19dc89b11a7f8bc9e986b36ec962e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 66/76] fix: report values as multiline with white space behind
 the continuation mark

---
 oelint_parser/cls_item.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index d06c360..25055c5 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -9,6 +9,7 @@ from oelint_parser.rpl_regex import RegexRpl
 
 __safeline_split_regex__ = regex.compile(r"\s|\t|\x1b")
 __id_regex__ = regex.compile(r"[a-z0-9{}$]+")  # noqa: P103
+__continuation_regex__ = regex.compile(r"\\[^\S\n]*\n")
 __versioned_regex__ = regex.compile(r"\s*\(.*?\)")
 __func_body_start_regex__ = regex.compile(r"\(\s*\)\s*\{")
 
@@ -429,7 +430,7 @@ class Variable(Item):
         Returns:
             bool -- True if multiline
         """
-        return "\x1b" in self.Raw or "\\\n" in self.Raw
+        return "\x1b" in self.Raw or RegexRpl.search(__continuation_regex__, self.Raw) is not None
 
     def GetDistroEntry(self) -> str:
         """Get distro specific entries in variable
-- 
2.43.0


From da97a9183b797bca2b8c5ee944fc1faf86c44d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 67/76] fix: functions built without python or fakeroot are
 neither

The constructor's documented defaults (False) made both reports true.
---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 25055c5..2339f8f 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -629,8 +629,8 @@ class Function(Item):
             fakeroot {bool} -- uses fakeroot (default: {False})
         """
         super().__init__(*args, **kwargs)
-        self.__IsPython = python is not None
-        self.__IsFakeroot = fakeroot is not None
+        self.__IsPython = bool(python)
+        self.__IsFakeroot = bool(fakeroot)
         name = name or ""
         self.__FuncName, self.__SubItem = self.extract_sub_func(name.strip())
         self.__SubItems = [x for x in self.SubItem.split(
-- 
2.43.0


From 4e6bea235602a811095a3084e5903988f64bd7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:15 +0000
Subject: [PATCH 68/76] fix: don't answer with what was cached before the
 constants changed

Queries depend on the constants (mirrors, base set, image classes and
variables), so their cached results are bound to the constants' state.
---
 oelint_parser/cls_stash.py | 13 ++++++++-----
 oelint_parser/constants.py | 13 +++++++++++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f645edf..7800002 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -26,12 +26,15 @@ __oe_utils_read_file_regex__ = regex.compile(
 
 
 def _cache_copied(func: Callable) -> Callable:
-    # cache results that the caller might alter, so everyone gets a copy of their own
-    _cached = functools.cache(func)
+    # cache results that the caller might alter, so everyone gets a copy of their own,
+    # and that have to be determined anew once the constants change
+    @functools.cache
+    def _cached(_state: object, *args, **kwargs) -> Any:
+        return func(*args, **kwargs)
 
     @functools.wraps(func)
     def _wrapper(*args, **kwargs) -> Any:
-        return copy.deepcopy(_cached(*args, **kwargs))
+        return copy.deepcopy(_cached(CONSTANTS.State, *args, **kwargs))
 
     _wrapper.cache_clear = _cached.cache_clear
     return _wrapper
@@ -956,7 +959,7 @@ class Stash():
                         "${PN}", _recipe_name))
         return res
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def IsImage(self, _file: str) -> bool:
         """returns if the file is likely an image recipe or not
 
@@ -1015,7 +1018,7 @@ class Stash():
 
         return packages_dynamic
 
-    @functools.cache  # noqa: B019
+    @_cache_copied
     def IsDynamicPackage(self, _file: str, name: str) -> bool:
         """returns if the name is likely a dynamic package or not
 
diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 965200f..a0dc89e 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -18,6 +18,7 @@ class Constants():
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
         self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
+        self.__state = object()
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -58,6 +59,7 @@ class Constants():
                     a[k] += v
             return a
         self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
+        self.__state = object()
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -79,6 +81,7 @@ class Constants():
                     del a[k]
             return a
         self.__db = dict_merge(self.__db, _dict)
+        self.__state = object()
 
     def OverrideConstants(self, _dict: dict) -> None:
         """Override constants in the existing db
@@ -96,6 +99,16 @@ class Constants():
                     a[k] = v
             return a
         self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
+        self.__state = object()
+
+    @property
+    def State(self) -> object:
+        """Token of the current set of constants
+
+        Returns:
+            object: a different one after each change
+        """
+        return self.__state
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From 966aefe5a8953f74cdb5cb0c17dc0e0b19dca93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:41 +0000
Subject: [PATCH 69/76] fix: read files of any kind as often as they are
 included

Files with an extension other than the common ones were left out, and not
even linked, the second time they were included.
---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7800002..f5565fc 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -214,7 +214,7 @@ class Stash():
         """
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
-        if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
+        if _file in self.__seen_files and _ext == ".bbappend":
             return []
         if _file in self.__seen_classes or _file in self.__active:
             if forcedLink:
-- 
2.43.0


From 7fa20349078ea465965e3bb91aa26ccb3816b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:56 +0000
Subject: [PATCH 70/76] fix: expand references within the names of references

---
 oelint_parser/cls_stash.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f5565fc..7a9462b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -18,7 +18,8 @@ __safeline_split_regex__ = regex.compile(r"\s|\t|\x1b")
 __class_id_regex__ = regex.compile(r"^(nativesdk-)*(.+)(-native)*(-cross)*")
 __class_id_native_regex__ = regex.compile(r"^(.+)(-native)$")
 __class_id_cross_regex__ = regex.compile(r"^(.+)(-cross)$")
-__variable_pattern_regex__ = regex.compile(r"\$\{(.+?)\}")
+__variable_pattern_regex__ = regex.compile(r"\$\{((?:(?!\$\{)[^}\n])+)\}")
+__variable_nested_regex__ = regex.compile(r"\$\{[^}\n]*\$\{")
 __variable_pattern_regex_2__ = regex.compile(
     r"d.getVar\(.(.+?).(True|False|,|\s+)*\)")
 __oe_utils_read_file_regex__ = regex.compile(
@@ -900,10 +901,16 @@ class Stash():
                 res = res.replace(
                     m.group(0), f'{quote}{os.path.dirname(_file)}{quote}')
             return res
-        for m in list(RegexRpl.finditer(__variable_pattern_regex__, value, default=[])):
-            res = _expand(res, _file, m)
-        for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value, default=[])):
-            res = _expand(res, _file, m, quote='"')
+        # references that are part of another one have to be expanded first
+        _rounds = value.count("${") if RegexRpl.search(__variable_nested_regex__, value) else 1
+        for _ in range(_rounds):
+            for m in list(RegexRpl.finditer(__variable_pattern_regex__, value, default=[])):
+                res = _expand(res, _file, m)
+            for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value, default=[])):
+                res = _expand(res, _file, m, quote='"')
+            if res == value:
+                break
+            value = res
         return res
 
     @_cache_copied
-- 
2.43.0


From fb1cb0f1bca2a1e3d898569a4c4644ad7a88f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:44 +0000
Subject: [PATCH 71/76] fix: filter by empty and false attribute values

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7a9462b..b196dbc 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -499,7 +499,7 @@ class Stash():
         if not isinstance(attribute, (list, set, tuple)):
             attribute = [attribute] if attribute else []
         if not isinstance(attributeValue, (list, set, tuple)):
-            attributeValue = [attributeValue] if attributeValue else []
+            attributeValue = [attributeValue] if attributeValue is not None else []
         if filename:
             in_list = self.__get_items_by_file(
                 tuple(in_list), filename, nolink=nolink)
-- 
2.43.0


From 9b8a1f4b727db48676cde94b2db0d3bfb3496d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:59 +0000
Subject: [PATCH 72/76] fix: expand references to the value after all
 assignments

---
 oelint_parser/cls_stash.py | 46 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b196dbc..408351c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -568,12 +568,27 @@ class Stash():
                 filename = _res[0].Origin
             else:
                 return {}
-        _exp = {
+        _exp = {**self.__get_builtins(filename), **CONSTANTS.SetsBase}
+        _exp = self.__get_effective(_res, _exp)
+        # final run and explode the settings
+        _finalexp = {}
+        for k, v in _exp.items():
+            _newkey = self.ExpandTerm(filename, k)
+            if _newkey not in _finalexp:
+                _finalexp[_newkey] = []
+            _finalexp[_newkey] += Item.safe_linesplit(
+                self.ExpandTerm(filename, v or ""))
+        return _finalexp
+
+    def __get_builtins(self, filename: str) -> dict:
+        return {
             "PN": self.GuessRecipeName(filename),
             "PV": self.GuessRecipeVersion(filename) or "1.0",
             "BPN": self.GuessBaseRecipeName(filename),
         }
-        _exp = {**_exp, **CONSTANTS.SetsBase}
+
+    def __get_effective(self, _res: Iterable[Union[Variable, Unset]], _exp: dict) -> dict:
+        # values after applying all assignments, references are kept
         _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -650,15 +665,7 @@ class Stash():
                     _exp[name] = ""
                 _removed = Item.safe_linesplit(item.VarValueStripped)
                 _exp[name] = " ".join(x for x in Item.safe_linesplit(_exp[name]) if x not in _removed)
-        # final run and explode the settings
-        _finalexp = {}
-        for k, v in _exp.items():
-            _newkey = self.ExpandTerm(filename, k)
-            if _newkey not in _finalexp:
-                _finalexp[_newkey] = []
-            _finalexp[_newkey] += Item.safe_linesplit(
-                self.ExpandTerm(filename, v or ""))
-        return _finalexp
+        return _exp
 
     @_cache_copied
     def GetFiles(self, _file: str, pattern: str) -> List[str]:
@@ -859,22 +866,23 @@ class Stash():
                 _pos = m.end()
             return res + self.ExpandTerm(_file, value[_pos:], spare=spare, seen=seen)
         res = str(value)
+        _known = {**self.__get_builtins(_file), **baseset}
 
         def _expand(res, _file, m, quote: str = ''):
             if m.group(1) in spare:
                 return res
-            _comp = [x for x in self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
-                                                 attribute=Variable.ATTR_VAR, attributeValue=m.group(1)) if not x.AppendOperation()]
-            if any(_comp):
+            _comp = self.GetItemsFor(filename=_file, classifier=[Variable.CLASSIFIER, Unset.CLASSIFIER],
+                                     attribute=Variable.ATTR_VAR, attributeValue=m.group(1))
+            _value = None
+            if _comp and (m.group(1) in _known or not all(isinstance(x, Unset) or x.AppendOperation() for x in _comp)):
+                _values = self.__get_effective(_comp, {k: v for k, v in _known.items() if k == m.group(1)})
+                _value = next((x for x in [_values.get(m.group(1)), *_values.values()] if x is not None), None)
+            if _value is not None:
                 if m.group(1) in seen.keys():
                     _rpl = seen[m.group(1)]
                 else:
                     seen[m.group(1)] = ""
-                    if INLINE_BLOCK in _comp[0].VarValueStripped:
-                        cnt = self._ReverseInlineBlock(_comp[0])
-                    else:
-                        cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
+                    _rpl = self.ExpandTerm(_file, _value, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
-- 
2.43.0


From f5efdfecf8609bb7b3fcde92812116ab91175705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:45 +0000
Subject: [PATCH 73/76] fix: remove entries named by references

---
 oelint_parser/cls_stash.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 408351c..c2852db 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -569,7 +569,7 @@ class Stash():
             else:
                 return {}
         _exp = {**self.__get_builtins(filename), **CONSTANTS.SetsBase}
-        _exp = self.__get_effective(_res, _exp)
+        _exp = self.__get_effective(_res, _exp, lambda x: self.ExpandTerm(filename, x))
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
@@ -587,8 +587,8 @@ class Stash():
             "BPN": self.GuessBaseRecipeName(filename),
         }
 
-    def __get_effective(self, _res: Iterable[Union[Variable, Unset]], _exp: dict) -> dict:
-        # values after applying all assignments, references are kept
+    def __get_effective(self, _res: Iterable[Union[Variable, Unset]], _exp: dict, expand: Callable[[str], str]) -> dict:
+        # values after applying all assignments, references are only expanded if entries are to be removed
         _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -663,8 +663,8 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _removed = Item.safe_linesplit(item.VarValueStripped)
-                _exp[name] = " ".join(x for x in Item.safe_linesplit(_exp[name]) if x not in _removed)
+                _removed = Item.safe_linesplit(expand(self._ReverseInlineBlock(item)))
+                _exp[name] = " ".join(x for x in Item.safe_linesplit(expand(_exp[name])) if x not in _removed)
         return _exp
 
     @_cache_copied
@@ -873,15 +873,17 @@ class Stash():
                 return res
             _comp = self.GetItemsFor(filename=_file, classifier=[Variable.CLASSIFIER, Unset.CLASSIFIER],
                                      attribute=Variable.ATTR_VAR, attributeValue=m.group(1))
-            _value = None
             if _comp and (m.group(1) in _known or not all(isinstance(x, Unset) or x.AppendOperation() for x in _comp)):
-                _values = self.__get_effective(_comp, {k: v for k, v in _known.items() if k == m.group(1)})
-                _value = next((x for x in [_values.get(m.group(1)), *_values.values()] if x is not None), None)
-            if _value is not None:
                 if m.group(1) in seen.keys():
                     _rpl = seen[m.group(1)]
                 else:
                     seen[m.group(1)] = ""
+                    _values = self.__get_effective(_comp, {k: v for k, v in _known.items() if k == m.group(1)},
+                                                   lambda x: self.ExpandTerm(_file, x, spare=spare, seen=seen))
+                    _value = next((x for x in [_values.get(m.group(1)), *_values.values()] if x is not None), None)
+                    if _value is None:
+                        del seen[m.group(1)]
+                        return res
                     _rpl = self.ExpandTerm(_file, _value, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
-- 
2.43.0


From e684ade8d6fea248ed31aef8ffc48c073f2e98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:28 +0000
Subject: [PATCH 74/76] fix: keep the body of def helpers defined with a tab

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 30232cd..acc1c15 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -148,7 +148,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
                 except StopIteration:
                     stopiter = True
                     next_ = ''
-        elif res.strip().startswith("def "):
+        elif res.strip().startswith(("def ", "def\t")):
             stopiter = False
             while not stopiter:
                 try:
-- 
2.43.0


From aea4dbe3a2454a80d012d549be67fabaa3b9aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:18 +0000
Subject: [PATCH 75/76] fix: keep quotes that are part of a conditional's
 branch

---
 oelint_parser/inlinerep.py | 47 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 57fa2e2..0e72025 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -31,6 +31,13 @@ __d_getvar_regex__ = regex.compile(
     r'\s*d\.getVar\(\s*(?P<quote>["\'])(?P<val>[^"\']+)(?P=quote)\s*(,\s*(expand\s*=\s*)?(True|False|1|0)\s*)?\)\s*$')
 
 
+def _unquote(_in: str) -> str:
+    # only the enclosing quotes, others are part of the string
+    if len(_in) > 1 and _in[0] == _in[-1] and _in[0] in "\"'":
+        return _in[1:-1]
+    return _in
+
+
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     """bb.utils.filter emulation
 
@@ -47,7 +54,7 @@ def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -66,8 +73,8 @@ def bb_utils_contains(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -86,8 +93,8 @@ def bb_utils_contains_any(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_any_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -106,8 +113,8 @@ def oe_utils_conditional(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_conditional_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -126,8 +133,8 @@ def oe_utils_ifelse(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_ifelse_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -148,8 +155,8 @@ def oe_utils_any_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return _unquote(falseval)
+        return _unquote(trueval)
     return None
 
 
@@ -170,8 +177,8 @@ def oe_utils_all_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return _unquote(falseval)
+        return _unquote(trueval)
     return None
 
 
@@ -190,8 +197,8 @@ def oe_utils_vartrue(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_vartrue_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -210,8 +217,8 @@ def oe_utils_less_or_equal(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -230,8 +237,8 @@ def oe_utils_version_less_or_equal(_in: str, negative_clause: bool = False) -> s
     m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -251,7 +258,7 @@ def oe_utils_both_contain(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return _unquote(m.group('trueval'))
     return None
 
 
-- 
2.43.0


From 085fed763c5abab358808915415ffe7a62108a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:32 +0000
Subject: [PATCH 76/76] fix: only expand conditionals that are the whole inline
 block

A call that is part of another expression was replaced by one of its branches,
as was the outer one of nested calls by a branch of the inner one. Branches that
are no literals were inserted as source text.
---
 oelint_parser/inlinerep.py | 80 +++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 0e72025..9c8c0c5 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -3,39 +3,47 @@ import regex
 from oelint_parser.rpl_regex import RegexRpl
 
 # a single argument of a call, commas inside of quotes or nested calls don't end it
-__arg__ = r"""(?:[^,()'"\n]|'[^'\n]*'|"[^"\n]*"|\((?:[^()'"\n]|'[^'\n]*'|"[^"\n]*")*\))*?"""
+__string__ = r"""'[^'\n]*'|"[^"\n]*\""""
+__nested__ = rf"""\((?:[^()'"\n]|{__string__})*\)"""
+for _ in range(3):
+    __nested__ = rf"""\((?:[^()'"\n]|{__string__}|{__nested__})*\)"""
+__arg__ = rf"""(?:[^,()'"\n]|{__string__}|{__nested__})*?"""
 
 __bb_utils_filter_regex__ = regex.compile(
-    rf"(.*)bb\.utils\.filter\(\s*(?P<trueval>{__arg__})\s*,{__arg__},{__arg__}\)")
+    rf"\s*bb\.utils\.filter\(\s*(?P<trueval>{__arg__})\s*,{__arg__},{__arg__}\)\s*$")
 __bb_utils_contains_regex__ = regex.compile(
-    rf"(.*)bb\.utils\.contains\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
+    rf"\s*bb\.utils\.contains\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)\s*$")
 __bb_utils_contains_any_regex__ = regex.compile(
-    rf"(.*)bb\.utils\.contains_any\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
+    rf"\s*bb\.utils\.contains_any\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)\s*$")
 __oe_utils_conditional_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.conditional\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
+    rf"\s*oe\.utils\.conditional\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)\s*$")
 __oe_utils_ifelse_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.ifelse\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*\)")
+    rf"\s*oe\.utils\.ifelse\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*\)\s*$")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.any_distro_features\({__arg__},\s*(?P<feature>{__arg__})\s*(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)?)?\)")
+    rf"\s*oe\.utils\.any_distro_features\({__arg__},\s*(?P<feature>{__arg__})\s*(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)?)?\)\s*$")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.all_distro_features\({__arg__},\s*(?P<feature>{__arg__})\s*(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)?)?\)")
+    rf"\s*oe\.utils\.all_distro_features\({__arg__},\s*(?P<feature>{__arg__})\s*(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)?)?\)\s*$")
 __oe_utils_vartrue_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.vartrue\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
+    rf"\s*oe\.utils\.vartrue\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)\s*$")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
+    rf"\s*oe\.utils\.less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)\s*$")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.version_less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)")
+    rf"\s*oe\.utils\.version_less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,{__arg__}\)\s*$")
 __oe_utils_both_contain_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.both_contain\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,{__arg__}\)")
+    rf"\s*oe\.utils\.both_contain\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,{__arg__}\)\s*$")
+__quoted_regex__ = regex.compile(rf"({__string__})$")
+__literal_regex__ = regex.compile(r"(True|False|None|-?\d+(\.\d+)?)?$")
 __d_getvar_regex__ = regex.compile(
     r'\s*d\.getVar\(\s*(?P<quote>["\'])(?P<val>[^"\']+)(?P=quote)\s*(,\s*(expand\s*=\s*)?(True|False|1|0)\s*)?\)\s*$')
 
 
-def _unquote(_in: str) -> str:
-    # only the enclosing quotes, others are part of the string
-    if len(_in) > 1 and _in[0] == _in[-1] and _in[0] in "\"'":
+def _get_value(_in: str, negative_clause: bool) -> str:
+    if RegexRpl.match(__quoted_regex__, _in):
         return _in[1:-1]
-    return _in
+    if RegexRpl.match(__literal_regex__, _in):
+        return _in
+    # the branch can be another call
+    return inlinerep(_in, negative_clause)
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
@@ -54,7 +62,7 @@ def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return _unquote(m.group('trueval'))
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -73,8 +81,8 @@ def bb_utils_contains(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_regex__, _in)
     if m:
         if negative_clause:
-            return _unquote(m.group('falseval'))
-        return _unquote(m.group('trueval'))
+            return _get_value(m.group('falseval'), negative_clause)
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -93,8 +101,8 @@ def bb_utils_contains_any(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_any_regex__, _in)
     if m:
         if negative_clause:
-            return _unquote(m.group('falseval'))
-        return _unquote(m.group('trueval'))
+            return _get_value(m.group('falseval'), negative_clause)
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -113,8 +121,8 @@ def oe_utils_conditional(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_conditional_regex__, _in)
     if m:
         if negative_clause:
-            return _unquote(m.group('falseval'))
-        return _unquote(m.group('trueval'))
+            return _get_value(m.group('falseval'), negative_clause)
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -133,8 +141,8 @@ def oe_utils_ifelse(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_ifelse_regex__, _in)
     if m:
         if negative_clause:
-            return _unquote(m.group('falseval'))
-        return _unquote(m.group('trueval'))
+            return _get_value(m.group('falseval'), negative_clause)
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -155,8 +163,8 @@ def oe_utils_any_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return _unquote(falseval)
-        return _unquote(trueval)
+            return _get_value(falseval, negative_clause)
+        return _get_value(trueval, negative_clause)
     return None
 
 
@@ -177,8 +185,8 @@ def oe_utils_all_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return _unquote(falseval)
-        return _unquote(trueval)
+            return _get_value(falseval, negative_clause)
+        return _get_value(trueval, negative_clause)
     return None
 
 
@@ -197,8 +205,8 @@ def oe_utils_vartrue(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_vartrue_regex__, _in)
     if m:
         if negative_clause:
-            return _unquote(m.group('falseval'))
-        return _unquote(m.group('trueval'))
+            return _get_value(m.group('falseval'), negative_clause)
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -217,8 +225,8 @@ def oe_utils_less_or_equal(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return _unquote(m.group('falseval'))
-        return _unquote(m.group('trueval'))
+            return _get_value(m.group('falseval'), negative_clause)
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -237,8 +245,8 @@ def oe_utils_version_less_or_equal(_in: str, negative_clause: bool = False) -> s
     m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return _unquote(m.group('falseval'))
-        return _unquote(m.group('trueval'))
+            return _get_value(m.group('falseval'), negative_clause)
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
@@ -258,7 +266,7 @@ def oe_utils_both_contain(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return _unquote(m.group('trueval'))
+        return _get_value(m.group('trueval'), negative_clause)
     return None
 
 
-- 
2.43.0

