From b320952af63b2cac4cb75b995763aa153babc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 01/34] fix: do not crash on bytes that are neither UTF-8 nor
 cp1252

Bytes 81, 8d, 8f, 90 and 9d have no meaning in cp1252, so decoding the
line a second time raised UnicodeDecodeError.
---
 asterisklint/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d14a1a4..1006c56 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -98,7 +98,7 @@ class EncodingReader(object):
                 data = data.decode('utf-8')
             except UnicodeDecodeError:
                 E_FILE_UTF8_BAD(where)
-                data = data.decode('cp1252')  # or latin1? or 9?
+                data = data.decode('cp1252', 'replace')  # or latin1? or 9?
             yield where, data
 
 
-- 
2.43.0


From 939dbf9bb5f0b7645c9c73271d5a15f59063690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 02/34] fix: accept reopened contexts that have a comment or
 template

---
 asterisklint/configobj.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 94f2f21..ff6b6d5 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -61,9 +61,7 @@ class Context(object):
 
     def update(self, othercontext):
         assert self.name == othercontext.name
-        assert not othercontext.comment
         self.where = othercontext.where  # or not?
-        assert not othercontext._templates
         assert not othercontext._varsets
 
     def add(self, varset):
-- 
2.43.0


From 9e20d4f88c565d494b0b0519ce1c57c0ea554ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:04 +0000
Subject: [PATCH 03/34] fix: merge a second [general] context instead of
 crashing

Context has no extend() method.
---
 asterisklint/dialplan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 52983dc..89251dc 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -120,7 +120,8 @@ class Dialplan(object):
             W_CONF_CTX_DUPE(general.where, previous=self._general.where)
             # BEWARE: make sure we use a ref to the NEW context, because
             # we may be appending to that object...!!
-            self._general.extend(general)
+            general._varsets[0:0] = self._general._varsets
+            self._general = general
         else:
             if self._globals or self.contexts:
                 H_DP_GENERAL_MISPLACED(general.where)
-- 
2.43.0


From 1e4873528fe5a78343d2293bc56a845d90f803af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 04/34] fix: report exten without a priority instead of
 crashing

---
 asterisklint/dialplan.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 89251dc..6e01ef1 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -474,7 +474,11 @@ class DialplanVarset(object):
         if varset.variable in ('exten', 'same'):
             expect_varset_arrow(varset)
             if varset.variable == 'exten':
-                pattern, rest = varset.value.split(',', 1)
+                try:
+                    pattern, rest = varset.value.split(',', 1)
+                except ValueError:
+                    E_DP_PRIO_MISSING(varset.where)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From 28239dad7f73ca6c91eff972aba169028ee835e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 05/34] fix: pass the label to the invalid label message

---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 6e01ef1..db336b8 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -503,7 +503,7 @@ class DialplanVarset(object):
 
             if label is not None:
                 if not label.endswith(')'):
-                    E_DP_LABEL_INVALID(varset.where)
+                    E_DP_LABEL_INVALID(varset.where, label=label)
                     return None
                 label = label[0:-1]
                 # TODO: check label validity
-- 
2.43.0


From 1cc952d50cca86eb27622b41ca07ee2937f80bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 06/34] fix: do not crash on digits that are not decimal

str.isdigit() accepts e.g. superscripts, which int() rejects.
---
 asterisklint/dialplan.py | 4 ++--
 asterisklint/varfun.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index db336b8..cd37f2f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -451,7 +451,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdigit():
+            if isinstance(g_prio, str) and g_prio.isdecimal():
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -492,7 +492,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdigit():
+            elif prio.isdecimal():
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 28ade07..cf539d3 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -398,8 +398,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdigit() or
-                    (start[0] == '-' and start[1:].isdigit()))):
+                    start.isdecimal() or
+                    (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
                 start = length = None
@@ -410,8 +410,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdigit() or
-                    (length[0] == '-' and length[1:].isdigit()))):
+                    length.isdecimal() or
+                    (length[0] == '-' and length[1:].isdecimal()))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-- 
2.43.0


From 076f3497985b651e324862555dd3b7ad9588769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 07/34] fix: report patterns with an unterminated or empty set

list.index() raises ValueError, not IndexError, and an empty set has no
first character. Both ended in an exception; E_DP_PAT_INVALID was never
used.
---
 asterisklint/dialplan.py |  3 +++
 asterisklint/pattern.py  | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index cd37f2f..13b316d 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -511,6 +511,9 @@ class DialplanVarset(object):
                 label = None
 
             pattern = pattern and Pattern(pattern, varset.where) or None
+            if pattern and not pattern.is_valid:
+                E_DP_PAT_INVALID(varset.where)
+                return None
             app = App(app, varset.where)
             return Extension(pattern, prio, label, app, varset.comment,
                              varset.where)
diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 4615a2b..b171649 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -110,7 +110,7 @@ class Pattern(object):
     def parse(cls, raw):
         "Takes str, returns tuple."
         if not raw:
-            return tuple(-1, (0x40000,))  # bad pattern
+            return (-1, (0x40000,))  # bad pattern
 
         if raw[0] == '_':
             return tuple([Pattern.IS_A_PATTERN] + cls.parse_pattern(raw[1:]))
@@ -141,10 +141,14 @@ class Pattern(object):
             elif num == 0x5b:           # '['
                 try:
                     range_end = raw.index(0x5d)  # ']'
-                except IndexError:
+                except ValueError:
                     # TODO: raise error!
                     ret.append((0x40000,))
                     return ret
+                if not range_end:
+                    # Empty set, this cannot match anything.
+                    ret.append((0x40000,))
+                    return ret
                 ret.append(cls.parse_range_list(raw[0:range_end]))
                 raw = raw[(range_end + 1):]  # drop ']'
             else:
@@ -196,6 +200,10 @@ class Pattern(object):
 
         return (num,)
 
+    @property
+    def is_valid(self):
+        return self.values[-1] != (0x40000,)
+
     @property
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
-- 
2.43.0


From 4aa3057e004d6b6c71bedaf3e9dcc059a693ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 08/34] fix: do not crash on dynamic or empty function names

---
 asterisklint/varfun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index cf539d3..b1ea06e 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -135,9 +135,8 @@ class FuncLoader(metaclass=Singleton):
         # SOURCE: main/pbx.c -- ast_func_read2, func_args
         for i, char in enumerate(func_and_args):
             if char == '(':
-                func = func_and_args[0:i]
+                func = Var.join(func_and_args[0:i])
                 break
-        assert func  # we only get here if there is a '('
 
         # Search backwards for the trailing ')'.
         tail = ''
@@ -168,7 +167,7 @@ class FuncLoader(metaclass=Singleton):
         if isinstance(func, Var):
             # We won't be able to match any real functions. And you
             # should get a big fat warning.
-            W_FUNC_DYNAMIC(where, func=func)
+            W_FUNC_DYNAMIC(where, data=func_and_args)
 
             if start is not None:
                 return ReadFuncSlice(func, args, start=start, length=length)
-- 
2.43.0


From 3c03c375a38f2e5b512f5af94753d8bd67f0040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 09/34] fix: do not crash on odd function names in assignments

---
 asterisklint/varfun.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index b1ea06e..e285d3b 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -187,13 +187,17 @@ class FuncLoader(metaclass=Singleton):
         """
         if '(' in func_and_args:
             func, args = func_and_args.split('(', 1)
-            assert args[-1] == ')'  # FIXME: warn, don't raise
-            args = args[0:-1]
+            args = Var.join(args[0:-1])  # drop trailing parenthesis
         else:
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
             # argument."
-            args = ''
+            func, args = func_and_args, ''
+
+        # We won't be able to match any real functions.
+        if isinstance(func, Var):
+            W_FUNC_DYNAMIC(where, data=func_and_args)
+            return WriteFunc(func, args)
 
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
-- 
2.43.0


From 47728bc3c67f630987ca24592f41d1efe8ca6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 10/34] fix: do not crash on variable slice offsets, report the
 bad value

The offset may be a variable, which cannot be compared to zero. And the
messages always said "None", because the value was reset too soon.
---
 asterisklint/varfun.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index e285d3b..8f039ec 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -405,8 +405,8 @@ class VarLoader(metaclass=Singleton):
                     (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
+                E_VAR_SUBSTR_START(where, start=start)
                 start = length = None
-                E_VAR_SUBSTR_START(where, start=None)
 
         if length is not None:
             if isinstance(length, Var):
@@ -418,16 +418,18 @@ class VarLoader(metaclass=Singleton):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-                if length == 0 or (start < 0 and -length <= start):
-                    length = None
+                if length == 0 or (
+                        isinstance(start, int) and
+                        start < 0 and -length <= start):
                     E_VAR_SUBSTR_LENGTH(where, length=length)
+                    length = None
             else:
                 E_VAR_SUBSTR_LENGTH(where, length=length)
                 start = length = None
 
         # If start is 0 and there is no length, it makes no sense.
         if start == 0 and not length:
+            E_VAR_SUBSTR_START(where, start=start)
             start = None
-            E_VAR_SUBSTR_START(where, start=None)
 
         return varname, start, length
-- 
2.43.0


From 93e1495af7701c9d89994a07c65e9b259834da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 11/34] fix: do not crash on empty variables and expressions

---
 asterisklint/expression.py | 2 +-
 asterisklint/variable.py   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 51cda58..652dee5 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -31,6 +31,6 @@ class Expr(Var):
         super().__init__(name=expression)
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '$[{}]'.format(self.name)
         return super().__str__()
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 8fab989..51283eb 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -79,7 +79,7 @@ class Var(object):
             Var('${number}23').could_match('123') == True
             Var('${user}@${domain}').could_match('somelabel') == False
         """
-        if self.name:  # this is a plain variable, it could match anything
+        if self.name is not None:  # this is a plain variable, it could match anything
             return True
 
         re_joined = ''.join(
@@ -168,13 +168,13 @@ class Var(object):
         return self.name == other.name
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
-        if self.name:
+        if self.name is not None:
             list_ = [self.name]  # [name]  # (start, length)
         else:
             list_ = self._list   # [contents...]  # (start, length)
@@ -226,7 +226,7 @@ class Var(object):
         return split_up
 
     def strip(self):
-        if self.name:
+        if self.name is not None:
             return self  # no (deep)copy?
 
         new_list = self._list[:]
-- 
2.43.0


From 4b7aba54cec65021cf7a24afd7204c5727075e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:17 +0000
Subject: [PATCH 12/34] fix: do not loop forever on Goto/GotoIf with too many
 arguments

---
 asterisklint/app/vall/builtin.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 28409ad..8a63d78 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -17,6 +17,7 @@ from ..base import (
     AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
     NoPipeDelimiterMixin, VarCondIfStyleApp)
 
+from asterisklint.variable import Var
 from asterisklint.varfun import VarLoader
 
 
@@ -65,6 +66,20 @@ class Congestion(BuiltinAppBase):
     pass
 
 
+def _args_to_destination(args):
+    # jumpdest = [[context,]exten,]prio
+    jumpdest = args[:]  # don't touch caller args
+    if len(jumpdest) > 3:
+        # See: ast_parseable_goto(); the priority is all of the rest.
+        excess = [jumpdest[2]]
+        for arg in jumpdest[3:]:
+            excess.extend((',', arg))
+        jumpdest[2:] = [Var.join(excess)]
+    while len(jumpdest) < 3:
+        jumpdest.insert(0, None)
+    return tuple(jumpdest)
+
+
 class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
            AppBase):
     def __init__(self, **kwargs):
@@ -73,11 +88,7 @@ class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
     def __call__(self, data, where, jump_destinations):
         args = super().__call__(data, where, jump_destinations)
 
-        jumpdest = args[:]
-        while len(jumpdest) != 3:
-            jumpdest.insert(0, None)
-        assert len(jumpdest) == 3
-        jump_destinations.append(tuple(jumpdest))
+        jump_destinations.append(_args_to_destination(args))
 
         return args
 
@@ -90,10 +101,7 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
         for args in (iftrue, iffalse):
             if args:
                 jumpdest = self.separate_args(args)
-                while len(jumpdest) != 3:
-                    jumpdest.insert(0, None)
-                assert len(jumpdest) == 3
-                jump_destinations.append(tuple(jumpdest))
+                jump_destinations.append(_args_to_destination(jumpdest))
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From fa9fc172892c18652d19d7b1dc9f974579bbb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 13/34] fix: do not glue comma separated GotoIf/GosubIf
 destinations together

---
 asterisklint/app/vall/app_stack.py | 5 ++++-
 asterisklint/app/vall/builtin.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index c81db78..9453d51 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -90,7 +90,10 @@ class GosubIf(VarCondIfStyleApp, _GosubMixin):
 
         for args in (iftrue, iffalse):
             if args:
-                jumpdest = self.separate_args(args)
+                if isinstance(args, list):  # old style, already split
+                    jumpdest = args
+                else:
+                    jumpdest = self.separate_args(args)
                 jump_destinations.append(
                     self._gosub_args_to_destination(jumpdest, where))
 
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 8a63d78..cbd57fd 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -100,7 +100,10 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
 
         for args in (iftrue, iffalse):
             if args:
-                jumpdest = self.separate_args(args)
+                if isinstance(args, list):  # old style, already split
+                    jumpdest = args
+                else:
+                    jumpdest = self.separate_args(args)
                 jump_destinations.append(_args_to_destination(jumpdest))
 
         return cond, iftrue, iffalse
-- 
2.43.0


From 44dd07f06d0b6f0d509bef43f20f245239cefee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 14/34] fix: keep the Gosub priority a string or Var

Slicing a Var may yield a list, which cannot be looked up later.
---
 asterisklint/app/vall/app_stack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index 9453d51..bb55e71 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -59,10 +59,10 @@ class _GosubMixin:
             if token == '(':
                 if prio[-1] != ')':
                     W_APP_BALANCE(where, data=prio)
-                    args = prio[(i + 1):]
+                    args = Var.join(prio[(i + 1):])
                 else:
-                    args = prio[(i + 1):-1]
-                prio = prio[0:i]
+                    args = Var.join(prio[(i + 1):-1])
+                prio = Var.join(prio[0:i])
                 break
 
         # FYI: The args are parsed by Asterisk using AST_STANDARD_RAW_ARGS.
-- 
2.43.0


From 14e56197614d97a28bd2cbdf985436d02c1c629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:19 +0000
Subject: [PATCH 15/34] fix: do not crash on ExecIf with dynamic or old style
 actions

---
 asterisklint/app/vall/app_exec.py |  2 +-
 asterisklint/application.py       | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 2374939..f389859 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -46,7 +46,7 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
-        if iftrue:
+        if iftrue and not isinstance(iftrue, list):  # not old style
             App(iftrue, where=where)
         if iffalse:
             App(iffalse, where=where)
diff --git a/asterisklint/application.py b/asterisklint/application.py
index cc069c8..199cf48 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -19,6 +19,7 @@ from .app import E_APP_MISSING
 from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .varfun import VarLoader, VarParseError
+from .variable import Var
 from .version import AsteriskVersion
 
 
@@ -160,7 +161,7 @@ class App(object):
         except ValueError:
             # We allow NoOp without parentheses. The others need parens.
             app = self.raw
-            if self.raw.lower() != 'noop':
+            if not isinstance(app, Var) and app.lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
             data = '()'
         else:
@@ -170,6 +171,14 @@ class App(object):
         if data.startswith('(') and data.endswith(')'):
             data = data[1:-1]
 
+        # The app name may be built up from variables if we're called from
+        # ExecIf; then there is nothing we can look up.
+        if isinstance(app, Var):
+            self.app = str(app)
+            self.app_lower = self.app.lower()
+            self.data = data
+            return False
+
         # Set it and try to find a handler for it.
         self.app = app
         self.app_lower = app.lower()
-- 
2.43.0


From 8b5737a25d470d41a238ce180a7b4fe87def7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:20 +0000
Subject: [PATCH 16/34] fix: do not recurse endlessly through circular includes

---
 asterisklint/dialplan.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 13b316d..772d6db 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -285,10 +285,16 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority):
+    def match_pattern(self, extension, priority, seen=None):
         """
         Find the best matching extension for the priority.
         """
+        # Contexts may include each other: look in every context once.
+        seen = set() if seen is None else seen
+        if (self.name, extension) in seen:
+            return None
+        seen.add((self.name, extension))
+
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
             if pattern.matches_extension(extension):
@@ -315,7 +321,7 @@ class DialplanContext(Context):
                 # warn about that somewhere else.
                 pass
             else:
-                ret = context.match_pattern(extension, priority)
+                ret = context.match_pattern(extension, priority, seen)
                 if ret:
                     return ret
 
@@ -337,7 +343,7 @@ class DialplanContext(Context):
             # There is no clemency for non-existent labels, only for
             # non-existent priorities.
             if isinstance(priority, int):
-                return self.match_pattern('i', 1)
+                return self.match_pattern('i', 1, seen)
 
         return None
 
-- 
2.43.0


From ae01dfc8447ebb3aca60397cb70105e9799c693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 17/34] fix: use UTF-8 on both sides when matching extensions

Patterns are stored as UTF-8 bytes, but were compared to and converted
back through latin1: non-ASCII extensions never matched, always looked
non-canonical and some raised UnicodeEncodeError.
---
 asterisklint/pattern.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index b171649..150d6c5 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -217,22 +217,23 @@ class Pattern(object):
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
             if self.values[0] == self.NOT_A_PATTERN:
-                # Hrm.. latin1 here.. not so nice.
                 ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:]).decode('latin1')
+                            for i in self.values[1:]).decode(
+                                'utf-8', 'surrogateescape')
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
                     self.values[-1] == (0x30000,)):
                 ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:-1]).decode('latin1')
+                            for i in self.values[1:-1]).decode(
+                                'utf-8', 'surrogateescape')
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
                 # up.
                 assert self.values[0] == self.IS_A_PATTERN
                 ret = ('_' + self._canonical_pattern_range(
-                    self.values[1:-1]).decode('latin1'))
+                    self.values[1:-1]).decode('utf-8', 'surrogateescape'))
             self._canonical_pattern = ret
         return self._canonical_pattern
 
@@ -341,28 +342,29 @@ class Pattern(object):
         if self.values[0] == Pattern.NOT_A_PATTERN:
             for value in self.values[1:]:
                 assert len(value) == 1, self.values
-                ret.append(chr(value[0] & 0xff))
+                ret.append(value[0] & 0xff)
         elif self.values[0] == Pattern.IS_A_PATTERN:
             for value in self.values[1:]:
                 if value[0] == 0x18000:
-                    ret.append('0-123456789-333')  # 1+ chars
+                    ret.extend(b'0-123456789-333')  # 1+ chars
                 elif value[0] == 0x28000:
-                    ret.append('-123456789-333')  # 0+ chars
+                    ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
                 else:
-                    ret.append(chr(value[0] & 0xff))
+                    ret.append(value[0] & 0xff)
         else:
             assert False, self.values  # what pattern?
 
-        return ''.join(ret)
+        return bytes(ret).decode('utf-8', 'surrogateescape')
 
     def matches_extension(self, extension):
         """
         Check if the extension matches this pattern.
         """
         i = -1
-        for i, char in enumerate(extension.replace('-', '').encode('latin1')):
+        for i, char in enumerate(extension.replace('-', '').encode(
+                'utf-8', 'surrogateescape')):
             try:
                 value = self.values[i + 1]
             except IndexError:
-- 
2.43.0


From 39ec563ae36318427285482e2d46f7d5c9029b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 18/34] fix: do not match extensions that are longer than the
 pattern

---
 asterisklint/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 150d6c5..b917c65 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -370,8 +370,10 @@ class Pattern(object):
             except IndexError:
                 return False  # extension is longer than pattern
 
-            if value[0] in (0x18000, 0x28000, 0x30000):
+            if value[0] in (0x18000, 0x28000):
                 return True
+            elif value[0] == 0x30000:
+                return False  # extension is longer than pattern
             elif len(value) == 2:
                 if char not in value[1]:
                     return False
-- 
2.43.0


From 388d1c9553a63ea483ba44248e38d3a0bbd92450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 19/34] fix: do not crash on #include of a filename with a NUL
 byte

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 79ff51f..9c5b575 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -175,7 +175,7 @@ class ConfigParser(object):
             try:
                 self.include(os.path.join(os.path.dirname(where.filename),
                                           rest))
-            except OSError:
+            except (OSError, ValueError):  # ValueError for NUL bytes
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
 
-- 
2.43.0


From 04678c991c770bb8a70fe2c636aa6198700c5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 20/34] fix: refuse files that include themselves

A single self-include was read over and over until the file descriptors
ran out, two of them (2^1000 reads) never ended.
---
 asterisklint/file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index 1006c56..b813285 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -13,6 +13,9 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+import errno
+import os
+
 from .defines import ErrorDef, WarningDef
 from .where import Where
 
@@ -65,6 +68,12 @@ class BinFileReader(object):
         self._opener = opener
 
     def include(self, filename):
+        # A file that is still being read cannot be included again, that
+        # would never end.
+        if os.path.realpath(filename) in [
+                os.path.realpath(i) for i in self._filenames]:
+            raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), filename)
+
         fp = self._opener(filename)
 
         if hasattr(fp, 'mode'):
-- 
2.43.0


From 21169ac692ad61fd87853591c33dfb5c42635940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:46 +0000
Subject: [PATCH 21/34] fix: report unknown commands without a traceback

---
 asterisklint/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d1071e2..a64905c 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -116,7 +116,8 @@ def load_command(command, command_path=None):
             if os.path.isfile(command_path):
                 break
         else:
-            raise ImportError('No dir found for command {!r}'.format(command))
+            raise NoSuchCommand(
+                'No dir found for command {!r}'.format(command))
 
     command_mod_name = 'asterisklint.commands.{}'.format(command)
 
-- 
2.43.0


From 3e848efc19ad0a1a24d4eab83a148342e6611b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:47 +0000
Subject: [PATCH 22/34] fix: recognise contexts with templates longer than one
 character

The quantifier was inside the character class, so [foo](bar) was reported
as a bad line and its contents ended up in the previous context.
---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 9c5b575..fc24283 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -84,7 +84,7 @@ class ConfigParser(object):
 
     regexes = (
         # [context](template1,template2)
-        (re.compile(r'^(\s*)\[([^]]*)\]\s*\(([^)\+])\)$'),
+        (re.compile(r'^(\s*)\[([^]]*)\]\s*\(([^)]+)\)$'),
          (lambda comment, where, match: Context(
              name=match.groups()[1], templates=match.groups()[2],
              comment=comment, bolspace=match.groups()[0], where=where))),
-- 
2.43.0


From 54ab4ca3586b57267cb694f1f19d385a3df78576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:57 +0000
Subject: [PATCH 23/34] fix: resolve relative symlinks before mutating a file

The link target was taken relative to the current directory, and a link
to a link got replaced.
---
 asterisklint/helper/mutator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 37c6566..b2d55aa 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -61,10 +61,7 @@ class FileMutatorBase(object):
 
     def process_file(self, filename):
         # If filename is a symlink, process the target.
-        try:
-            disk_filename = os.readlink(filename)
-        except OSError:
-            disk_filename = filename
+        disk_filename = os.path.realpath(filename)
 
         # Place the tempfile in the same dir, so renaming works
         # (same device).
-- 
2.43.0


From 812ec74c941e6c4eb2136ed8372251670f5781b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 24/34] fix: do not crash on INC/DEC of a dynamic variable name

---
 asterisklint/func/vall/func_math.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/func/vall/func_math.py b/asterisklint/func/vall/func_math.py
index 33077ea..d0f19f4 100644
--- a/asterisklint/func/vall/func_math.py
+++ b/asterisklint/func/vall/func_math.py
@@ -28,7 +28,8 @@ class INC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if isinstance(data, str):  # otherwise the name is not known
+            VarLoader().count_var(data, where)
         return ret
 
 
@@ -39,7 +40,8 @@ class DEC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if isinstance(data, str):  # otherwise the name is not known
+            VarLoader().count_var(data, where)
         return ret
 
 
-- 
2.43.0


From c54f1a4546d9c138603695cc58a08faa9a78f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:15 +0000
Subject: [PATCH 25/34] fix: do not crash on function calls with a variable
 slice offset

---
 asterisklint/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 51283eb..30a548d 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -252,7 +252,7 @@ class SliceMixin(object):
         super().__init__(*args, **kwargs)
         self.start = start
         self.length = length
-        if length is not None and isinstance(length, int):
+        if isinstance(length, int) and isinstance(start, int):
             assert length != 0
             if length < 0:
                 self._endpos = length
-- 
2.43.0


From 62c10d82c92e76d74fe76169592fdcc2e7a1667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 26/34] fix: do not list a closing bracket in canonical pattern
 sets

---
 asterisklint/pattern.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index b917c65..991b37a 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -268,7 +268,7 @@ class Pattern(object):
                         start = num & 0xff
                         if length == 2:
                             ret.extend([0x5b, start, start + 1, 0x5d])
-                        elif length == 3:
+                        elif length == 3 and start + 1 != 0x5d:
                             ret.extend([0x5b, start, start + 1, start + 2,
                                         0x5d])
                         else:
@@ -286,9 +286,6 @@ class Pattern(object):
         dash = (0x2d in binstr)
         if dash:
             binstr.remove(0x2d)
-        if (0x5d in binstr):
-            binstr.remove(0x5d)
-            ret.append(0x5d)
         ranges = self._canonical_pattern_get_ranges(binstr)
         # Reorder ranges: first numeric and alpha, and then the rest.
         # (Does this cause trouble if the dash is in a range?)
@@ -299,7 +296,8 @@ class Pattern(object):
             else:
                 assert len(range_) == 2
                 length = range_[1] - range_[0] + 1
-                if length <= 3:
+                # A ']' cannot be listed; it can only be inside a range.
+                if length <= 3 and range_[0] + 1 != 0x5d:
                     ret.extend([range_[0] + i for i in range(length)])
                 else:
                     ret.extend([range_[0], 0x2d, range_[1]])
-- 
2.43.0


From 78c37314b36bd7def1fae07573cc73d6de80f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 27/34] fix: keep canonical patterns with an underscore or dash
 a pattern

---
 asterisklint/pattern.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 991b37a..6c7c7de 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -223,7 +223,10 @@ class Pattern(object):
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
-            elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
+            # (A leading underscore or any dash would change its meaning.)
+            elif (all(i[0] < 0x200 and i[0] != 0x12d
+                      for i in self.values[1:-1]) and
+                    self.values[1] not in ((0x15f,), (0x30000,)) and
                     self.values[-1] == (0x30000,)):
                 ret = bytes((i[0] & 0xff)
                             for i in self.values[1:-1]).decode(
-- 
2.43.0


From 9780607f7cc7b21a13afc0806e64178750df1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:01 +0000
Subject: [PATCH 28/34] fix: do not report stray brackets and plain dashes as
 non-canonical

---
 asterisklint/pattern.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 6c7c7de..81736d1 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -70,7 +70,7 @@ class Pattern(object):
     NOT_A_PATTERN = 0
     IS_A_PATTERN = 1
 
-    RE_NO_DASH = re_compile(r'(\[.[^]]*\]|[^][-]+)')
+    RE_NO_DASH = re_compile(r'(\[[^]]+\]|[^-])')
 
     # Pattern heeft equality tests zodat "s-zap" == "s-[1-9]ap", maar emit
     # wel een warning als je hier iets anders neerzet! (Zelfde verhaal
@@ -208,7 +208,10 @@ class Pattern(object):
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
             # Strip dashes from the raw version.
-            raw_no_dash = ''.join(self.RE_NO_DASH.findall(self.raw))
+            if self.values[0] == self.NOT_A_PATTERN:
+                raw_no_dash = self.raw.replace('-', '')
+            else:
+                raw_no_dash = ''.join(self.RE_NO_DASH.findall(self.raw))
             # Compare the dashless version with the canonical one.
             self._is_canonical = (raw_no_dash == self.canonical_pattern)
         return self._is_canonical
-- 
2.43.0


From 216061c4839c6bb04e6cebe7b56f0aeb05b05eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 29/34] fix: do not use an ignored dash in example extensions

---
 asterisklint/pattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 81736d1..85fec29 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -355,6 +355,9 @@ class Pattern(object):
                     ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
+                elif value[0] & 0xff == 0x2d and value[0] >= 0x200:
+                    # Dashes are ignored in extensions: take the next.
+                    ret.append(value[1][1] if len(value) == 2 else 0x2e)
                 else:
                     ret.append(value[0] & 0xff)
         else:
-- 
2.43.0


From 5a8729c6804a2e8e9d17e1dd01e61f539ffc583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 30/34] fix: keep the jumps of applications wrapped in ExecIf

---
 asterisklint/app/vall/app_exec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index f389859..76ae8e3 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -47,9 +47,11 @@ class ExecIf(VarCondIfStyleApp):
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
         if iftrue and not isinstance(iftrue, list):  # not old style
-            App(iftrue, where=where)
+            jump_destinations.extend(
+                App(iftrue, where=where).jump_destinations)
         if iffalse:
-            App(iffalse, where=where)
+            jump_destinations.extend(
+                App(iffalse, where=where).jump_destinations)
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From 44b6e3fe84ad1922ba37764ed6a872bc122d2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 31/34] fix: do not take a variable slice for the whole
 variable

---
 asterisklint/variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 30a548d..d37e8a7 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -289,6 +289,10 @@ class VarDynSlice(Var):
         self.start = start
         self.length = length
 
+    def format(self, **kwargs):
+        # The offsets are variable, so we do not know what would be left.
+        raise KeyError(str(self))
+
     def __str__(self):
         if self.length:
             return '${{{}:{}:{}}}'.format(
-- 
2.43.0


From 9e2b7dd713945774b3a7ddf513a05b072cb2ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 32/34] fix: keep an opening bracket in a set in canonical
 patterns

---
 asterisklint/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 85fec29..33003c5 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -252,6 +252,7 @@ class Pattern(object):
             0x28000: 0x21,  # '!'
         }
         special = set([0x21, 0x2d, 0x2e,  # '!', '-', '.'
+                       0x5b,              # '['
                        0x4e, 0x58, 0x5a, 0x6e, 0x78, 0x7a])  # NnXxZz
 
         ret = []
-- 
2.43.0


From 168b6966df8a8bb41a5432c76c42ff7364ed47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:39 +0000
Subject: [PATCH 33/34] fix: do not crash on func_odbc names with a NUL
 character

---
 asterisklint/func_odbc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index 5e67bad..8c2f1f4 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -46,6 +46,14 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 
 
 class FuncOdbcFunc(FuncBase):
+    def __init__(self, name):
+        super().__init__()
+        self._name = name
+
+    @property
+    def name(self):
+        return self._name
+
     @property
     def module(self):
         # This would be correct automatically, since this module is
@@ -236,9 +244,7 @@ class OdbcFunction(Context):
 
     def finalize_register(self):
         # Register the custom function.
-        odbc_function_class = type(
-            self.get_function_name(), (FuncOdbcFunc,), {})
-        FuncLoader().register(odbc_function_class())
+        FuncLoader().register(FuncOdbcFunc(self.get_function_name()))
 
 
 class FuncOdbcAggregator(ConfigAggregator):
-- 
2.43.0


From 35fc28bc480c4f2abb127130cd8c9087be9d68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:57 +0000
Subject: [PATCH 34/34] fix: give a usage error when the only argument is a
 dash

---
 asterisklint/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index a64905c..3782fb1 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -192,4 +192,6 @@ def main(args, envs):
             help=("the command to execute, 'ls' lists the available "
                   "commands"))
 
-        args = parser.parse_args(args)  # will fail/exit, because .. no command
+        parser.parse_args(args)  # will fail/exit, because .. no command
+        # A dash (or options after a double dash) can pass as the command.
+        parser.error('no command found')
-- 
2.43.0

