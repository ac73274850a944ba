From 6c6b9f1a71ef6346892b9d430f0893a0ebead253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:40 +0000
Subject: [PATCH 01/70] fix: text starting with a bracket after ${expression}
 is not part of the expression

---
 Cheetah/Parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b7c4b1..4693653 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1159,6 +1159,8 @@ class _LowLevelParser(SourceReader):
 
         if enclosures is None:
             enclosures = []
+        # the caller has already eaten the opening bracket
+        isPlaceholder = enclosed and bool(enclosures)
 
         srcLen = len(self)
         exprBits = []
@@ -1176,7 +1178,10 @@ class _LowLevelParser(SourceReader):
                     break
 
             c = self.peek()
-            if c in "{([":
+            if isPlaceholder and not enclosures:
+                # what follows the placeholder's closing bracket is text
+                break
+            elif c in "{([":
                 exprBits.append(c)
                 enclosures.append((c, self.pos()))
                 self.advance()
-- 
2.43.0


From 616d14ef48254b730c7d92a3ce83830930302dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:40 +0000
Subject: [PATCH 02/70] fix: remove the indentation of a directive line that
 ends in a comment

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4693653..0d9f6d6 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1716,6 +1716,9 @@ class _HighLevelParser(_LowLevelParser):
             if not self.matchDirective():
                 self.setPos(pos)
                 foundComment = True
+                if isLineClearToStartToken:
+                    # eatComment() commits the pending text
+                    self._compiler.handleWSBeforeDirective()
                 self.eatComment()  # this won't gobble the EOL
             else:
                 self.setPos(pos)
-- 
2.43.0


From 89c7be0a5b13ef94bd47a78b79f1336e6b59d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:40 +0000
Subject: [PATCH 03/70] fix: an inline #raw does not delete the text before it
 on its line

---
 Cheetah/Parser.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0d9f6d6..80e6c8e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1760,16 +1760,11 @@ class _HighLevelParser(_LowLevelParser):
         textEaten = self.readTo(endRawPos, start=startPos)
         self.setPos(finalPos)
 
-        endOfFirstLinePos = self.findEOL()
-
         if self.matchDirectiveEndToken():
             self.getDirectiveEndToken()
         elif isLineClearToStartToken and (not self.atEnd()) \
                 and self.peek() in '\r\n':
             self.readToEOL(gobble=True)
-
-        if isLineClearToStartToken and self.pos() > endOfFirstLinePos:
-            self._compiler.handleWSBeforeDirective()
         return textEaten
 
     def eatSimpleExprDirective(self, directiveName,
-- 
2.43.0


From 24e7c41e629ddee50bc7d363b7cf3a6f44e22e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:09 +0000
Subject: [PATCH 04/70] fix: #set of a variable whose name begins with local,
 global or module

---
 Cheetah/Parser.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 80e6c8e..338b46f 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -168,6 +168,9 @@ encodingDirectiveRE = re.compile(
 
 escapedNewlineRE = re.compile(r'(?<!\\)((\\\\)*)\\(n|012)')
 
+# a style keyword of #set, not a variable whose name merely begins like one
+setStyleRE = re.compile(r'(local|global|module)[ \f\t]+(?![-+*/%&|^<>@=])')
+
 directiveNamesAndParsers = {
     # importing and inheritance
     'import': None,
@@ -2254,17 +2257,11 @@ class _HighLevelParser(_LowLevelParser):
         self.advance(3)
         self.getWhiteSpace()
         style = SET_LOCAL
-        if self.startswith('local'):
-            self.getIdentifier()
-            self.getWhiteSpace()
-        elif self.startswith('global'):
-            self.getIdentifier()
-            self.getWhiteSpace()
-            style = SET_GLOBAL
-        elif self.startswith('module'):
-            self.getIdentifier()
+        styleMatch = setStyleRE.match(self.src(), self.pos())
+        if styleMatch:
+            style = {'local': SET_LOCAL, 'global': SET_GLOBAL,
+                     'module': SET_MODULE}[self.getIdentifier()]
             self.getWhiteSpace()
-            style = SET_MODULE
 
         startPos = self.pos()
         LVALUE = self.getExpression(pyTokensToBreakAt=assignmentOps,
-- 
2.43.0


From 8316ed46b56bdc8cadaf74bd8bca3520fdc2a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:20 +0000
Subject: [PATCH 05/70] fix: a { after a subscripted placeholder is text

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 338b46f..da4ada4 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1184,6 +1184,9 @@ class _LowLevelParser(SourceReader):
             if isPlaceholder and not enclosures:
                 # what follows the placeholder's closing bracket is text
                 break
+            elif enclosed and not enclosures and exprBits and c == '{':
+                # a subscript may be followed by ( or [, but never by {
+                break
             elif c in "{([":
                 exprBits.append(c)
                 enclosures.append((c, self.pos()))
-- 
2.43.0


From 0a511868e104a694eb347be35f87f71822c35445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 06/70] fix: 'else if' inside a condition's string literal is
 left alone

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61c7468..d11c424 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -662,7 +662,7 @@ class MethodCompiler(GenUtils):
         self.dedent()
 
     def addElse(self, expr, dedent=True, lineCol=None):
-        expr = re.sub(r'else[ \f\t]+if', 'elif', expr)
+        expr = re.sub(r'^else[ \f\t]+if', 'elif', expr)
         self.addReIndentingDirective(expr, dedent=dedent, lineCol=lineCol)
 
     def addElif(self, expr, dedent=True, lineCol=None):
-- 
2.43.0


From 86ceedbbe355ec0738d5dfc261b5bb6001d91a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:01 +0000
Subject: [PATCH 07/70] fix: line breaks inside an expression still separate
 its tokens

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index da4ada4..4d9ba76 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1223,9 +1223,11 @@ class _LowLevelParser(SourceReader):
                     self.advance()
                     raise ParseError(self, msg='Line ending expected')
                 self.setPos(eolMatch.end())
+                exprBits.append(' ')  # still separates tokens
             elif c in '\r\n':
                 if enclosures:
                     self.advance()
+                    exprBits.append(' ')
                 else:
                     break
             elif self.matchCheetahVarInExpressionStartToken():
-- 
2.43.0


From 2ed12656c2f93a7073253a28650dc0231c3376ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:38 +0000
Subject: [PATCH 08/70] fix: #end inside a raw block or macro body does not
 hide the end tag after it

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4d9ba76..b9a1c82 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1762,6 +1762,7 @@ class _HighLevelParser(_LowLevelParser):
                         self.getWhiteSpace()
                         finalPos = self.pos()
                         break
+                    self.setPos(endRawPos)
             self.advance()
             finalPos = endRawPos = self.pos()
 
-- 
2.43.0


From 2931e46dc7c68350790daf0c3715f854f1f91a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:34 +0000
Subject: [PATCH 09/70] fix: not-found messages name the full name with and
 without the C NameMapper

---
 Cheetah/NameMapper.py   | 10 +++++++---
 Cheetah/c/_namemapper.c | 30 +++++++++++++++++++-----------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/Cheetah/NameMapper.py b/Cheetah/NameMapper.py
index 32c1f36..1e353ad 100755
--- a/Cheetah/NameMapper.py
+++ b/Cheetah/NameMapper.py
@@ -185,7 +185,7 @@ def _wrapNotFoundException(exc, fullName, namespace):
     if not _ALLOW_WRAPPING_OF_NOTFOUND_EXCEPTIONS:
         raise
     else:
-        excStr = exc.args[0]
+        excStr = str(exc)
         if excStr.find('while searching') == -1:  # only wrap once!
             excStr += " while searching for '%s'" % fullName
             if _INCLUDE_NAMESPACE_REPR_IN_NOTFOUND_EXCEPTIONS:
@@ -293,8 +293,12 @@ except Exception:
         key = name.split('.')[0]
         for namespace in searchList:
             if hasKey(namespace, key):
-                return _valueForName(namespace, name,
-                                     executeCallables=executeCallables)
+                try:
+                    return _valueForName(namespace, name,
+                                         executeCallables=executeCallables)
+                except NotFound as e:
+                    _wrapNotFoundException(e, fullName=name,
+                                           namespace=searchList)
         _raiseNotFoundException(key, searchList)
 
     def valueFromFrame(name, executeCallables=False, frame=None):
diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 52a9293..cc54ac7 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -42,7 +42,7 @@ static void setNotFoundException(char *key, PyObject *namespace)
 static int wrapInternalNotFoundException(char *fullName, PyObject *namespace)
 {
     PyObject *excType, *excValue, *excTraceback, *isAlreadyWrapped = NULL;
-    PyObject *newExcValue = NULL;
+    PyObject *excStr = NULL, *newArgs = NULL;
     if (!ALLOW_WRAPPING_OF_NOTFOUND_EXCEPTIONS) {
         return 0;
     }
@@ -53,19 +53,27 @@ static int wrapInternalNotFoundException(char *fullName, PyObject *namespace)
 
     if (PyErr_GivenExceptionMatches(PyErr_Occurred(), NotFound)) {
         PyErr_Fetch(&excType, &excValue, &excTraceback);
-        isAlreadyWrapped = PyObject_CallMethod(excValue, "find", "s", "while searching");
+        PyErr_NormalizeException(&excType, &excValue, &excTraceback);
+#ifdef IS_PYTHON3
+        excStr = PyObject_Str(excValue);
+#else
+        excStr = PyObject_Unicode(excValue);
+#endif
+        if (excStr != NULL) {
+            isAlreadyWrapped = PyObject_CallMethod(excStr, "find", "s", "while searching");
+        }
 
-        if (isAlreadyWrapped != NULL) {
-            if (PyLong_AsLong(isAlreadyWrapped) == -1) {
-                newExcValue = PyUnicode_FromFormat("%U while searching for \'%s\'",
-                        excValue, fullName);
+        if (isAlreadyWrapped != NULL && PyLong_AsLong(isAlreadyWrapped) == -1) {
+            newArgs = Py_BuildValue("(N)", PyUnicode_FromFormat(
+                        "%U while searching for \'%s\'", excStr, fullName));
+            if (newArgs != NULL) {
+                PyObject_SetAttrString(excValue, "args", newArgs);
             }
-            Py_DECREF(isAlreadyWrapped);
-        }
-        else {
-           newExcValue = excValue;
         }
-        PyErr_Restore(excType, newExcValue, excTraceback);
+        Py_XDECREF(newArgs);
+        Py_XDECREF(isAlreadyWrapped);
+        Py_XDECREF(excStr);
+        PyErr_Restore(excType, excValue, excTraceback);
         return -1;
     }
     return 0;
-- 
2.43.0


From 2f064090ffaf85002ad1513867949f7fdb778a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:34 +0000
Subject: [PATCH 10/70] fix: C NameMapper crash when an item cannot be fetched
 after all

---
 Cheetah/c/_namemapper.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index cc54ac7..45619e6 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -238,6 +238,9 @@ static PyObject *PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], in
         if (i > 0) {
             Py_DECREF(currentVal);
         }
+        if (nextVal == NULL) {  /* the item vanished or its access failed */
+            return NULL;
+        }
 
         if (executeCallables && PyCallable_Check(nextVal) &&
                 (isInstanceOrClass(nextVal) == 0) ) {
-- 
2.43.0


From 413eabe6a5bf6413fa977d6dba74f3ed35458ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:34 +0000
Subject: [PATCH 11/70] fix: C NameMapper reports an error raised by a property
 instead of skipping it

---
 Cheetah/c/_namemapper.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 45619e6..8579f6c 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -145,11 +145,26 @@ static int getNameChunks(char *nameChunks[], char *name, char *nameCopy)
 }
 
 
+/* Like PyObject_HasAttrString(), but only an AttributeError means absence.
+   Any other error counts as presence: the lookup itself will report it. */
+static int hasAttr(PyObject *obj, char *key)
+{
+    PyObject *value = PyObject_GetAttrString(obj, key);
+    if (value == NULL) {
+        int absent = PyErr_ExceptionMatches(PyExc_AttributeError);
+        PyErr_Clear();
+        return !absent;
+    }
+    Py_DECREF(value);
+    return TRUE;
+}
+
+
 static int PyNamemapper_hasKey(PyObject *obj, char *key)
 {
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         return TRUE;
-    } else if (PyObject_HasAttrString(obj, key)) {
+    } else if (hasAttr(obj, key)) {
         return TRUE;
     }
     return FALSE;
@@ -162,7 +177,7 @@ static PyObject *PyNamemapper_valueForKey(PyObject *obj, char *key)
 
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         theValue = PyMapping_GetItemString(obj, key);
-    } else if (PyObject_HasAttrString(obj, key)) {
+    } else if (hasAttr(obj, key)) {
         theValue = PyObject_GetAttrString(obj, key);
     } else {
         setNotFoundException(key, obj);
-- 
2.43.0


From db51e3b6df8344618e4cc7881d0ef10e2c683e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:40 +0000
Subject: [PATCH 12/70] fix: prioritizeSearchListOverSelf with a search list
 that is a tuple

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e7d06a4..5b6b13f 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1571,7 +1571,7 @@ class Template(Servlet):
             if searchList is not None:
                 if isinstance(compilerSettings, dict) and \
                         compilerSettings.get('prioritizeSearchListOverSelf'):
-                    self._CHEETAH__searchList = searchList + \
+                    self._CHEETAH__searchList = list(searchList) + \
                         self._CHEETAH__searchList
                 else:
                     self._CHEETAH__searchList.extend(list(searchList))
-- 
2.43.0


From 14c63688838cccae0902976d95e461ac12791ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:22 +0000
Subject: [PATCH 13/70] fix: adjacent tokens of nested multi-line comments

---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b9a1c82..c35b9c1 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1617,9 +1617,10 @@ class _HighLevelParser(_LowLevelParser):
             elif self.matchMultiLineCommentEndToken():
                 self.getMultiLineCommentEndToken()
                 level -= 1
-            if not level:
-                break
-            self.advance()
+                if not level:
+                    break
+            else:
+                self.advance()
         comm = self.readTo(endPos, start=startPos)
 
         if not self.atEnd():
-- 
2.43.0


From 4afb19810cba1ffac7c624d2e635b25f49098b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:00 +0000
Subject: [PATCH 14/70] fix: #del $var deletes the variable instead of failing
 to compile

---
 Cheetah/Parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c35b9c1..bede325 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1786,7 +1786,11 @@ class _HighLevelParser(_LowLevelParser):
         if not includeDirectiveNameInExpr:
             self.advance(len(directiveName))
         startPos = self.pos()
-        expr = self.getExpression().strip()
+        if directiveName == 'del':
+            # the variables to delete, not their values
+            expr = self.getExpression(useNameMapper=False).strip()
+        else:
+            expr = self.getExpression().strip()
         directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
-- 
2.43.0


From 01a5bba4b71c2f138526768347557cc573f4a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 15/70] fix: #echo and #silent are named as such to expression
 hooks

---
 Cheetah/Parser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index bede325..c55b12f 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1791,7 +1791,6 @@ class _HighLevelParser(_LowLevelParser):
             expr = self.getExpression(useNameMapper=False).strip()
         else:
             expr = self.getExpression().strip()
-        directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
         if directiveName in self._closeableDirectives:
-- 
2.43.0


From 2d63b2fb9e11c5c6b58fca4b24536e3694c6c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:40 +0000
Subject: [PATCH 16/70] fix: blanks after the name in an #errorCatcher tag
 belong to the tag

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c55b12f..2f33d87 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2674,6 +2674,7 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         startPos = self.pos()
         errorCatcherName = self.getIdentifier()
+        self.getWhiteSpace()
         errorCatcherName = self._applyExpressionFilters(
             errorCatcherName, 'errorcatcher', startPos=startPos)
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
-- 
2.43.0


From 4da50f5cf2c677acc552e0dbd3418e903bdef43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:49 +0000
Subject: [PATCH 17/70] fix: including one source both raw and parsed, or as
 file and as string

The memo of included templates was keyed by the argument alone, so that the
second include of the same text reused the result of the first although it
asked for another kind of include.
---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 5b6b13f..3c34022 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1665,7 +1665,7 @@ class Template(Servlet):
                               includeFrom='file', raw=False):
         """Called at runtime to handle #include directives.
         """
-        _includeID = srcArg
+        _includeID = (srcArg, includeFrom, raw)
         if _includeID not in self._CHEETAH__cheetahIncludes:
             if not raw:
                 if includeFrom == 'file':
-- 
2.43.0


From e4dd917e58dbd3b3c2b329e4aebf09a57de1d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:00 +0000
Subject: [PATCH 18/70] fix: a directive tag closed inline keeps the blanks
 before it

also when the tag spans several lines or ends the source
---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 2f33d87..7f7d9d8 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1734,6 +1734,7 @@ class _HighLevelParser(_LowLevelParser):
 
         if not foundComment and self.matchDirectiveEndToken():
             self.getDirectiveEndToken()
+            return  # closed inline: the blanks before it stay
         elif isLineClearToStartToken and (not self.atEnd()) \
                 and self.peek() in '\r\n':
             # still gobble the EOL if a comment was found.
-- 
2.43.0


From 5b46bd76249872567ba209d9835c7ffe81b2897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:03 +0000
Subject: [PATCH 19/70] fix: the enclosing filter is back in force however a
 #filter region is left

An exception, #break, #continue, #return or #stop inside the region left the
region's filter in place for the rest of the method and for later renderings.
---
 Cheetah/Compiler.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index d11c424..de7a325 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1048,14 +1048,29 @@ class MethodCompiler(GenUtils):
                     + 'getattr(self._CHEETAH__filtersLib, filterName)'
                     + '(self).filter')
                 self.dedent()
+        self.startTry()
 
     def closeFilterBlock(self):
         ID, filterDetails = self._filterRegionsStack.pop()
         # self.addChunk('_filter = self._CHEETAH__initialFilter')
         # self.addChunk('_filter = _orig_filter%(ID)s'%locals())
+        self.startFinally()
         self.addChunk(
             '_filter = self._CHEETAH__currentFilter = _orig_filter%(ID)s'
             % locals())
+        self.dedent()
+
+    def startTry(self):
+        """Begin a region whose effects are undone however it is left."""
+        self.addChunk('try:')
+        self.indent()
+        self.addChunk('pass')
+
+    def startFinally(self):
+        self.commitStrConst()
+        self.dedent()
+        self.addChunk('finally:')
+        self.indent()
 
 
 class AutoMethodCompiler(MethodCompiler):
-- 
2.43.0


From d158b0887199348ab8c4070e74725ac742112c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:03 +0000
Subject: [PATCH 20/70] fix: #filter None also holds in the methods called from
 its region

---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index de7a325..24b5940 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1029,7 +1029,8 @@ class MethodCompiler(GenUtils):
                 + theFilter.strip() + '(self).filter')
         else:
             if theFilter.lower() == 'none':
-                self.addChunk('_filter = self._CHEETAH__initialFilter')
+                self.addChunk('_filter = self._CHEETAH__currentFilter = '
+                              'self._CHEETAH__initialFilter')
             else:
                 # is string representing the name of a builtin filter
                 self.addChunk('filterName = ' + repr(theFilter))
-- 
2.43.0


From bd03989485322ebb2ce13dc89660c9c9e5bfece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:56 +0000
Subject: [PATCH 21/70] fix: output goes on in the right place when a #call or
 #capture body is abandoned

An exception, #break, #continue or #return inside the body left later output
of the method, and of other methods of the instance, in the discarded
collector.
---
 Cheetah/Compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 24b5940..2372a21 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -882,6 +882,7 @@ class MethodCompiler(GenUtils):
                       % locals())
         self.addChunk('write = _callCollector%(ID)s.response().write'
                       % locals())
+        self.startTry()
 
     def setCallArg(self, argName, lineCol):
         ID, callDetails = self._callRegionsStack[-1]
@@ -912,10 +913,12 @@ class MethodCompiler(GenUtils):
             callDetails.functionName, callDetails.args, callDetails.lineCol)
 
         def reset(ID=ID):
+            self.startFinally()
             self.addChunk('trans = _orig_trans%(ID)s' % locals())
             self.addChunk('write = trans.response().write')
             self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s '
                           % locals())
+            self.dedent()
             self.addChunk('del _wasBuffering%(ID)s' % locals())
             self.addChunk('del _orig_trans%(ID)s' % locals())
 
@@ -969,14 +972,17 @@ class MethodCompiler(GenUtils):
             'trans = _captureCollector%(ID)s = DummyTransaction()' % locals())
         self.addChunk(
             'write = _captureCollector%(ID)s.response().write' % locals())
+        self.startTry()
 
     def endCaptureRegion(self):
         ID, captureDetails = self._captureRegionsStack.pop()
         assignTo, lineCol = (captureDetails.assignTo, captureDetails.lineCol)
+        self.startFinally()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
         self.addChunk(
             'self._CHEETAH__isBuffering = _wasBuffering%(ID)s ' % locals())
+        self.dedent()
         self.addChunk(
             '%(assignTo)s = _captureCollector%(ID)s.response().getvalue()'
             % locals())
-- 
2.43.0


From aa5cf988fedd1fb9e1268ff1dabd37b40d2005c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:54 +0000
Subject: [PATCH 22/70] fix: abandoned #cache regions, and methods called
 inside them

An exception or #break inside the region left later output in the discarded
collector and, with an interval, the previous text in force for another
interval; a method called inside the region wrote to the transaction instead
of the cached text.
---
 Cheetah/Compiler.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 2372a21..e645b03 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -831,19 +831,31 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
+                      % locals())
+        self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
                       % locals())
         self.addChunk('write = _cacheCollector_%(ID)s.response().write'
                       % locals())
-        if interval:
-            self.addChunk(("_cacheItem_%(ID)s.setExpiryTime(currentTime() +"
-                          % locals())
-                          + str(interval) + ")")
+        self.addChunk('_cacheExpiry_%(ID)s = ' % locals()
+                      + ('currentTime() +' + str(interval)
+                         if interval else 'None'))
+        self.startTry()
 
     def endCacheRegion(self):
         ID = self._cacheRegionsStack.pop()
+        self.startFinally()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s'
+                      % locals())
+        self.dedent()
+        self.addChunk('if _cacheExpiry_%(ID)s:' % locals())
+        self.indent()
+        self.addChunk(
+            '_cacheItem_%(ID)s.setExpiryTime(_cacheExpiry_%(ID)s)' % locals())
+        self.dedent()
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
@@ -852,6 +864,7 @@ class MethodCompiler(GenUtils):
         self.addChunk('del _cacheData')
         self.addChunk('del _cacheCollector_%(ID)s' % locals())
         self.addChunk('del _orig_trans%(ID)s' % locals())
+        self.addChunk('del _wasBuffering%(ID)s' % locals())
         self.dedent()
         self.addChunk('## END CACHE REGION: ' + ID)
         self.addChunk('')
-- 
2.43.0


From 32bc09a7ed38b549d1e216c2339c63b40beeb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:32 +0000
Subject: [PATCH 23/70] fix: == in the default value of an argument or in a
 #cache test

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 7f7d9d8..3d47bc1 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1102,7 +1102,7 @@ class _LowLevelParser(SourceReader):
                 if onDefVal:
                     argList.add_default(c)
                 self.advance()
-            elif c == '=':
+            elif c == '=' and not onDefVal:
                 onDefVal = True
                 self.advance()
             elif c == ",":
-- 
2.43.0


From de3a554b5406be1dbcc2943765b1b1fa845d4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:32 +0000
Subject: [PATCH 24/70] fix: #cache varyBy values outside ASCII

---
 Cheetah/CacheRegion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 153aec9..8c20295 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -129,7 +129,7 @@ class CacheRegion(object):
 
             Returns a `CacheItem` instance.
         """
-        cacheItemID = md5(str(cacheItemID).encode('ascii')).hexdigest()
+        cacheItemID = md5(str(cacheItemID).encode('utf-8', 'surrogatepass')).hexdigest()
 
         if cacheItemID not in self._cacheItems:
             cacheItem = self._cacheItemClass(
-- 
2.43.0


From 5deadd187160365122dc81fbeccd8cf15bfb2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:32 +0000
Subject: [PATCH 25/70] fix: refreshing a cache item whose data is not in the
 store

---
 Cheetah/CacheRegion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 8c20295..b5706df 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -68,7 +68,10 @@ class CacheItem(object):
         return self.getData() or ""
 
     def clear(self):
-        self._cacheStore.delete(self._cacheItemID)
+        try:
+            self._cacheStore.delete(self._cacheItemID)
+        except KeyError:  # never stored, or the store has dropped it
+            pass
         self._refreshTime = None
 
 
-- 
2.43.0


From 664b429908e754c79e25169fc8b45c9cfa9a1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:12 +0000
Subject: [PATCH 26/70] fix: cache stores' add and replace

replace() refused present keys and stored absent ones, add() refused expired
keys, and both raised AttributeError with memcached.
---
 Cheetah/CacheStore.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 00b77ec..ed1d8dc 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -46,14 +46,21 @@ class MemoryCacheStore(AbstractCacheStore):
     def set(self, key, val, time=0):
         self._data[key] = (val, time)
 
+    def _has(self, key):
+        try:
+            self.get(key)
+        except KeyError:
+            return False
+        return True
+
     def add(self, key, val, time=0):
-        if key in self._data:
+        if self._has(key):
             raise Error('a value for key %r is already in the cache' % key)
         self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if key in self._data:
-            raise Error('a value for key %r is already in the cache' % key)
+        if not self._has(key):
+            raise Error('there is no value for key %r in the cache' % key)
         self._data[key] = (val, time)
 
     def delete(self, key):
@@ -87,13 +94,11 @@ class MemcachedCacheStore(AbstractCacheStore):
         res = self._client.add(key, val, time)
         if not res:
             raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
         res = self._client.replace(key, val, time)
         if not res:
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+            raise Error('there is no value for key %r in the cache' % key)
 
     def delete(self, key):
         res = self._client.delete(key, time=0)
-- 
2.43.0


From bad202b89932564bb73449080bce7c085d8a00f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:14 +0000
Subject: [PATCH 27/70] fix: the indentation of an #arg line is not part of the
 argument before it

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3d47bc1..ab5e249 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2603,12 +2603,12 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
-        self._compiler.setCallArg(argName, lineCol)
         if self.peek() == ':':
             self.getc()
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
+        self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
         isLineClearToStartToken = self.isLineClearToStartToken()
-- 
2.43.0


From 53d4678e29270fe10686a80b25c2cbe30d42c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:41 +0000
Subject: [PATCH 28/70] fix: text directly behind a placeholder's argument list
 or subscript

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index ab5e249..3cdf2d8 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -945,6 +945,8 @@ class _LowLevelParser(SourceReader):
             autoCall = True
             if not self.peek() in identchars + '.':
                 break
+            elif chunks and self.peek() != '.':
+                break  # text right behind the closing bracket
             elif self.peek() == '.':
 
                 if self.pos() + 1 < len(self) and self.peek(1) in identchars:
-- 
2.43.0


From 3fdb2a88c95d404a602a8a2f8806ef6be03bbf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:54 +0000
Subject: [PATCH 29/70] fix: compile cache shared classes between different
 requests with equal hashes

---
 Cheetah/Template.py | 58 ++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 3c34022..428fb9e 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -94,8 +94,8 @@ def hashList(v_list):
             v = hashDict(v)
         elif isinstance(v, list):
             v = hashList(v)
-        hashedList.append(v)
-    return hash(tuple(hashedList))
+        hashedList.append((type(v), v))
+    return tuple(hashedList)
 
 
 def hashDict(d):
@@ -106,8 +106,8 @@ def hashDict(d):
             v = hashDict(v)
         elif isinstance(v, list):
             v = hashList(v)
-        hashedList.append((k, v))
-    return hash(tuple(hashedList))
+        hashedList.append((k, type(v), v))
+    return tuple(hashedList)
 
 
 ###############################################################################
@@ -727,41 +727,41 @@ class Template(Servlet):
         cacheHash = None
         cacheItem = None
         if source or isinstance(file, string_type):
-            compilerSettingsHash = None
-            if compilerSettings:
-                compilerSettingsHash = hashDict(compilerSettings)
+            try:
+                compilerSettingsHash = None
+                if compilerSettings:
+                    compilerSettingsHash = hashDict(compilerSettings)
 
-            moduleGlobalsHash = None
-            if moduleGlobals:
-                moduleGlobalsHash = hashDict(moduleGlobals)
+                moduleGlobalsHash = None
+                if moduleGlobals:
+                    moduleGlobalsHash = hashDict(moduleGlobals)
 
-            fileHash = None
-            if file:
-                fileHash = str(hash(file))
-                if globals()['__checkFileMtime']:
-                    fileHash += str(os.path.getmtime(file))
+                fileHash = None
+                if file:
+                    fileHash = (file,)
+                    if globals()['__checkFileMtime']:
+                        fileHash += (os.path.getmtime(file),)
 
-            try:
                 # @@TR: find some way to create a cacheHash that is consistent
                 # between process restarts.  It would allow for caching the
                 # compiled module on disk and thereby reduce the startup time
                 # for applications that use a lot of dynamically compiled
                 # templates.
-                cacheHash = ''.join([str(v) for v in
-                                     [hash(source),
-                                      fileHash,
-                                      className,
-                                      moduleName,
-                                      mainMethodName,
-                                      hash(compilerClass),
-                                      hash(baseclass),
-                                      compilerSettingsHash,
-                                      moduleGlobalsHash,
-                                      hash(cacheDirForModuleFiles),
-                                      ]])
+                cacheHash = (type(source), source,
+                             fileHash,
+                             className,
+                             moduleName,
+                             mainMethodName,
+                             compilerClass,
+                             baseclass,
+                             compilerSettingsHash,
+                             moduleGlobalsHash,
+                             cacheDirForModuleFiles,
+                             )
+                hash(cacheHash)
             except Exception:
                 # @@TR: should add some logging to this
-                pass
+                cacheHash = None
         outputEncoding = 'ascii'
         compiler = None
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
-- 
2.43.0


From 2d099c56c5d1762114c638f2ad620006abd803df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:20 +0000
Subject: [PATCH 30/70] fix: keep the encoding of a cached compilation for
 returnAClass=False

---
 Cheetah/Template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 428fb9e..854cbad 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -767,6 +767,7 @@ class Template(Servlet):
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
             cacheItem = klass._CHEETAH_compileCache[cacheHash]
             generatedModuleCode = cacheItem.code
+            outputEncoding = cacheItem.outputEncoding
         else:
             compiler = compilerClass(source, file,
                                      moduleName=moduleName,
@@ -852,6 +853,7 @@ class Template(Servlet):
                 cacheItem = CompileCacheItem()
                 cacheItem.cacheTime = cacheItem.lastCheckoutTime = time.time()
                 cacheItem.code = generatedModuleCode
+                cacheItem.outputEncoding = outputEncoding
                 cacheItem.klass = templateClass
                 templateClass._CHEETAH_isInCompilationCache = True
                 klass._CHEETAH_compileCache[cacheHash] = cacheItem
-- 
2.43.0


From dd7b41ed14f2d6d852300670682b659349f80c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:16 +0000
Subject: [PATCH 31/70] fix: compile cache keys distinguish container types,
 numbers and directories

---
 Cheetah/Template.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 854cbad..b4a1ab6 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -10,6 +10,7 @@ for more information.
 import sys                        # used in the error handling code
 import re                         # used to define the internal delims regex
 import logging
+import numbers
 import os.path
 import time                       # used in the cache refresh code
 from random import randrange
@@ -87,27 +88,24 @@ class PreprocessError(Error):
     pass
 
 
+def hashValue(v):
+    """A hashable key that is equal only for interchangeable values."""
+    if isinstance(v, dict):
+        return type(v), hashDict(v)
+    elif isinstance(v, (list, tuple)):
+        return type(v), hashList(v)
+    elif isinstance(v, numbers.Number):
+        # 1 == 1.0 == True and 0.0 == -0.0
+        return type(v), v, repr(v)
+    return type(v), v
+
+
 def hashList(v_list):
-    hashedList = []
-    for v in v_list:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append((type(v), v))
-    return tuple(hashedList)
+    return tuple([hashValue(v) for v in v_list])
 
 
 def hashDict(d):
-    items = sorted(d.items())
-    hashedList = []
-    for k, v in items:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append((k, type(v), v))
-    return tuple(hashedList)
+    return tuple([(hashValue(k), hashValue(v)) for k, v in sorted(d.items())])
 
 
 ###############################################################################
@@ -738,7 +736,7 @@ class Template(Servlet):
 
                 fileHash = None
                 if file:
-                    fileHash = (file,)
+                    fileHash = (file, os.path.abspath(file))
                     if globals()['__checkFileMtime']:
                         fileHash += (os.path.getmtime(file),)
 
-- 
2.43.0


From 60368fce5932dc611eb7b64be1e1dc99d8b53fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:15 +0000
Subject: [PATCH 32/70] fix: a percent sign in settings text is an ordinary
 character

---
 Cheetah/SettingsManager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 91b6002..05244c6 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -164,7 +164,11 @@ class _SettingsCollector(object):
             newSettings[s] = {}
             for o in p.options(s):
                 if o != '__name__':
-                    newSettings[s][o] = p.get(s, o)
+                    val = p.get(s, o, raw=True)
+                    if '%(' in val:
+                        # a lone % is an ordinary character, e.g. a token
+                        val = p.get(s, o)
+                    newSettings[s][o] = val
 
         # loop through new settings -> deal with global settings, numbers,
         # booleans and None ++ also deal with 'importSettings' commands
-- 
2.43.0


From 400b263dae4988f22e4f7bd2de5a9e7b7d397f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:48 +0000
Subject: [PATCH 33/70] fix: indenters shared one level stack

---
 Cheetah/Utils/Indenter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Utils/Indenter.py b/Cheetah/Utils/Indenter.py
index c722040..ed0c866 100644
--- a/Cheetah/Utils/Indenter.py
+++ b/Cheetah/Utils/Indenter.py
@@ -94,7 +94,9 @@ class Indenter(object):
     On = 1
     Level = 0
     Chars = '    '
-    LevelStack = []
+
+    def __init__(self):
+        self.LevelStack = []
 
     def on(self):
         self.On = 1
-- 
2.43.0


From 555c149add8545844291e4bf14ca9335d19a8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:39 +0000
Subject: [PATCH 34/70] fix: text that merely contains #indent lost its
 indentation and last newline

---
 Cheetah/Utils/Indenter.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/Cheetah/Utils/Indenter.py b/Cheetah/Utils/Indenter.py
index ed0c866..f31e386 100644
--- a/Cheetah/Utils/Indenter.py
+++ b/Cheetah/Utils/Indenter.py
@@ -19,9 +19,10 @@ def indentize(source):
 
 class IndentProcessor(object):
     """Preprocess #indent tags."""
-    LINE_SEP = '\n'
     ARGS = "args"
-    INDENT_DIR = re.compile(r'[ \t]*#indent[ \t]*(?P<args>.*)')
+    INDENT_DIR = re.compile(
+        r'[ \t]*#indent[ \t]*(?P<args>(?:on|off|\+\+|--|=[ \t]*[-+]?\d+|'
+        r'(?:chars|push|pop)\b.*)[ \t]*$)')
     DIRECTIVE = re.compile(r"[ \t]*#")
     WS = "ws"
     WHITESPACES = re.compile(r"(?P<ws>[ \t]*)")
@@ -41,7 +42,15 @@ class IndentProcessor(object):
     def process(self, _txt):
         result = []
 
-        for line in _txt.splitlines():
+        lines = re.findall(r'[^\r\n]*(?:\r\n?|\n)|[^\r\n]+', _txt)
+        if not [ln for ln in lines
+                if self.INDENT_DIR.match(ln.rstrip('\r\n'))]:
+            # no directives, only text that looks similar
+            return _txt
+
+        for line in lines:
+            eol = line[len(line.rstrip('\r\n')):]
+            line = line.rstrip('\r\n')
             match = self.INDENT_DIR.match(line)
             if match:
                 # is indention directive
@@ -60,10 +69,10 @@ class IndentProcessor(object):
                         "$self._CHEETAH__indenter.setLevel(%(level)d)" \
                         % {"level": level}
                 elif args.startswith('chars'):
-                    self.indentChars = eval(args.split('=')[1])
+                    self.indentChars = eval(args.split('=', 1)[1])
                     line = "#silent " \
-                        "$self._CHEETAH__indenter.setChars(%(level)d)" \
-                        % {"level": level}
+                        "$self._CHEETAH__indenter.setChar(%r)" \
+                        % (self.indentChars,)
                 elif args.startswith(self.PUSH):
                     line = "#silent $self._CHEETAH__indenter.push()"
                 elif args.startswith(self.POP):
@@ -81,9 +90,9 @@ class IndentProcessor(object):
                             + line.lstrip()
                     else:
                         line = "${self._CHEETAH__indenter.indent(0)}" + line
-            result.append(line)
+            result.append(line + eol)
 
-        return self.LINE_SEP.join(result)
+        return ''.join(result)
 
 
 class Indenter(object):
-- 
2.43.0


From 8e4b8cd19b74e7c15b431d8035873fc713390949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:51 +0000
Subject: [PATCH 35/70] fix: compiling modified settings and preprocessor
 dictionaries of the caller

---
 Cheetah/Parser.py          | 4 +++-
 Cheetah/SettingsManager.py | 3 +++
 Cheetah/Template.py        | 6 +++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3cdf2d8..84bd120 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1487,7 +1487,8 @@ class _HighLevelParser(_LowLevelParser):
         for directiveName in self.setting('closeableDirectives', []):
             self._closeableDirectives.append(directiveName)
 
-        macroDirectives = self.setting('macroDirectives', {})
+        # copy to avoid mutating the caller's settings
+        macroDirectives = dict(self.setting('macroDirectives', {}))
         macroDirectives['i18n'] = I18n
 
         for macroName, callback in macroDirectives.items():
@@ -2411,6 +2412,7 @@ class _HighLevelParser(_LowLevelParser):
                                         default={})
         searchListForMacros = self.setting('searchListForDefMacro', default=[])
         # copy to avoid mutation bugs
+        compilerSettings = dict(compilerSettings)
         searchListForMacros = list(searchListForMacros)
         searchListForMacros.append({'macros': self._macros,
                                     'parser': self,
diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 05244c6..3b8ce12 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -38,6 +38,9 @@ def mergeNestedDictionaries(dict1, dict2, copy=False, deepcopy=False):
         if key in dict1 and isinstance(val, dict) \
                 and isinstance(dict1[key], dict):
             dict1[key] = mergeNestedDictionaries(dict1[key], val)
+        elif isinstance(val, dict):
+            # later merges must not modify the caller's dictionary
+            dict1[key] = copyModule.copy(val)
         else:
             dict1[key] = val
     return dict1
diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index b4a1ab6..3e6bcd3 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -7,6 +7,7 @@ for more information.
 
 ###############################################################################
 # DEPENDENCIES
+import copy
 import sys                        # used in the error handling code
 import re                         # used to define the internal delims regex
 import logging
@@ -924,7 +925,7 @@ class Template(Servlet):
                 for k, v in arg.items():
                     setattr(settings, k, v)
             else:
-                settings = arg
+                settings = copy.copy(arg)
 
             settings = klass._normalizePreprocessorSettings(settings)
             return klass._CHEETAH_defaultPreprocessorClass(settings)
@@ -958,6 +959,8 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateInitArgs'):
             settings.templateInitArgs = {}
+        # copy to avoid mutating the caller's dictionaries
+        settings.templateInitArgs = dict(settings.templateInitArgs)
         if 'searchList' not in settings.templateInitArgs:
             if not hasattr(settings, 'searchList') \
                     and hasattr(settings, 'namespaces'):
@@ -978,6 +981,7 @@ class Template(Servlet):
 
         if not hasattr(settings, 'compilerSettings'):
             settings.compilerSettings = {}
+        settings.compilerSettings = dict(settings.compilerSettings or {})
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-- 
2.43.0


From 71d02d361239b24e9319f5f9577e4c866e5bdd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:46 +0000
Subject: [PATCH 36/70] fix: disabledDirectives and enabledDirectives ignore
 letter case

The directive's name was lowercased, the names in the settings were not:
disabledDirectives=['errorCatcher'] forbade nothing.
---
 Cheetah/Parser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 84bd120..13fd090 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1540,9 +1540,17 @@ class _HighLevelParser(_LowLevelParser):
 
     def _filterDisabledDirectives(self, directiveName):
         directiveName = directiveName.lower()
-        if (directiveName in self.setting('disabledDirectives')
-            or (self.setting('enabledDirectives')
-                and directiveName not in self.setting('enabledDirectives'))):
+
+        def names(setting):
+            value = self.setting(setting)
+            if isinstance(value, (str, unicode)):  # from a configuration text
+                value = value.replace(',', ' ').split()
+            return [name.lower() for name in value]
+
+        disabled = names('disabledDirectives')
+        enabled = names('enabledDirectives')
+        if directiveName in disabled \
+                or (enabled and directiveName not in enabled):
             for callback in self.setting('disabledDirectiveHooks'):
                 callback(parser=self, directiveName=directiveName)
             raise ForbiddenDirective(
-- 
2.43.0


From 1394686a9be2cd53c22e903cc15732f0649f7d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 37/70] fix: #set module/global/local with a @ placeholder
 token

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 13fd090..8fcf286 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -169,7 +169,8 @@ encodingDirectiveRE = re.compile(
 escapedNewlineRE = re.compile(r'(?<!\\)((\\\\)*)\\(n|012)')
 
 # a style keyword of #set, not a variable whose name merely begins like one
-setStyleRE = re.compile(r'(local|global|module)[ \f\t]+(?![-+*/%&|^<>@=])')
+setStyleRE = re.compile(r'(local|global|module)[ \f\t]+'
+                        r'(?!(?:\*\*|//|<<|>>|[-+*/%&|^@])?=)')
 
 directiveNamesAndParsers = {
     # importing and inheritance
-- 
2.43.0


From 55742e82c0cc3da38539594bfc7e83c16fcc9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 38/70] fix: macro output longer than its template, and errors
 in it

The reader kept the length and the line table of the template while it
parsed the output of a macro.
---
 Cheetah/Parser.py       | 20 +++++++++++---------
 Cheetah/SourceReader.py | 13 +++++++++----
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 8fcf286..5cf8eac 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2522,15 +2522,17 @@ class _HighLevelParser(_LowLevelParser):
         origPos = self.pos()
         # add a comment to the output about the macro src that is being parsed
         # or add a comment prefix to all the comments added by the compiler
-        self._src = srcFromMacroOutput
-        self.setPos(0)
-        self.setBreakPoint(len(srcFromMacroOutput))
-
-        self.parse(assertEmptyStack=False)
-
-        self._src = origParseSrc
-        self.setBreakPoint(origBreakPoint)
-        self.setPos(origPos)
+        self.setSource(srcFromMacroOutput)
+        try:
+            self.parse(assertEmptyStack=False)
+        except ParseError:
+            # report the place of the macro call
+            origPos = startPos
+            raise
+        finally:
+            self.setSource(origParseSrc)
+            self.setBreakPoint(origBreakPoint)
+            self.setPos(origPos)
 
         # self._compiler.addRawText('end')
 
diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index 92b0be3..affb3ef 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -14,18 +14,23 @@ class Error(Exception):
 
 class SourceReader(object):
     def __init__(self, src, filename=None, breakPoint=None, encoding=None):
-        self._src = src
         self._filename = filename
+        self._bookmarks = {}
+        self._posTobookmarkMap = {}
+        self.setSource(src, breakPoint)
+
+    def setSource(self, src, breakPoint=None):
+        """Start reading at the beginning of another source."""
+        self._src = src
         self._srcLen = len(src)
         if breakPoint is None:
             self._breakPoint = self._srcLen
         else:
             self.setBreakPoint(breakPoint)
         self._pos = 0
-        self._bookmarks = {}
-        self._posTobookmarkMap = {}
 
         # collect some meta-information
+        self._srcLines = None
         self._EOLs = []
         pos = 0
         while pos < len(self):
@@ -60,7 +65,7 @@ class SourceReader(object):
         return self._src[i:j]
 
     def splitlines(self):
-        if not hasattr(self, '_srcLines'):
+        if self._srcLines is None:
             self._srcLines = self._src.splitlines()
         return self._srcLines
 
-- 
2.43.0


From d96a2c0068bf662f38587656dd95029d09f1606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 39/70] fix: expression hooks see the arguments of calls,
 filters and macros

Macro arguments are evaluated while compiling, and macro definitions are
compiled on their own: both escaped the hooks and the directive filter.
---
 Cheetah/Parser.py | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 5cf8eac..0194349 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1375,8 +1375,11 @@ class _LowLevelParser(SourceReader):
                 expr += WS
                 if self.setting('allowPlaceholderFilterArgs') \
                         and self.peek() == ',':
+                    filterArgsPos = self.pos()
                     filterArgs = \
                         self.getCallArgString(enclosures=enclosures)[1:-1]
+                    filterArgs = self._applyExpressionFilters(
+                        filterArgs, 'placeholder', startPos=filterArgsPos)
                 else:
                     if self.peek() == closurePairsRev[enclosureOpenChar]:
                         self.getc()
@@ -1539,17 +1542,16 @@ class _HighLevelParser(_LowLevelParser):
                             rawExpr=rawExpr, startPos=startPos)
         return expr
 
+    def _directiveNamesSetting(self, setting):
+        value = self.setting(setting)
+        if isinstance(value, (str, unicode)):  # from a configuration text
+            value = value.replace(',', ' ').split()
+        return [name.lower() for name in value]
+
     def _filterDisabledDirectives(self, directiveName):
         directiveName = directiveName.lower()
-
-        def names(setting):
-            value = self.setting(setting)
-            if isinstance(value, (str, unicode)):  # from a configuration text
-                value = value.replace(',', ' ').split()
-            return [name.lower() for name in value]
-
-        disabled = names('disabledDirectives')
-        enabled = names('enabledDirectives')
+        disabled = self._directiveNamesSetting('disabledDirectives')
+        enabled = self._directiveNamesSetting('enabledDirectives')
         if directiveName in disabled \
                 or (enabled and directiveName not in enabled):
             for callback in self.setting('disabledDirectiveHooks'):
@@ -2366,9 +2368,10 @@ class _HighLevelParser(_LowLevelParser):
         self._compiler.addInclude(sourceExpr, includeFrom, isRaw)
 
     def eatDefMacro(self):
-        # @@TR: not filtered yet
+        # filtered
         isLineClearToStartToken = self.isLineClearToStartToken()
         endOfFirstLinePos = self.findEOL()
+        startPos = self.pos()
         self.getDirectiveStartToken()
         self.advance(len('defmacro'))
 
@@ -2385,6 +2388,9 @@ class _HighLevelParser(_LowLevelParser):
         else:
             argsList = []
 
+        self._applyExpressionFilters(self[startPos:self.pos()], 'defmacro',
+                                     startPos=startPos)
+
         assert macroName not in self._directiveNamesAndParsers
         argsList.insert(0, ('src', None))
         argsList.append(('parser', 'None'))
@@ -2422,6 +2428,19 @@ class _HighLevelParser(_LowLevelParser):
         searchListForMacros = self.setting('searchListForDefMacro', default=[])
         # copy to avoid mutation bugs
         compilerSettings = dict(compilerSettings)
+        # the restrictions on this template hold for its macros, too,
+        # except on what normalizedMacroSrc wraps them in
+        wrapper = ['def', 'end']
+        for name in ('disabledDirectiveHooks', 'expressionFilterHooks'):
+            compilerSettings.setdefault(name, self.setting(name))
+        compilerSettings.setdefault(
+            'disabledDirectives',
+            [name for name in self._directiveNamesSetting('disabledDirectives')
+             if name not in wrapper])
+        enabled = self._directiveNamesSetting('enabledDirectives')
+        if enabled:
+            compilerSettings.setdefault('enabledDirectives',
+                                        enabled + wrapper)
         searchListForMacros = list(searchListForMacros)
         searchListForMacros.append({'macros': self._macros,
                                     'parser': self,
@@ -2462,6 +2481,10 @@ class _HighLevelParser(_LowLevelParser):
             self.getWhiteSpace()
             args = self.getExpression(useNameMapper=False,
                                       pyTokensToBreakAt=[':']).strip()
+        if args:
+            # they are evaluated below, at compile time
+            args = self._applyExpressionFilters(args, macroName,
+                                                startPos=startPos)
 
         if self.matchColonForSingleLineShortFormDirective():
             isShortForm = True
@@ -2589,7 +2612,11 @@ class _HighLevelParser(_LowLevelParser):
                                      startPos=startPos)
 
         self.getWhiteSpace()
+        startPos = self.pos()
         args = self.getExpression(pyTokensToBreakAt=[':']).strip()
+        if args:
+            args = self._applyExpressionFilters(args, 'call',
+                                                startPos=startPos)
         if self.matchColonForSingleLineShortFormDirective():
             self.advance()  # skip over :
             self._compiler.startCallRegion(functionName, args, lineCol)
-- 
2.43.0


From e4ed22e9c46734f7eac3f25e0544098daf0034ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:58 +0000
Subject: [PATCH 40/70] fix: compiling a template while importing one from a
 template deadlocked

The generated module runs under the compile lock: anything it imports may
compile templates itself.
---
 Cheetah/Template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 3e6bcd3..97be6d2 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -50,9 +50,9 @@ from .compat import PY2, string_type, unicode
 from .convertTmplPathToModuleName import convertTmplPathToModuleName
 
 try:
-    from threading import Lock
+    from threading import RLock
 except ImportError:
-    class Lock:
+    class RLock:
         def acquire(self):
             pass
 
@@ -318,7 +318,7 @@ class Template(Servlet):
     # mapping/dict protocol. E.g.:
     #   class AdvCachingTemplate(Template):
     #       _CHEETAH_compileCache = MemoryOrFileCache()
-    _CHEETAH_compileLock = Lock()  # used to prevent race conditions
+    _CHEETAH_compileLock = RLock()  # used to prevent race conditions
     _CHEETAH_defaultMainMethodName = None
     _CHEETAH_compilerSettings = None
     _CHEETAH_compilerClass = Compiler
-- 
2.43.0


From 54f0b75162afdc64eed94c9d5b1c92b56d08862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:52 +0000
Subject: [PATCH 41/70] fix: malformed end tags, and errors at the end of the
 source

'#end forx' closed a '#for', a misplaced end tag was reported on the line
below it, peeking behind the last character raised an IndexError, and
errors inside a \r\n, in an empty source or behind an odd line separator
could not be located.
---
 Cheetah/Parser.py       | 18 +++++++++++-------
 Cheetah/SourceReader.py | 17 ++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0194349..6f1b14b 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -273,7 +273,7 @@ class ParseError(ValueError):
                  lineno=None, col=None):
         self.stream = stream
         if stream.pos() >= len(stream):
-            stream.setPos(len(stream) - 1)
+            stream.setPos(max(len(stream) - 1, 0))
         self.msg = msg
         self.extMsg = extMsg
         self.lineno = lineno
@@ -660,7 +660,7 @@ class _LowLevelParser(SourceReader):
         pieces = []
         nameChunks = []
 
-        if not self.peek() in identchars:
+        if self.atEnd() or self.peek() not in identchars:
             raise ParseError(self)
 
         while self.pos() < srcLen:
@@ -691,7 +691,7 @@ class _LowLevelParser(SourceReader):
         srcLen = len(self)
         nameChunks = []
 
-        if not self.peek() in identchars:
+        if self.atEnd() or self.peek() not in identchars:
             raise ParseError(self)
 
         while self.pos() < srcLen:
@@ -1357,7 +1357,9 @@ class _LowLevelParser(SourceReader):
         else:
             cacheTokenParts = {}
 
-        if self.peek() in '({[':
+        if self.atEnd():
+            raise ParseError(self)
+        elif self.peek() in '({[':
             pos = self.pos()
             enclosureOpenChar = self.getc()
             enclosures = [(enclosureOpenChar, pos)]
@@ -1859,17 +1861,19 @@ class _HighLevelParser(_LowLevelParser):
         pos = self.pos()
         directiveName = False
         for key in self._endDirectiveNamesAndHandlers.keys():
-            if self.find(key, pos) == pos:
+            end = pos + len(key)
+            if self._src.startswith(key, pos) \
+                    and self._src[end:end + 1] not in set(namechars + '-'):
                 directiveName = key
                 break
         if not directiveName:
             raise ParseError(self, msg='Invalid end directive')
+        if directiveName in self._closeableDirectives:
+            self.popFromOpenDirectivesStack(directiveName)
 
         endOfFirstLinePos = self.findEOL()
         self.getExpression()  # eat in any extra comment-like crap
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
-        if directiveName in self._closeableDirectives:
-            self.popFromOpenDirectivesStack(directiveName)
 
         # subclasses can override the default behaviours here
         # by providing an end-directive handler
diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index affb3ef..f749463 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -1,9 +1,11 @@
 """SourceReader class for Cheetah's Parser and CodeGenerator
 """
+from bisect import bisect_right
 import re
 from .compat import unicode
 
 EOLre = re.compile(r'[ \f\t]*(?:\r\n|\r|\n)')
+EOLsplit = re.compile(r'\r\n|\r|\n').split
 EOLZre = re.compile(r'(?:\r\n|\r|\n|\Z)')
 ENCODINGsearch = re.compile(r"coding[=:]\s*([-\w.]+)").search
 
@@ -66,22 +68,22 @@ class SourceReader(object):
 
     def splitlines(self):
         if self._srcLines is None:
-            self._srcLines = self._src.splitlines()
+            # not str.splitlines(): the lines counted by lineNum()
+            self._srcLines = EOLsplit(self._src)
         return self._srcLines
 
     def lineNum(self, pos=None):
         if pos is None:
             pos = self._pos
 
-        for i in range(len(self._BOLs)):
-            if pos >= self._BOLs[i] and pos <= self._EOLs[i]:
-                return i
+        # the last line that doesn't begin behind pos
+        return max(bisect_right(self._BOLs, pos) - 1, 0)
 
     def getRowCol(self, pos=None):
         if pos is None:
             pos = self._pos
         lineNum = self.lineNum(pos)
-        BOL = self._BOLs[lineNum]
+        BOL = self._BOLs and self._BOLs[lineNum] or 0
         return lineNum + 1, pos - BOL + 1
 
     def getRowColLine(self, pos=None):
@@ -153,9 +155,10 @@ class SourceReader(object):
         return self._pos == 0
 
     def peek(self, offset=0):
-        self.checkPos(self._pos + offset)
+        """The next character, or '' at the end."""
         pos = self._pos + offset
-        return self._src[pos]
+        self.checkPos(pos)
+        return self._src[pos:min(pos + 1, self._breakPoint)]
 
     def getc(self):
         pos = self._pos
-- 
2.43.0


From c6d7205019cfed8f21c975a8322fba4d71c8e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:09 +0000
Subject: [PATCH 42/70] fix: malformed templates raise ParseError instead of
 internal errors

---
 Cheetah/Compiler.py |  21 ++++++--
 Cheetah/Parser.py   | 121 ++++++++++++++++++++++++++++++++++----------
 Cheetah/Template.py |  12 +++--
 3 files changed, 119 insertions(+), 35 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index e645b03..3120d8e 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -21,6 +21,7 @@ import codecs
 
 from .Version import Version, VersionTuple
 from .SettingsManager import SettingsManager
+from .SourceReader import SourceReader
 from .Utils.Indenter import indentize  # an undocumented preprocessor
 from . import NameMapper
 from .Parser import Parser, ParseError, specialVarRE, \
@@ -174,6 +175,8 @@ class GenUtils(object):
     def genCacheInfoFromArgList(self, argList):
         cacheInfo = {'type': REFRESH_CACHE}
         for key, val in argList:
+            if not val:
+                raise ValueError('%s has no value' % key)
             if val[0] in '"\'':
                 val = val[1:-1]
 
@@ -736,7 +739,9 @@ class MethodCompiler(GenUtils):
     def addPSP(self, PSP):
         self.commitStrConst()
         autoIndent = False
-        if PSP[0] == '=':
+        if not PSP:
+            return
+        elif PSP[0] == '=':
             PSP = PSP[1:]
             if PSP:
                 self.addWriteChunk('_filter(' + PSP + ')')
@@ -1476,7 +1481,7 @@ class ClassCompiler(GenUtils):
         # inside the expression
         if attribExpr.find('VFN(') != -1 or attribExpr.find('VFFSL(') != -1:
             raise ParseError(
-                self,
+                self._moduleCompiler._parser,
                 'Invalid #attr directive. It should only contain '
                 + 'simple Python literals.')
         # now add the attribute
@@ -1728,7 +1733,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
             if unicodeMatch:
                 if encodingMatch:
                     raise ParseError(
-                        self, "#encoding and #unicode are mutually exclusive! "
+                        SourceReader(source, filename=self._filePath),
+                        "#encoding and #unicode are mutually exclusive! "
                         "Use one or the other.")
                 source = unicodeDirectiveRE.sub('', source)
                 if isinstance(source, bytes):
@@ -1738,6 +1744,12 @@ class ModuleCompiler(SettingsManager, GenUtils):
                 encodings = encodingMatch.groups()
                 if len(encodings):
                     encoding = encodings[0]
+                    try:
+                        codecs.lookup(encoding)
+                    except LookupError as e:
+                        raise ParseError(
+                            SourceReader(source, filename=self._filePath),
+                            str(e))
                     if isinstance(source, bytes):
                         source = source.decode(encoding)
                     else:
@@ -2025,7 +2037,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
         importVarNames = impStatement[
             impStatement.find('import') + len('import'):].split(',')
         # handle aliases
-        importVarNames = [var.split()[-1] for var in importVarNames]
+        importVarNames = [var.split()[-1] for var in importVarNames
+                          if var.strip()]
         importVarNames = [var for var in importVarNames if not var == '*']
         # used by #extend for auto-imports
         self.addImportedVarNames(importVarNames, raw_statement=impStatement)
diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 6f1b14b..3ed8d45 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -13,7 +13,7 @@ import re
 import types
 import inspect
 
-from .SourceReader import SourceReader
+from .SourceReader import Error as SourceReaderError, SourceReader
 from .Unspecified import Unspecified
 from .Macros.I18n import I18n
 from .compat import PY2, string_type, unicode
@@ -574,6 +574,12 @@ class _LowLevelParser(SourceReader):
     def isLineClearToStartToken(self, pos=None):
         return self.isLineClearToPos(pos)
 
+    def checkPos(self, pos):
+        try:
+            super(_LowLevelParser, self).checkPos(pos)
+        except SourceReaderError:
+            raise ParseError(self, msg='Unexpected end of the source')
+
     def matchTopLevelToken(self):
         """Returns the first match found from the following methods:
             self.matchCommentStartToken
@@ -909,8 +915,10 @@ class _LowLevelParser(SourceReader):
 
     def getCheetahVarBody(self, plain=False):
         # @@TR: this should be in the compiler
-        return self._compiler.genCheetahVar(self.getCheetahVarNameChunks(),
-                                            plain=plain)
+        nameChunks = self.getCheetahVarNameChunks()
+        if not nameChunks:
+            raise ParseError(self, msg='Expected a name')
+        return self._compiler.genCheetahVar(nameChunks, plain=plain)
 
     def getCheetahVarNameChunks(self):
 
@@ -1106,6 +1114,8 @@ class _LowLevelParser(SourceReader):
                     argList.add_default(c)
                 self.advance()
             elif c == '=' and not onDefVal:
+                if argList.count >= len(argList.arguments):
+                    raise ParseError(self, msg='Expected an argument name')
                 onDefVal = True
                 self.advance()
             elif c == ",":
@@ -1287,13 +1297,8 @@ class _LowLevelParser(SourceReader):
         At the moment only Cheetah's c'$placeholder strings' are transformed.
         """
         if token == 'c' and not self.atEnd() and self.peek() in '\'"':
-            nextToken = self.getPyToken()
-            token = nextToken.upper()
-            theStr = eval(token)
+            token = self.getPyToken()
             endPos = self.pos()
-            if not theStr:
-                return
-
             if token.startswith(single3) or token.startswith(double3):
                 startPosIdx = 3
             else:
@@ -1307,7 +1312,12 @@ class _LowLevelParser(SourceReader):
                     if strConst:
                         outputExprs.append(repr(strConst))
                         strConst = ''
+                    placeholderPos = self.pos()
                     placeholderExpr = self.getPlaceholder()
+                    if self.pos() > endPos - startPosIdx:
+                        self.setPos(placeholderPos)
+                        raise ParseError(self, msg='This $placeholder does '
+                                         'not end inside the string')
                     outputExprs.append('str(' + placeholderExpr + ')')
                 else:
                     strConst += self.getc()
@@ -1394,6 +1404,8 @@ class _LowLevelParser(SourceReader):
                         expr += restOfExpr
             rawPlaceholder = self[startPos: self.pos()]
         else:
+            if not enclosures:
+                raise ParseError(self)
             expr = self.getExpression(enclosed=True, enclosures=enclosures)
             if expr[-1] == closurePairsRev[enclosureOpenChar]:
                 expr = expr[:-1]
@@ -1429,6 +1441,7 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        self._numOpenOutsideLine = 0  # directives open around a one-line one
 
     def cleanup(self):
         """Cleanup to remove any possible reference cycles
@@ -1568,6 +1581,9 @@ class _HighLevelParser(_LowLevelParser):
             origBP = self.breakPoint()
             self.setBreakPoint(breakPoint)
             assertEmptyStack = False
+            openDirectives = list(self._openDirectivesStack)
+            origOpenOutside = self._numOpenOutsideLine
+            self._numOpenOutsideLine = len(openDirectives)
 
         while not self.atEnd():
             if self.matchCommentStartToken():
@@ -1589,6 +1605,10 @@ class _HighLevelParser(_LowLevelParser):
         if assertEmptyStack:
             self.assertEmptyOpenDirectivesStack()
         if breakPoint:
+            if self._openDirectivesStack != openDirectives:
+                raise ParseError(self, msg='A directive is not closed on the '
+                                 'line of the one-line directive around it')
+            self._numOpenOutsideLine = origOpenOutside
             self.setBreakPoint(origBP)
 
     # non-directive eat methods
@@ -1680,6 +1700,10 @@ class _HighLevelParser(_LowLevelParser):
                 if self.matchPSPEndToken():
                     break
             self.advance()
+        if self.atEnd():
+            self.setPos(startPos)
+            raise ParseError(self, msg="EOF was reached before a matching '"
+                             + endToken + "' was found")
         pspString = self.readTo(self.pos(), start=startPos).strip()
         pspString = self._applyExpressionFilters(pspString, 'psp',
                                                  startPos=startPos)
@@ -1727,7 +1751,11 @@ class _HighLevelParser(_LowLevelParser):
             expr = self.eatSimpleExprDirective(
                 directiveName,
                 includeDirectiveNameInExpr=includeDirectiveNameInExpr)
-            handler(expr)
+            try:
+                handler(expr)
+            except AssertionError:  # from addReturn and addYield
+                raise ParseError(self, msg='#return and #yield cannot be '
+                                 'mixed in one method')
         ##
         for callback in self.setting('postparseDirectiveHooks'):
             callback(parser=self, directiveName=directiveName)
@@ -1973,7 +2001,7 @@ class _HighLevelParser(_LowLevelParser):
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLine)
         try:
             self._compiler.setCompilerSetting(settingName, valueExpr)
-        except Exception:
+        except Exception as e:
             sys.stderr.write(
                 'An error occurred while processing '
                 'the following #compiler directive.\n')
@@ -1985,7 +2013,8 @@ class _HighLevelParser(_LowLevelParser):
                 '------------------------------------'
                 '----------------------------------\n')
             sys.stderr.write('Please check the syntax of these settings.\n\n')
-            raise
+            self.setPos(startPos)
+            raise ParseError(self, msg='Invalid compiler setting: %s' % e)
 
     def eatCompilerSettings(self):
         # filtered
@@ -2013,7 +2042,7 @@ class _HighLevelParser(_LowLevelParser):
         try:
             self._compiler.setCompilerSettings(keywords=keywords,
                                                settingsStr=settingsStr)
-        except Exception:
+        except Exception as e:
             sys.stderr.write(
                 'An error occurred while processing '
                 'the following compiler settings.\n')
@@ -2025,7 +2054,8 @@ class _HighLevelParser(_LowLevelParser):
                 '------------------------------------'
                 '----------------------------------\n')
             sys.stderr.write('Please check the syntax of these settings.\n\n')
-            raise
+            self.setPos(startPos)
+            raise ParseError(self, msg='Invalid compiler settings: %s' % e)
 
     def eatAttr(self):
         # filtered
@@ -2199,7 +2229,8 @@ class _HighLevelParser(_LowLevelParser):
 
         self.getWhiteSpace(max=1)
         self.parse(breakPoint=endPos)
-        if directiveName == 'closure' or isNestedDef:
+        if directiveName == 'closure' or (
+                directiveName == 'def' and isNestedDef):
             # @@TR: temporary hack of useSearchList
             self.setSetting('useSearchList', useSearchList_orig)
 
@@ -2395,7 +2426,10 @@ class _HighLevelParser(_LowLevelParser):
         self._applyExpressionFilters(self[startPos:self.pos()], 'defmacro',
                                      startPos=startPos)
 
-        assert macroName not in self._directiveNamesAndParsers
+        if macroName in self._directiveNamesAndParsers:
+            self.setPos(startPos)
+            raise ParseError(self, msg='There is already a directive or macro '
+                             'called %r' % macroName)
         argsList.insert(0, ('src', None))
         argsList.append(('parser', 'None'))
         argsList.append(('macros', 'None'))
@@ -2453,8 +2487,15 @@ class _HighLevelParser(_LowLevelParser):
 
         templateAPIClass._updateSettingsWithPreprocessTokens(
             compilerSettings, placeholderToken='@', directiveToken='%')
-        macroTemplateClass = templateAPIClass.compile(
-            source=normalizedMacroSrc, compilerSettings=compilerSettings)
+        try:
+            macroTemplateClass = templateAPIClass.compile(
+                source=normalizedMacroSrc, compilerSettings=compilerSettings)
+        except ParseError as e:
+            # report the place of the definition
+            e.extMsg += e.report()
+            e.stream, e.lineno, e.col = self, None, None
+            self.setPos(startPos)
+            raise
         # t = macroTemplateClass()
 
         class MacroDetails:
@@ -2512,19 +2553,31 @@ class _HighLevelParser(_LowLevelParser):
         else:
             def getArgs(*pargs, **kws):
                 return kws
-            kwArgs = eval('getArgs(%(args)s)' % locals())
-
-        assert 'src' not in kwArgs
+            try:
+                kwArgs = eval('getArgs(%(args)s)' % locals())
+            except Exception as e:
+                self.setPos(startPos)
+                raise ParseError(self, msg='Invalid arguments for the macro '
+                                 '%r: %s' % (macroName, e))
+
+        if 'src' in kwArgs:
+            self.setPos(startPos)
+            raise ParseError(self, msg="'src' is passed to each macro already")
         kwArgs['src'] = srcBlock
 
         if isinstance(macro, types.MethodType):
-            co = macro.__func__.__code__
+            func, numBound = macro.__func__, 1
         elif (hasattr(macro, '__call__')
               and hasattr(macro.__call__, '__func__')):
-            co = macro.__call__.__func__.__code__
+            func, numBound = macro.__call__.__func__, 1
         else:
-            co = macro.__code__
-        availableKwArgs = inspect.getargs(co)[0]
+            func, numBound = macro, 0
+        availableKwArgs, _, varkw = inspect.getargs(func.__code__)[:3]
+        unknownKwArgs = sorted(set(kwArgs).difference(availableKwArgs))
+        if unknownKwArgs and not varkw:
+            self.setPos(startPos)
+            raise ParseError(self, msg='The macro %r has no argument %s' % (
+                macroName, ', '.join(unknownKwArgs)))
 
         if 'parser' in availableKwArgs:
             kwArgs['parser'] = self
@@ -2542,6 +2595,14 @@ class _HighLevelParser(_LowLevelParser):
         if 'endPos' in availableKwArgs:
             kwArgs['endPos'] = self.pos()
 
+        numRequired = len(availableKwArgs) - len(func.__defaults__ or ())
+        missingKwArgs = [name for name in availableKwArgs[numBound:numRequired]
+                         if name not in kwArgs]
+        if missingKwArgs:
+            self.setPos(startPos)
+            raise ParseError(self, msg='The macro %r needs the argument %s' % (
+                macroName, ', '.join(missingKwArgs)))
+
         srcFromMacroOutput = macro(**kwArgs)
 
         origParseSrc = self._src
@@ -2576,7 +2637,11 @@ class _HighLevelParser(_LowLevelParser):
                                                startPos=startPos)
 
         def startCache():
-            cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
+            try:
+                cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
+            except ValueError as e:
+                self.setPos(startPos)
+                raise ParseError(self, msg='Invalid #cache argument: %s' % e)
             self._compiler.startCacheRegion(cacheInfo, lineCol)
 
         if self.matchColonForSingleLineShortFormDirective():
@@ -2649,6 +2714,8 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
+        if not self._compiler._callRegionsStack:
+            raise ParseError(self, msg='#arg is only valid inside a #call')
         if self.peek() == ':':
             self.getc()
         else:
@@ -2826,7 +2893,7 @@ class _HighLevelParser(_LowLevelParser):
         self._openDirectivesStack.append(directiveName)
 
     def popFromOpenDirectivesStack(self, directiveName):
-        if not self._openDirectivesStack:
+        if len(self._openDirectivesStack) <= self._numOpenOutsideLine:
             raise ParseError(self, msg="#end found, but nothing to end")
 
         if self._openDirectivesStack[-1] == directiveName:
diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 97be6d2..f23cbb7 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1993,7 +1993,7 @@ def genParserErrorFromPythonException(source, file,
     formatedExc = sio.getvalue()
 
     if hasattr(exception, 'lineno'):
-        pyLineno = exception.lineno
+        pyLineno = exception.lineno or 1
     else:
         pyLineno = int(
             re.search('[ \t]*File.*line (\\d+)', formatedExc).group(1))
@@ -2037,7 +2037,9 @@ def genParserErrorFromPythonException(source, file,
         report,
         '='*80,  # noqa: E226 missing whitespace around operator
     ]
-    cheetahPosMatch = re.search('line (\\d+), col (\\d+)', formatedExc)
+    # the positions the compiler notes down at the end of a line
+    posRE = re.compile(r'line (\d+), col (\d+)(?: in the source)?\.?$', re.M)
+    cheetahPosMatch = posRE.search(formatedExc)
     if cheetahPosMatch:
         lineno = int(cheetahPosMatch.group(1))
         col = int(cheetahPosMatch.group(2))
@@ -2047,8 +2049,8 @@ def genParserErrorFromPythonException(source, file,
     else:
         lineno = None
         col = None
-        cheetahPosMatch = re.search('line (\\d+), col (\\d+)',
-                                    '\n'.join(lines[max(pyLineno - 2, 0):]))
+        cheetahPosMatch = posRE.search(
+            '\n'.join(lines[max(pyLineno - 2, 0):]))
         if cheetahPosMatch:
             lineno = int(cheetahPosMatch.group(1))
             col = int(cheetahPosMatch.group(2))
@@ -2058,6 +2060,8 @@ def genParserErrorFromPythonException(source, file,
 
     message = '\n'.join(message)
     reader = SourceReader(source, filename=filename)
+    if lineno and lineno > len(reader.splitlines()):
+        lineno = col = None  # not a position in this source
     return ParseError(reader, message, lineno=lineno, col=col)
 
 
-- 
2.43.0


From 780db0a4a07d87f0ca4f639ee7c0bfac7844318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:33 +0000
Subject: [PATCH 43/70] fix: located errors for templates compiled from a file

---
 Cheetah/Template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index f23cbb7..2b31e05 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -828,6 +828,8 @@ class Template(Servlet):
                     exec(co, mod.__dict__)
                 except SyntaxError as e:
                     try:
+                        if source is None:  # it was read from the file
+                            source = compiler._parser._src
                         parseError = genParserErrorFromPythonException(
                             source, file, generatedModuleCode, exception=e)
                     except Exception:
-- 
2.43.0


From 72de73f72712da9afa6aece54cb63a2e99cde4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:28 +0000
Subject: [PATCH 44/70] fix: positions in macro output, malformed cache
 intervals

---
 Cheetah/Parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3ed8d45..0c827b5 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -454,7 +454,7 @@ class _LowLevelParser(SourceReader):
 
         """Setup the regexs for Cheetah $var parsing."""
 
-        num = r'[0-9\.]+'
+        num = r'(?:[0-9]+\.?[0-9]*|\.[0-9]+)'
         interval = (r'(?P<interval>'
                     + num + r's|'
                     + num + r'm|'
@@ -1442,6 +1442,7 @@ class _HighLevelParser(_LowLevelParser):
         self._macroDetails = {}
         self._openDirectivesStack = []
         self._numOpenOutsideLine = 0  # directives open around a one-line one
+        self._macroCallRowCol = None  # set while parsing a macro's output
 
     def cleanup(self):
         """Cleanup to remove any possible reference cycles
@@ -1452,6 +1453,11 @@ class _HighLevelParser(_LowLevelParser):
             del macroDetails.template
         self._macroDetails.clear()
 
+    def getRowCol(self, pos=None):
+        # the output of a macro is located where the macro was called
+        return (self._macroCallRowCol
+                or super(_HighLevelParser, self).getRowCol(pos))
+
     def configureParser(self):
         super(_HighLevelParser, self).configureParser()
         self._initDirectives()
@@ -2610,6 +2616,8 @@ class _HighLevelParser(_LowLevelParser):
         origPos = self.pos()
         # add a comment to the output about the macro src that is being parsed
         # or add a comment prefix to all the comments added by the compiler
+        origMacroCallRowCol = self._macroCallRowCol
+        self._macroCallRowCol = self.getRowCol(startPos)
         self.setSource(srcFromMacroOutput)
         try:
             self.parse(assertEmptyStack=False)
@@ -2618,6 +2626,7 @@ class _HighLevelParser(_LowLevelParser):
             origPos = startPos
             raise
         finally:
+            self._macroCallRowCol = origMacroCallRowCol
             self.setSource(origParseSrc)
             self.setBreakPoint(origBreakPoint)
             self.setPos(origPos)
-- 
2.43.0


From 21a106982b31835583c802564412c337ede0b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:24 +0000
Subject: [PATCH 45/70] fix: settings for tokens and code style that changed or
 broke the output

---
 Cheetah/Compiler.py | 22 +++++++++++++++-------
 Cheetah/Parser.py   |  7 ++++---
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 3120d8e..c3099e3 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -205,10 +205,7 @@ class GenUtils(object):
         output in a dummy method that is never called.
         """
         # @@TR: this should be in the compiler not here
-        self.addChunk("if False:")
-        self.indent()
-        self.addChunk(self.genPlainVar(nameChunks[:]))
-        self.dedent()
+        self.addUnreachableChunk(self.genPlainVar(nameChunks[:]))
 
     def genPlainVar(self, nameChunks):
         """Generate Python code for a Cheetah $var without using NameMapper
@@ -437,6 +434,16 @@ class MethodCompiler(GenUtils):
         chunk = "\n" + self.indentation() + chunk
         self._methodBodyChunks.append(chunk)
 
+    def addUnreachableChunk(self, chunk):
+        # leave the pending strConst, handleWSBeforeDirective() may need it
+        pendingStrConstChunks = self._pendingStrConstChunks
+        self._pendingStrConstChunks = []
+        self.addChunk("if False:")
+        self.indent()
+        self.addChunk(chunk)
+        self.dedent()
+        self._pendingStrConstChunks = pendingStrConstChunks
+
     def appendToPrevChunk(self, appendage):
         self._methodBodyChunks[-1] = self._methodBodyChunks[-1] + appendage
 
@@ -1197,7 +1204,7 @@ class AutoMethodCompiler(MethodCompiler):
             elif not self.isClassMethod() and not self.isStaticMethod():
                 self.addChunk('SL = self._CHEETAH__searchList')
             else:
-                self.addChunk('SL = [KWS]')
+                self.addChunk('SL = [%s]' % (self._kwargsName or ''))
         if self.setting('useFilters'):
             if self.isClassMethod() or self.isStaticMethod():
                 self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
@@ -1259,7 +1266,7 @@ if not self._CHEETAH__instanceInitialized:
     for k,v in KWs.items():
         if k in allowedKWs: cheetahKWArgs[k] = v
     self._initCheetahInstance(**cheetahKWArgs)
-""".replace('\n', '\n' + ' '*8)  # noqa: E226,E501 missing whitespace around operator
+"""
 
 
 class ClassCompiler(GenUtils):
@@ -1360,7 +1367,8 @@ class ClassCompiler(GenUtils):
         __init__.addChunk(
             'super(%s, self).__init__(*args, **KWs)' % self._className)
         __init__.addChunk(
-            _initMethod_initCheetah % {'className': self._className})
+            (_initMethod_initCheetah % {'className': self._className})
+            .replace('\n', '\n' + __init__.indentation()))
         for chunk in self._initMethChunks:
             __init__.addChunk(chunk)
         __init__.cleanupState()
diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 0c827b5..b6fb18d 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -437,7 +437,8 @@ class _LowLevelParser(SourceReader):
             + self.setting('multiLineCommentStartToken')[0]
             + self.setting('cheetahVarStartToken')[0]
             + self.setting('directiveStartToken')[0]
-            + self.setting('PSPStartToken')[0])
+            + self.setting('PSPStartToken')[0]
+            + (self.setting('EOLSlurpToken') or '')[:1])
         self._nonStrConstMatchers = [
             self.matchCommentStartToken,
             self.matchMultiLineCommentStartToken,
@@ -2087,9 +2088,9 @@ class _HighLevelParser(_LowLevelParser):
         endOfFirstLinePos = self.findEOL()
         startPos = self.pos()
         self.getDirectiveStartToken()
-        # self.advance() # eat @
         startPos = self.pos()
-        decoratorExpr = self.getExpression()
+        # '@' isn't part of the expression, it might be cheetahVarStartToken
+        decoratorExpr = self.getc() + self.getExpression()
         decoratorExpr = self._applyExpressionFilters(
             decoratorExpr, 'decorator', startPos=startPos)
         self._compiler.addDecorator(decoratorExpr)
-- 
2.43.0


From 242b6705c3fba820b0770af445ea2ba815caaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:43 +0000
Subject: [PATCH 46/70] fix: error catcher methods handle quotes, escapes,
 scopes, positions and subclasses

The generated catcher methods embedded the expression in triple quotes
without escaping it, shared one method between equal placeholders in
different scopes, reported the position of the first of them only,
collided with those of a superclass of the same name, and hid the
locals from lambdas and comprehensions. ErrorCatchers.KeyError raised
itself instead of the builtin exception.
---
 Cheetah/Compiler.py      | 29 ++++++++++++++++++++---------
 Cheetah/ErrorCatchers.py |  4 +++-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index c3099e3..4a30127 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -18,6 +18,7 @@ import random
 import warnings
 import copy
 import codecs
+import hashlib
 
 from .Version import Version, VersionTuple
 from .SettingsManager import SettingsManager
@@ -555,7 +556,8 @@ class MethodCompiler(GenUtils):
         if self.isErrorCatcherOn():
             methodName = self._classCompiler.addErrorCatcherCall(
                 expr, rawCode=rawPlaceholder, lineCol=lineCol)
-            expr = 'self.' + methodName + '(localsDict=locals())'
+            expr = ('self.' + methodName
+                    + '(localsDict=locals(), lineCol=%r)' % (lineCol,))
 
         if silentMode:
             self.addChunk('try:')
@@ -1512,16 +1514,21 @@ class ClassCompiler(GenUtils):
             % locals())
 
     def addErrorCatcherCall(self, codeChunk, rawCode='', lineCol=''):
-        if rawCode in self._placeholderToErrorCatcherMap:
-            methodName = self._placeholderToErrorCatcherMap[rawCode]
+        # the same placeholder might mean something else in another scope
+        catcherKey = (rawCode, codeChunk)
+        if catcherKey in self._placeholderToErrorCatcherMap:
+            methodName = self._placeholderToErrorCatcherMap[catcherKey]
             if not self.setting('outputRowColComments'):
                 self._methodsIndex[methodName].addMethDocString(
                     'plus at line %s, col %s' % lineCol)
             return methodName
 
         self._errorCatcherCount += 1
-        methodName = '__errorCatcher' + str(self._errorCatcherCount)
-        self._placeholderToErrorCatcherMap[rawCode] = methodName
+        # a superclass might have the same name, and thereby the same prefix
+        methodName = '__errorCatcher%d_%s' % (
+            self._errorCatcherCount,
+            hashlib.sha1(repr(catcherKey).encode('utf-8')).hexdigest()[:16])
+        self._placeholderToErrorCatcherMap[catcherKey] = methodName
 
         catcherMeth = self._spawnMethodCompiler(
             methodName,
@@ -1532,19 +1539,23 @@ class ClassCompiler(GenUtils):
         )
         catcherMeth.setMethodSignature(
             'def ' + methodName
-            + '(self, localsDict={})')  # is this use of localsDict right?
+            # is this use of localsDict right?
+            + '(self, localsDict={}, lineCol=%r)' % (lineCol,))
         catcherMeth.addChunk('try:')
         catcherMeth.indent()
         catcherMeth.addChunk(
-            "return eval('''" + codeChunk + "''', globals(), localsDict)")
+            # lambdas and the like see the locals as globals
+            "return eval(" + repr(codeChunk)
+            + ", dict(globals(), **localsDict), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
-            'except self._CHEETAH__errorCatcher.exceptions() as e:')
+            'except (self._CHEETAH__errorCatcher'
+            ' and self._CHEETAH__errorCatcher.exceptions() or ()) as e:')
         catcherMeth.indent()
         catcherMeth.addChunk(
             "return self._CHEETAH__errorCatcher.warn(exc_val=e, code= "
             + repr(codeChunk) + " , rawCode= "
-            + repr(rawCode) + " , lineCol=" + str(lineCol) + ")")
+            + repr(rawCode) + " , lineCol=lineCol)")
 
         catcherMeth.cleanupState()
 
diff --git a/Cheetah/ErrorCatchers.py b/Cheetah/ErrorCatchers.py
index 655cb78..381d863 100644
--- a/Cheetah/ErrorCatchers.py
+++ b/Cheetah/ErrorCatchers.py
@@ -2,6 +2,8 @@
 import time
 from .NameMapper import NotFound
 
+_KeyError = KeyError  # there's a class of that name below
+
 
 class Error(Exception):
     pass
@@ -31,7 +33,7 @@ class BigEcho(ErrorCatcher):
 
 class KeyError(ErrorCatcher):
     def warn(self, exc_val, code, rawCode, lineCol):
-        raise KeyError(
+        raise _KeyError(
             "no '%s' in this Template Object's Search List" % rawCode)
 
 
-- 
2.43.0


From 91694fb4ca167fd65abd75109afec3c909cea01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:04 +0000
Subject: [PATCH 47/70] fix: empty config values, and deep copies of merged
 nested settings

---
 Cheetah/SettingsManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 3b8ce12..e50c5ae 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -40,7 +40,7 @@ def mergeNestedDictionaries(dict1, dict2, copy=False, deepcopy=False):
             dict1[key] = mergeNestedDictionaries(dict1[key], val)
         elif isinstance(val, dict):
             # later merges must not modify the caller's dictionary
-            dict1[key] = copyModule.copy(val)
+            dict1[key] = mergeNestedDictionaries({}, val)
         else:
             dict1[key] = val
     return dict1
@@ -52,7 +52,7 @@ def stringIsNumber(S):
 
     S = S.strip()
 
-    if S[0] in '-+' and len(S) > 1:
+    if S[:1] in ('-', '+') and len(S) > 1:
         S = S[1:].strip()
 
     match = complexNumberRE.match(S)
-- 
2.43.0


From 2301e69b718f5dee254df359d1083f767907a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:04 +0000
Subject: [PATCH 48/70] fix: settings directives do not break code generated
 before them

addTimestampsToCompilerOutput, useFilters and useNameMapper were looked
up again at the end of a method or class, leaving __CHEETAH_genTime__,
_filter or SL undefined if a directive had changed them meanwhile.
---
 Cheetah/Compiler.py | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 4a30127..ca2ef21 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1196,22 +1196,22 @@ class AutoMethodCompiler(MethodCompiler):
             self.addChunk('trans = DummyTransaction()')
             self.addChunk('_dummyTrans = True')
         self.addChunk('write = trans.response().write')
-        if self.setting('useNameMapper'):
-            argNames = [arg[0] for arg in self._argStringList]
-            allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
-            if allowSearchListAsMethArg and 'SL' in argNames:
-                pass
-            elif allowSearchListAsMethArg and 'searchList' in argNames:
-                self.addChunk('SL = searchList')
-            elif not self.isClassMethod() and not self.isStaticMethod():
-                self.addChunk('SL = self._CHEETAH__searchList')
-            else:
-                self.addChunk('SL = [%s]' % (self._kwargsName or ''))
-        if self.setting('useFilters'):
-            if self.isClassMethod() or self.isStaticMethod():
-                self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
-            else:
-                self.addChunk('_filter = self._CHEETAH__currentFilter')
+        # directives might have changed useNameMapper or useFilters since code
+        # that needs these was generated
+        argNames = [arg[0] for arg in self._argStringList]
+        allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
+        if allowSearchListAsMethArg and 'SL' in argNames:
+            pass
+        elif allowSearchListAsMethArg and 'searchList' in argNames:
+            self.addChunk('SL = searchList')
+        elif not self.isClassMethod() and not self.isStaticMethod():
+            self.addChunk('SL = self._CHEETAH__searchList')
+        else:
+            self.addChunk('SL = [%s]' % (self._kwargsName or ''))
+        if self.isClassMethod() or self.isStaticMethod():
+            self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
+        else:
+            self.addChunk('_filter = self._CHEETAH__currentFilter')
         self.addChunk('')
         self.addChunk("#"*40)  # noqa: E226 missing whitespace around operator
         self.addChunk('## START - generated method body')
@@ -1331,12 +1331,6 @@ class ClassCompiler(GenUtils):
         self._generatedAttribs.append(
             '_CHEETAH_versionTuple = __CHEETAH_versionTuple__')
 
-        if self.setting('addTimestampsToCompilerOutput'):
-            self._generatedAttribs.append(
-                '_CHEETAH_genTime = __CHEETAH_genTime__')
-            self._generatedAttribs.append(
-                '_CHEETAH_genTimestamp = __CHEETAH_genTimestamp__')
-
         self._generatedAttribs.append('_CHEETAH_src = __CHEETAH_src__')
         self._generatedAttribs.append(
             '_CHEETAH_srcLastModified = __CHEETAH_srcLastModified__')
@@ -1601,6 +1595,12 @@ class ClassCompiler(GenUtils):
 
     def wrapClassDef(self):
         ind = self.setting('indentationStep')
+        # a directive might have changed the setting since the class was begun
+        if self.setting('addTimestampsToCompilerOutput'):
+            self._generatedAttribs.append(
+                '_CHEETAH_genTime = __CHEETAH_genTime__')
+            self._generatedAttribs.append(
+                '_CHEETAH_genTimestamp = __CHEETAH_genTimestamp__')
         classDefChunks = [self.classSignature(),
                           self.classDocstring(),
                           ]
-- 
2.43.0


From c31a28fa1a0458f516911ee3506052a2697bea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 49/70] fix: #defmacro macros survive settings directives;
 class-level preprocessors

A #compiler directive reconfigured the parser without the macros defined
before it, and preprocessors set on a Template class were applied to
their own intermediate template without end.
---
 Cheetah/Parser.py   | 4 ++++
 Cheetah/Template.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b6fb18d..4913f4f 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1524,6 +1524,10 @@ class _HighLevelParser(_LowLevelParser):
             self._macros[macroName] = callback
             self._directiveNamesAndParsers[macroName] = self.eatMacroCall
 
+        # those of #defmacro outlive a change of settings
+        for macroName in self._macroDetails:
+            self._directiveNamesAndParsers[macroName] = self.eatMacroCall
+
     def _applyExpressionFilters(self, expr, exprType,
                                 rawExpr=None, startPos=None):
         """Pipes cheetah expressions through a set of optional filter hooks.
diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 2b31e05..7f1ba72 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -978,7 +978,8 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateAPIClass'):
             class PreprocessTemplateAPIClass(klass):
-                pass
+                # the intermediate template isn't preprocessed itself
+                _CHEETAH_preprocessors = None
             settings.templateAPIClass = PreprocessTemplateAPIClass
 
         if not hasattr(settings, 'compilerSettings'):
-- 
2.43.0


From c628b1a5d96aa57f60b060e2afd33f8694966005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 50/70] fix: module names of template files are always valid
 identifiers

---
 Cheetah/convertTmplPathToModuleName.py | 32 ++++++++------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/Cheetah/convertTmplPathToModuleName.py b/Cheetah/convertTmplPathToModuleName.py
index 221d76a..a43057e 100644
--- a/Cheetah/convertTmplPathToModuleName.py
+++ b/Cheetah/convertTmplPathToModuleName.py
@@ -1,27 +1,15 @@
+import keyword
 import os.path
-import string
-from .compat import unicode
+import re
 
-letters = None
-try:
-    letters = string.ascii_letters
-except AttributeError:
-    letters = string.letters
+_notPartOfNameRE = re.compile('[^0-9A-Za-z_]')
 
-_l = ['_'] * 256
-for c in string.digits + letters:
-    _l[ord(c)] = c
-_pathNameTransChars = ''.join(_l)
-del _l, c
 
-
-def convertTmplPathToModuleName(tmplPath,
-                                _pathNameTransChars=_pathNameTransChars,
-                                splitdrive=os.path.splitdrive,
-                                ):
-    try:
-        moduleName = splitdrive(tmplPath)[1].translate(_pathNameTransChars)
-    except (UnicodeError, TypeError):
-        moduleName = unicode(splitdrive(tmplPath)[1])\
-            .translate(unicode(_pathNameTransChars))
+def convertTmplPathToModuleName(tmplPath, splitdrive=os.path.splitdrive):
+    """Return a name for the module of a template file.
+    It is a valid Python identifier whatever the path is.
+    """
+    moduleName = _notPartOfNameRE.sub('_', splitdrive(tmplPath)[1])
+    if moduleName[:1].isdigit() or keyword.iskeyword(moduleName):
+        moduleName = '_' + moduleName
     return moduleName
-- 
2.43.0


From bfc717808c59ce5711ee52a7116b39b679c22c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 51/70] fix: read template files in their declared encoding;
 keep text sources and blank lines unchanged

---
 Cheetah/Compiler.py | 65 ++++++++++++++++++++++++++++++++++++---------
 Cheetah/Parser.py   | 10 +++----
 Cheetah/Template.py |  8 +++---
 3 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index ca2ef21..f1e0f49 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -17,8 +17,8 @@ import time
 import random
 import warnings
 import copy
-import codecs
 import hashlib
+import io
 
 from .Version import Version, VersionTuple
 from .SettingsManager import SettingsManager
@@ -137,6 +137,48 @@ DEFAULT_COMPILER_SETTINGS = \
     dict([(v[0], v[1]) for v in _DEFAULT_COMPILER_SETTINGS])
 
 
+def declaredEncoding(data):
+    """Return the encoding that the bytes of a template declare, or None.
+    """
+    text = data.decode('latin-1')
+    match = encodingDirectiveRE.search(text) or unicodeDirectiveRE.search(text)
+    encoding = match and match.group(1)
+    if encoding:
+        try:
+            b' '.decode(encoding)
+        except LookupError:
+            return None  # reported with its place later
+    return encoding or None
+
+
+def readSourceFile(path):
+    """Return the text of a template file, read in the encoding it declares.
+    """
+    encoding = None
+    if not PY2:
+        with open(path, 'rb') as f:
+            encoding = declaredEncoding(f.read())
+    if encoding:
+        f = io.open(path, 'r', encoding=encoding)
+    else:
+        # if no encoding is specified, use the builtin open function
+        f = open(path, 'r')
+    with f:
+        return f.read()
+
+
+def encodeModule(code, encoding):
+    """Return the bytes of a generated module and the encoding they are in:
+    the one given, if it can be that of a Python module with this text.
+    """
+    try:
+        if '# coding'.encode(encoding) == b'# coding':
+            return code.encode(encoding), encoding
+    except (LookupError, UnicodeError):
+        pass
+    return code.encode('utf-8'), 'utf-8'
+
+
 class GenUtils(object):
     """
     An abstract baseclass for the Compiler classes that provides methods that
@@ -1714,17 +1756,20 @@ class ModuleCompiler(SettingsManager, GenUtils):
         elif isinstance(file, string_type):  # it's a filename.
             encoding = self.settings().get('encoding')
             if encoding:
-                f = codecs.open(file, 'r', encoding=encoding)
+                # codecs.open ignores an incomplete character at the end
+                with io.open(file, 'r', encoding=encoding, newline='') as f:
+                    source = f.read()
             else:
-                # if no encoding is specified, use the builtin open function
-                f = open(file, 'r')
-            source = f.read()
-            f.close()
+                source = readSourceFile(file)
             self._filePath = file
             self._fileMtime = os.path.getmtime(file)
         elif hasattr(file, 'read'):
             # Can't set filename or mtime -- they're not accessible
             source = file.read()
+            if isinstance(source, bytes) and not PY2:
+                encoding = self.settings().get('encoding')
+                source = source.decode(
+                    encoding or declaredEncoding(source) or 'utf-8')
         elif file:
             raise TypeError(
                 "'file' argument must be a filename string or file-like object"
@@ -1764,17 +1809,13 @@ class ModuleCompiler(SettingsManager, GenUtils):
                 if len(encodings):
                     encoding = encodings[0]
                     try:
-                        codecs.lookup(encoding)
+                        b' '.decode(encoding)
                     except LookupError as e:
                         raise ParseError(
                             SourceReader(source, filename=self._filePath),
                             str(e))
                     if isinstance(source, bytes):
                         source = source.decode(encoding)
-                    else:
-                        source = eval(
-                            repr(source).encode("ascii", "backslashreplace")
-                            .decode(encoding))
             else:
                 source = unicode(source)
 
@@ -2110,7 +2151,7 @@ class ModuleCompiler(SettingsManager, GenUtils):
         code = self.getModuleCode()
         if isinstance(code, bytes):
             return code
-        return code.encode(self.getModuleEncoding())
+        return encodeModule(code, self.getModuleEncoding())[0]
 
     def __to_unicode(self):
         code = self.getModuleCode()
diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4913f4f..dc7d450 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -160,11 +160,11 @@ specialVarRE = re.compile(r'([a-zA-z_]+)@')  # for matching specialVar comments
 # e.g. ##author@ Tavis Rudd
 
 unicodeDirectiveRE = re.compile(
-    r'(?:^|\r\n|\r|\n)\s*#\s{0,5}unicode[:\s]*([-\w.]*)\s*(?:\r\n|\r|\n)',
-    re.MULTILINE)
+    r'(?:\A|(?<=[\r\n]))[ \f\t]*#[ \f\t]{0,5}unicode'
+    r'(?![-\w.])[: \f\t]*([-\w.]*)[ \f\t]*(?:\r\n|\r|\n|\Z)')
 encodingDirectiveRE = re.compile(
-    r'(?:^|\r\n|\r|\n)\s*#\s{0,5}encoding[:\s]*([-\w.]*)\s*(?:\r\n|\r|\n)',
-    re.MULTILINE)
+    r'(?:\A|(?<=[\r\n]))[ \f\t]*#[ \f\t]{0,5}encoding'
+    r'(?![-\w.])[: \f\t]*([-\w.]*)[ \f\t]*(?:\r\n|\r|\n|\Z)')
 
 escapedNewlineRE = re.compile(r'(?<!\\)((\\\\)*)\\(n|012)')
 
@@ -1973,7 +1973,7 @@ class _HighLevelParser(_LowLevelParser):
         encoding = self.readToEOL()
         encoding = self._applyExpressionFilters(encoding, 'encoding',
                                                 startPos=startPos)
-        self._compiler.setModuleEncoding(encoding.strip())
+        self._compiler.setModuleEncoding(encoding.strip().lstrip(': \t'))
 
     def eatCompiler(self):
         # filtered
diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 7f1ba72..4128a70 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -34,7 +34,7 @@ from . import ErrorCatchers              # for placeholder tags
 from . import Filters                    # the output filters
 from .CacheRegion import CacheRegion
 from .CacheStore import MemoryCacheStore  # , MemcachedCacheStore
-from .Compiler import Compiler
+from .Compiler import Compiler, encodeModule, readSourceFile
 from .NameMapper import NotFound, valueFromSearchList
 from .Parser import ParseError, SourceReader
 # Base classes for Template
@@ -160,9 +160,7 @@ class TemplatePreprocessor(object):
         settings = self._settings
         if not source:  # @@TR: this needs improving
             if isinstance(file, (str, unicode)):  # it's a filename.
-                f = open(file)
-                source = f.read()
-                f.close()
+                source = readSourceFile(file)
             elif hasattr(file, 'read'):
                 source = file.read()
             file = None
@@ -784,6 +782,8 @@ class Template(Servlet):
             # This is a bit of a hackish solution to make sure
             # we're setting the proper encoding on generated code
             # that is destined to be written to a file.
+            outputEncoding = encodeModule(generatedModuleCode,
+                                          outputEncoding)[1]
             if not outputEncoding == 'ascii':
                 generatedModuleCode = generatedModuleCode.split('\n')
                 generatedModuleCode.insert(
-- 
2.43.0


From c1120b1df01a9a35e233bedfbd16338737db3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 52/70] fix: command line honours --encoding, search list,
 collisions and failed children

---
 Cheetah/CheetahWrapper.py | 74 +++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 31 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8c85a71..dd6fd80 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -2,12 +2,15 @@
 
 import codecs
 import glob
+import io
+import locale
 import os
 import pprint
 import re
 import shutil
 import sys
 import json
+import tokenize
 try:
     import cPickle as pickle
 except ImportError:  # PY3
@@ -368,12 +371,13 @@ you do have write permission to and re-run the tests.""")
             usage(HELP_PAGE1, "Neither files nor -R specified!")
         else:
             sourceFiles = self._expandSourceFiles(files, opts.recurse, True)
-        sourceFiles = [os.path.normpath(x) for x in sourceFiles]
+        seen = set()
+        sourceFiles = [x for x in map(os.path.normpath, sourceFiles)
+                       if not (x in seen or seen.add(x))]
         D("All source files found: %s", sourceFiles)
         bundles = self._getBundles(sourceFiles)
         D("All bundles: %s", pprint.pformat(bundles))
-        if self.opts.flat:
-            self._checkForCollisions(bundles)
+        self._checkForCollisions(bundles)
 
         # In parallel mode a new process is forked for each template
         # compilation, out of a pool of size self.opts.parallel. This is not
@@ -389,7 +393,8 @@ you do have write permission to and re-run the tests.""")
             def child_wait():
                 pid, status = os.wait()
                 pid_pool.remove(pid)
-                return os.WEXITSTATUS(status)
+                # a child might have been killed
+                return os.WEXITSTATUS(status) or os.WTERMSIG(status)
 
             while bundles:
                 b = bundles.pop()
@@ -481,7 +486,8 @@ you do have write permission to and re-run the tests.""")
 
     def _getBundles(self, sourceFiles):
         flat = self.opts.flat
-        idir = self.opts.idir
+        # sourceFiles are normalized
+        idir = self.opts.idir and os.path.normpath(self.opts.idir)
         iext = self.opts.iext
         odir = self.opts.odir
         oext = self.opts.oext
@@ -502,8 +508,7 @@ you do have write permission to and re-run the tests.""")
                 if odir and base.startswith(os.sep):
                     odd = odir
                     while odd != '':
-                        idx = base.find(odd)
-                        if idx == 0:
+                        if base.startswith(odd.rstrip('/') + '/'):
                             dbn = base[len(odd):]
                             if dbn[0] == '/':
                                 dbn = dbn[1:]
@@ -581,22 +586,32 @@ you do have write permission to and re-run the tests.""")
                         'is not a valid compiler setting name.'
                         % k)
 
-            self._compilerSettings = settings
-            return settings
         else:
-            return {}
+            settings = {}
+        if self.opts.encoding:
+            settings.setdefault('encoding', self.opts.encoding)
+        self._compilerSettings = settings
+        return settings
 
     def _compileOrFillStdin(self):
         TemplateClass = self._getTemplateClass()
         compilerSettings = self._getCompilerSettings()
         if self.isCompile:
-            pysrc = TemplateClass.compile(file=sys.stdin,
-                                          compilerSettings=compilerSettings,
-                                          returnAClass=False)
-            output = pysrc if PY2 else pysrc.decode()
+            output = TemplateClass.compile(file=sys.stdin,
+                                           compilerSettings=compilerSettings,
+                                           commandlineopts=self.opts,
+                                           returnAClass=False)
         else:
             output = str(TemplateClass(file=sys.stdin,
+                                       searchList=self.searchList,
                                        compilerSettings=compilerSettings))
+        self._writeToStdout(output)
+
+    def _writeToStdout(self, output):
+        if not PY2 and isinstance(output, bytes):
+            # the source code of a module
+            encoding = tokenize.detect_encoding(io.BytesIO(output).readline)[0]
+            output = output.decode(encoding)
         sys.stdout.write(output)
 
     def _compileOrFillBundle(self, b):
@@ -633,6 +648,13 @@ be named according to the same rules as Python modules.""" % tup)
                                            compilerSettings=compilerSettings)
             output = str(tclass(searchList=self.searchList))
 
+        encoding = self.opts.encoding
+        if not PY2 and not isinstance(output, bytes):
+            # fail before anything is written
+            output.encode(encoding or locale.getpreferredencoding(False))
+        if self.opts.stdout:
+            self._writeToStdout(output)
+            return
         if bak:
             shutil.copyfile(dst, bak)
         if dstDir and not os.path.exists(dstDir):
@@ -640,24 +662,14 @@ be named according to the same rules as Python modules.""" % tup)
                 mkdirsWithPyInitFiles(dstDir)
             else:
                 os.makedirs(dstDir)
-        if self.opts.stdout:
-            if not PY2:
-                encoding = self.opts.encoding
-                if encoding and isinstance(output, bytes):
-                    output = output.decode(encoding)
-            sys.stdout.write(output)
+        if isinstance(output, bytes):
+            f = open(dst, 'wb')
+        elif encoding:
+            f = codecs.open(dst, 'w', encoding=encoding)
         else:
-            encoding = self.opts.encoding
-            if encoding:
-                if isinstance(output, bytes):
-                    output = output.decode(encoding)
-                f = codecs.open(dst, 'w', encoding=encoding)
-            else:
-                if not PY2 and isinstance(output, bytes):
-                    output = output.decode()
-                f = open(dst, 'w')
-            f.write(output)
-            f.close()
+            f = open(dst, 'w')
+        f.write(output)
+        f.close()
 
 
 # Called when invoked as `cheetah`
-- 
2.43.0


From 96a43269d89a09d922580c3baf4677442d773e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:38 +0000
Subject: [PATCH 53/70] fix: check a declared encoding without data of that
 encoding

---
 Cheetah/Compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index f1e0f49..473b544 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -145,7 +145,7 @@ def declaredEncoding(data):
     encoding = match and match.group(1)
     if encoding:
         try:
-            b' '.decode(encoding)
+            ' '.encode(encoding)
         except LookupError:
             return None  # reported with its place later
     return encoding or None
@@ -1809,7 +1809,7 @@ class ModuleCompiler(SettingsManager, GenUtils):
                 if len(encodings):
                     encoding = encodings[0]
                     try:
-                        b' '.decode(encoding)
+                        ' '.encode(encoding)
                     except LookupError as e:
                         raise ParseError(
                             SourceReader(source, filename=self._filePath),
-- 
2.43.0


From 988e606e6d8c20321219e154cc85baf051b960b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:54 +0000
Subject: [PATCH 54/70] fix: documentation comments become docstrings with the
 same text

---
 Cheetah/Compiler.py | 23 +++++++++++++++--------
 Cheetah/Parser.py   |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 473b544..9ec68b9 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -179,6 +179,12 @@ def encodeModule(code, encoding):
     return code.encode('utf-8'), 'utf-8'
 
 
+def docStringLine(line):
+    """Return a line of text as it has to be written in a \"\"\" docstring.
+    """
+    return line.replace('\\', '\\\\').replace('"', '\\"')
+
+
 class GenUtils(object):
     """
     An abstract baseclass for the Compiler classes that provides methods that
@@ -463,14 +469,14 @@ class MethodCompiler(GenUtils):
 
         ind = self._indent*2  # noqa: E226 missing whitespace around operator
         docStr = (ind + '"""\n' + ind
-                  + ('\n' + ind).join([ln.replace('"""', "'''")
+                  + ('\n' + ind).join([docStringLine(ln)
                                        for ln in self._docStringLines])
                   + '\n' + ind + '"""\n')
         return docStr
 
     # methods for adding code
     def addMethDocString(self, line):
-        self._docStringLines.append(line.replace('%', '%%'))
+        self._docStringLines.append(line)
 
     def addChunk(self, chunk):
         self.commitStrConst()
@@ -1516,7 +1522,7 @@ class ClassCompiler(GenUtils):
         self._decoratorsForNextMethod.append(decoratorExpr)
 
     def addClassDocString(self, line):
-        self._classDocStringLines.append(line.replace('%', '%%'))
+        self._classDocStringLines.append(line)
 
     def addChunkToInit(self, chunk):
         self._initMethChunks.append(chunk)
@@ -1680,10 +1686,10 @@ class ClassCompiler(GenUtils):
         if not self._classDocStringLines:
             return ''
         ind = self.setting('indentationStep')
-        docStr = ('%(ind)s"""\n%(ind)s'
-                  + '\n%(ind)s'.join(self._classDocStringLines)
-                  + '\n%(ind)s"""\n'
-                  ) % {'ind': ind}
+        docStr = (ind + '"""\n' + ind
+                  + ('\n' + ind).join([docStringLine(ln)
+                                       for ln in self._classDocStringLines])
+                  + '\n' + ind + '"""\n')
         return docStr
 
     def methodDefs(self):
@@ -2251,7 +2257,8 @@ if not hasattr(%(mainClassName)s, '_initCheetahAttributes'):
         if not self._moduleDocStringLines:
             return ''
 
-        return ('"""' + '\n'.join(self._moduleDocStringLines)
+        return ('"""' + '\n'.join([docStringLine(ln) for ln in
+                                   self._moduleDocStringLines])
                 + '\n"""\n')
 
     def specialVars(self):
diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index dc7d450..40932b2 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -156,7 +156,7 @@ nameCharLookAhead = r'(?=[A-Za-z_])'
 identRE = re.compile(r'[a-zA-Z_][a-zA-Z_0-9]*')
 EOLre = re.compile(r'(?:\r\n|\r|\n)')
 
-specialVarRE = re.compile(r'([a-zA-z_]+)@')  # for matching specialVar comments
+specialVarRE = re.compile(r'([a-zA-Z_]+)@')  # for matching specialVar comments
 # e.g. ##author@ Tavis Rudd
 
 unicodeDirectiveRE = re.compile(
-- 
2.43.0


From adb79be49e37d7c93869669abfaed5a954ec33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:11 +0000
Subject: [PATCH 55/70] fix: parallel compile and fill do not fail when
 creating the same directory

---
 Cheetah/CheetahWrapper.py | 10 ++++++++--
 Cheetah/Utils/Misc.py     |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index dd6fd80..d1a1356 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -377,7 +377,8 @@ you do have write permission to and re-run the tests.""")
         D("All source files found: %s", sourceFiles)
         bundles = self._getBundles(sourceFiles)
         D("All bundles: %s", pprint.pformat(bundles))
-        self._checkForCollisions(bundles)
+        if self.opts.flat or not self.opts.stdout:
+            self._checkForCollisions(bundles)
 
         # In parallel mode a new process is forked for each template
         # compilation, out of a pool of size self.opts.parallel. This is not
@@ -661,7 +662,12 @@ be named according to the same rules as Python modules.""" % tup)
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-                os.makedirs(dstDir)
+                try:
+                    os.makedirs(dstDir)
+                except OSError:
+                    # another child might have just created the directory
+                    if not os.path.isdir(dstDir):
+                        raise
         if isinstance(output, bytes):
             f = open(dst, 'wb')
         elif encoding:
diff --git a/Cheetah/Utils/Misc.py b/Cheetah/Utils/Misc.py
index a046f5f..94990c7 100644
--- a/Cheetah/Utils/Misc.py
+++ b/Cheetah/Utils/Misc.py
@@ -60,9 +60,14 @@ def mkdirsWithPyInitFiles(path):
     if dir and not os.path.exists(dir):
         mkdirsWithPyInitFiles(dir)
     if not os.path.exists(path):
-        os.mkdir(path)
+        try:
+            os.mkdir(path)
+        except OSError:
+            # another process might have just created the directory
+            if not os.path.isdir(path):
+                raise
         init = os.path.join(path, "__init__.py")
-        f = open(init, 'w')  # Open and close to produce empty file.
+        f = open(init, 'a')  # Open and close to produce empty file.
         f.close()
 
 # vim: shiftwidth=4 tabstop=4 expandtab
-- 
2.43.0


From 6de8a98f1d9f6cbad177c85b4f0e2ad94833e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:43 +0000
Subject: [PATCH 56/70] fix: import hooks leave no half-initialised modules and
 restore the import system

---
 Cheetah/ImportHooks.py   | 19 +++++++++++---
 Cheetah/ImportManager.py | 56 ++++++++++++++++++++++++++++------------
 Cheetah/LoadTemplate.py  |  8 +++++-
 3 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/Cheetah/ImportHooks.py b/Cheetah/ImportHooks.py
index 00d6dca..8110290 100644
--- a/Cheetah/ImportHooks.py
+++ b/Cheetah/ImportHooks.py
@@ -12,6 +12,7 @@ try:
 except ImportError:
     invalidate_caches = None
 import sys
+import os
 import os.path
 import py_compile
 import types
@@ -37,7 +38,7 @@ _cacheDir = []
 
 
 def setCacheDir(cacheDir):
-    _cacheDir.append(cacheDir)
+    _cacheDir[:] = [cacheDir]
 
 ##################################################
 # CLASSES
@@ -88,10 +89,16 @@ class CheetahDirOwner(DirOwner):
                 _cacheDir[0], convertTmplPathToModuleName(tmplPath)) + '.py'
         else:
             __file__ = os.path.splitext(tmplPath)[0] + '.py'
+        # others must never find a part of the module
+        _tmp_file = '%s.%s.tmp' % (__file__, os.getpid())
         try:
-            with open(__file__, 'w') as _py_file:
-                _py_file.write(code)
+            with open(_tmp_file, 'wb') as _py_file:
+                _py_file.write(code if isinstance(code, bytes)
+                               else code.encode('utf-8'))
+            getattr(os, 'replace', os.rename)(_tmp_file, __file__)
         except (IOError, OSError):
+            if os.path.exists(_tmp_file):
+                os.remove(_tmp_file)
             # @@ TR: need to add some error code here
             if self.debuglevel > 0:
                 traceback.print_exc(file=sys.stderr)
@@ -129,6 +136,8 @@ def install(templateFileExtensions=('.tmpl',)):
             global _manager
             _manager = ImportManager.ImportManager()
             _manager.setThreaded()
+            global _oldreload
+            _oldreload = getattr(builtin, 'reload', None)
             _manager.install()
             _installed = True
 
@@ -139,6 +148,10 @@ def uninstall():
     if _installed:
         if isinstance(builtin.__import__, types.MethodType):
             builtin.__import__ = __oldimport__
+            if _oldreload is None:
+                del builtin.reload
+            else:
+                builtin.reload = _oldreload
             if ImportManager._globalOwnerTypes[0] is CheetahDirOwner:
                 del ImportManager._globalOwnerTypes[0]
             del ImportManager.__oldimport__
diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 3abb6ee..0aefc76 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -215,16 +215,13 @@ class DirOwner(Owner):
         if py is None and pyc is None:
             return None
         while True:
-            if pyc is None or py and pyc[1][8] < py[1][8]:
+            # the times are in seconds
+            if pyc is None or py and pyc[1][8] <= py[1][8]:
                 try:
-                    try:
-                        with open(py[0], 'r') as py_code_file:
-                            py_code = py_code_file.read()
-                    except UnicodeDecodeError:
-                        with open(py[0], 'r', encoding='utf-8') \
-                                as py_code_file:
-                            py_code = py_code_file.read()
-                    co = compile(py_code + '\n', py[0], 'exec')
+                    # bytes, to have the encoding detected by Python
+                    with open(py[0], 'rb') as py_code_file:
+                        py_code = py_code_file.read()
+                    co = compile(py_code + b'\n', py[0], 'exec')
                     try:
                         py_compile.compile(py[0])
                     except IOError:
@@ -252,7 +249,7 @@ class DirOwner(Owner):
                     co = loadco(stuff[offset:])
                     __file__ = pyc[0]
                     break
-                except (ValueError, EOFError):
+                except (ValueError, EOFError, TypeError):
                     pyc = None
             else:
                 return None
@@ -451,6 +448,7 @@ class ImportManager:
         argument can be found here:
         https://docs.python.org/2/library/functions.html#__import__
         '''
+        globals_ = sys.modules[__name__].__dict__
         # first see if we could be importing a relative name
         _sys_modules_get = sys.modules.get
         contexts = [None]
@@ -458,11 +456,15 @@ class ImportManager:
             importernm = globals.get('__name__', '')
             if importernm:
                 if hasattr(_sys_modules_get(importernm), '__path__'):
-                    contexts.insert(0, importernm)
+                    pkgnm = importernm
                 else:
                     pkgnm = packageName(importernm)
-                    if pkgnm:
-                        contexts.insert(0, pkgnm)
+                for i in range(level - 1):
+                    pkgnm = packageName(pkgnm)
+                if pkgnm:
+                    contexts.insert(0, pkgnm)
+                    if not PY2:
+                        del contexts[1]  # never an absolute import
         # so contexts is [pkgnm, None] or just [None]
         # now break the name being imported up so we get:
         # a.b.c -> [a, b, c]
@@ -498,9 +500,13 @@ class ImportManager:
         if i < len(nmparts):
             if ctx and hasattr(sys.modules[ctx], nmparts[i]):
                 return sys.modules[nmparts[0]]
-            del sys.modules[fqname]
+            sys.modules.pop(fqname, None)
+            if not PY2 and '__oldimport__' in globals_:
+                # it is not a file in a directory; Python might find it
+                return __oldimport__(  # noqa: F821 undefined name
+                    name, globals, locals, fromlist or (), max(level, 0))
             raise ModuleNotFoundError("No module named %s" % fqname)
-        if fromlist is None:
+        if not fromlist:
             if context:
                 return sys.modules[context + '.' + nmparts[0]]
             return sys.modules[nmparts[0]]
@@ -522,7 +528,15 @@ class ImportManager:
                     mod = self.doimport(nm, ctx, ctx + '.' + nm)
                     if self.threaded:
                         self._release()
+                    if not mod and not PY2 and '__oldimport__' in globals_:
+                        try:
+                            mod = __oldimport__(  # noqa: F821 undefined name
+                                ctx + '.' + nm)
+                        except ModuleNotFoundError as e:
+                            if e.name != ctx + '.' + nm:
+                                raise
                     if not mod:
+                        sys.modules.pop(ctx + '.' + nm, None)
                         raise ModuleNotFoundError(
                             "%s not found in %s" % (nm, ctx))
         return bottommod
@@ -560,10 +574,18 @@ class ImportManager:
             if hasattr(mod, '__co__'):
                 co = mod.__co__
                 del mod.__co__
-                exec(co, mod.__dict__)
+                try:
+                    exec(co, mod.__dict__)
+                except BaseException:
+                    # do not leave a half-initialised module behind
+                    if sys.modules.get(fqname) is mod:
+                        del sys.modules[fqname]
+                    if parentnm and getattr(parent, nm, None) is mod:
+                        delattr(parent, nm)
+                    raise
             if fqname == 'thread' and not self.threaded:
                 self.setThreaded()
-        else:
+        elif PY2:
             sys.modules[fqname] = None
         return mod
 
diff --git a/Cheetah/LoadTemplate.py b/Cheetah/LoadTemplate.py
index 28d4394..31999b1 100644
--- a/Cheetah/LoadTemplate.py
+++ b/Cheetah/LoadTemplate.py
@@ -37,7 +37,13 @@ def loadTemplateModule(templatePath, debuglevel=0):
     sys.modules[filename] = mod
     co = mod.__co__
     del mod.__co__
-    exec(co, mod.__dict__)
+    try:
+        exec(co, mod.__dict__)
+    except BaseException:
+        # do not leave a half-initialised module behind
+        if sys.modules.get(filename) is mod:
+            del sys.modules[filename]
+        raise
     return mod
 
 
-- 
2.43.0


From bb568e032cd8e58e51c9254cefc0e3f2e41ed016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:40 +0000
Subject: [PATCH 57/70] fix: imports under the hooks bind submodules as Python
 does and keep no broken generated module

---
 Cheetah/ImportHooks.py   |  5 +++--
 Cheetah/ImportManager.py | 13 ++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/Cheetah/ImportHooks.py b/Cheetah/ImportHooks.py
index 8110290..6f86489 100644
--- a/Cheetah/ImportHooks.py
+++ b/Cheetah/ImportHooks.py
@@ -89,6 +89,8 @@ class CheetahDirOwner(DirOwner):
                 _cacheDir[0], convertTmplPathToModuleName(tmplPath)) + '.py'
         else:
             __file__ = os.path.splitext(tmplPath)[0] + '.py'
+        # do not keep a module that cannot be imported
+        co = compile(code + '\n', __file__, 'exec')
         # others must never find a part of the module
         _tmp_file = '%s.%s.tmp' % (__file__, os.getpid())
         try:
@@ -102,13 +104,12 @@ class CheetahDirOwner(DirOwner):
             # @@ TR: need to add some error code here
             if self.debuglevel > 0:
                 traceback.print_exc(file=sys.stderr)
-            __file__ = tmplPath
+            co = compile(code + '\n', tmplPath, 'exec')
         else:
             try:
                 py_compile.compile(__file__)
             except IOError:
                 pass
-        co = compile(code + '\n', __file__, 'exec')
 
         mod = types.ModuleType(name)
         mod.__file__ = co.co_filename
diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 0aefc76..48e7f32 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -465,6 +465,9 @@ class ImportManager:
                     contexts.insert(0, pkgnm)
                     if not PY2:
                         del contexts[1]  # never an absolute import
+                elif not PY2:
+                    raise ImportError("attempted relative import "
+                                      "beyond top-level package")
         # so contexts is [pkgnm, None] or just [None]
         # now break the name being imported up so we get:
         # a.b.c -> [a, b, c]
@@ -525,7 +528,9 @@ class ImportManager:
                 if not hasattr(bottommod, nm):
                     if self.threaded:
                         self._acquire()
-                    mod = self.doimport(nm, ctx, ctx + '.' + nm)
+                    mod = sys.modules.get(ctx + '.' + nm)
+                    if not mod:
+                        mod = self.doimport(nm, ctx, ctx + '.' + nm)
                     if self.threaded:
                         self._release()
                     if not mod and not PY2 and '__oldimport__' in globals_:
@@ -552,8 +557,6 @@ class ImportManager:
                     subimporter = PathImportDirector(parent.__path__)
                     importfunc = parent.__importsub__ = subimporter.getmod
                 mod = importfunc(nm)
-                if mod:
-                    setattr(parent, nm, mod)
             else:
                 return None
         else:
@@ -580,9 +583,9 @@ class ImportManager:
                     # do not leave a half-initialised module behind
                     if sys.modules.get(fqname) is mod:
                         del sys.modules[fqname]
-                    if parentnm and getattr(parent, nm, None) is mod:
-                        delattr(parent, nm)
                     raise
+            if parentnm:
+                setattr(parent, nm, mod)
             if fqname == 'thread' and not self.threaded:
                 self.setThreaded()
         elif PY2:
-- 
2.43.0


From 066788669a942103c737701022becf7bd0f036bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:28 +0000
Subject: [PATCH 58/70] fix: report pages, site hierarchy, null object and
 reloading loader work as documented

---
 Cheetah/Tools/MondoReport.py                 | 9 +++++++--
 Cheetah/Tools/RecursiveNull.py               | 2 +-
 Cheetah/Tools/SiteHierarchy.py               | 2 +-
 Cheetah/Tools/turbocheetah/cheetahsupport.py | 7 ++++---
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/Cheetah/Tools/MondoReport.py b/Cheetah/Tools/MondoReport.py
index e76de91..aa4c823 100644
--- a/Cheetah/Tools/MondoReport.py
+++ b/Cheetah/Tools/MondoReport.py
@@ -54,7 +54,8 @@ def isNotNone(v):
 def Roman(n):
     n = int(n)  # Raises TypeError.
     if n < 1:
-        raise ValueError("roman numeral for zero or negative undefined: " + n)
+        raise ValueError(
+            "roman numeral for zero or negative undefined: %s" % n)
     roman = ''
     while n >= 1000:
         n = n - 1000
@@ -204,6 +205,8 @@ class RecordStats(IndexFormats, ValuesGetterMixin):
 
     def _firstOrLastValue(self, field, currentIndex, otherIndex):
         currentValue = self._origList[currentIndex]  # Raises IndexError.
+        if otherIndex < 0:
+            return True
         try:
             otherValue = self._origList[otherIndex]
         except IndexError:
@@ -228,6 +231,8 @@ class RecordStats(IndexFormats, ValuesGetterMixin):
             val = lookup_func(rec, field)
         else:
             val = rec
+        if not isNumeric(val):
+            return default
         try:
             lis = self._getValues(field, isNumeric)
         except NegativeError:
@@ -407,7 +412,7 @@ class MondoReport:
         end = min(start + size, len(self._origList))
         mySlice = origList[start:end]
         ret = []
-        for rel in range(size):
+        for rel in range(len(mySlice)):
             abs_ = start + rel
             r = mySlice[rel]
             a = self._RecordStatsClass(origList, abs_)
diff --git a/Cheetah/Tools/RecursiveNull.py b/Cheetah/Tools/RecursiveNull.py
index bebf5bb..1471ced 100644
--- a/Cheetah/Tools/RecursiveNull.py
+++ b/Cheetah/Tools/RecursiveNull.py
@@ -25,7 +25,7 @@ class RecursiveNull(object):
         return ''
     if sys.version_info[0] >= 3:
         def __bool__(self):
-            return 0
+            return False
     else:
         def __nonzero__(self):
             return 0
diff --git a/Cheetah/Tools/SiteHierarchy.py b/Cheetah/Tools/SiteHierarchy.py
index e52cde6..daaee95 100755
--- a/Cheetah/Tools/SiteHierarchy.py
+++ b/Cheetah/Tools/SiteHierarchy.py
@@ -20,7 +20,7 @@ There are methods you can override to customize the HTML output.
 try:
     from cStringIO import StringIO
 except ImportError:
-    from StringIO import StringIO
+    from io import StringIO
 
 ##################################################
 # CLASSES
diff --git a/Cheetah/Tools/turbocheetah/cheetahsupport.py b/Cheetah/Tools/turbocheetah/cheetahsupport.py
index 7a7f2c0..fa5fe47 100644
--- a/Cheetah/Tools/turbocheetah/cheetahsupport.py
+++ b/Cheetah/Tools/turbocheetah/cheetahsupport.py
@@ -78,16 +78,17 @@ class TurboCheetah:
             if classname in ct:
                 mtime = os.stat(tfile).st_mtime
                 if ct[classname] != mtime:
-                    ct[classname] = mtime
-                    del sys.modules[classname]
+                    sys.modules.pop(classname, None)
                     mod = _recompile_template(package, basename,
                                               tfile, classname)
+                    ct[classname] = mtime
                 else:
                     mod = __import__(classname, dict(), dict(), [basename])
             else:
-                ct[classname] = os.stat(tfile).st_mtime
+                mtime = os.stat(tfile).st_mtime
                 mod = _recompile_template(package, basename,
                                           tfile, classname)
+                ct[classname] = mtime
         else:
             mod = __import__(classname, dict(), dict(), [basename])
         tempclass = getattr(mod, basename)
-- 
2.43.0


From 3fc2130b70cbb04872eb712e70fd648d1328ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 59/70] fix: the compiler decodes sources given as bytes

---
 Cheetah/Compiler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 9ec68b9..0c2b4d5 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1772,14 +1772,14 @@ class ModuleCompiler(SettingsManager, GenUtils):
         elif hasattr(file, 'read'):
             # Can't set filename or mtime -- they're not accessible
             source = file.read()
-            if isinstance(source, bytes) and not PY2:
-                encoding = self.settings().get('encoding')
-                source = source.decode(
-                    encoding or declaredEncoding(source) or 'utf-8')
         elif file:
             raise TypeError(
                 "'file' argument must be a filename string or file-like object"
             )
+        if isinstance(source, bytes) and not PY2:
+            encoding = self.settings().get('encoding')
+            source = source.decode(
+                encoding or declaredEncoding(source) or 'utf-8')
 
         if self._filePath:
             self._fileDirName, self._fileBaseName = \
-- 
2.43.0


From b27f34a68496c148559b510b09e76f33a470cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:50 +0000
Subject: [PATCH 60/70] fix: #set accepts the floor division assignment

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 40932b2..4567208 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -87,7 +87,7 @@ binaryArithOps = ('+', '-', '/', '//', '%')
 shiftOps = ('>>', '<<')
 bitwiseOps = ('&', '|', '^')
 assignOp = '='
-augAssignOps = ('+=', '-=', '/=', '*=', '**=', '^=', '%=',
+augAssignOps = ('+=', '-=', '/=', '//=', '*=', '**=', '^=', '%=',
                 '>>=', '<<=', '&=', '|=', )
 assignmentOps = (assignOp,) + augAssignOps
 
-- 
2.43.0


From 86045c0c15569b3ef3bd144a63ce68ab805031bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:09 +0000
Subject: [PATCH 61/70] fix: decorators of closures apply to them, not to the
 next method

---
 Cheetah/Compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 0c2b4d5..3621239 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -740,6 +740,10 @@ class MethodCompiler(GenUtils):
             argStringChunks.append(chunk)
         signature = \
             "def " + functionName + "(" + ','.join(argStringChunks) + "):"
+        decorators = self._classCompiler._decoratorsForNextMethod
+        self._classCompiler._decoratorsForNextMethod = []
+        for decorator in decorators:
+            self.addChunk(decorator)
         self.addIndentingDirective(signature)
         self.addChunk('#' + parserComment)
 
-- 
2.43.0


From e3a7672102bbfe5e40d47fe688652224591a6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:28 +0000
Subject: [PATCH 62/70] fix: one-line definitions may have argument lists of
 several lines

---
 Cheetah/Parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4567208..80cd7ff 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2162,6 +2162,8 @@ class _HighLevelParser(_LowLevelParser):
                            and [name for name in self._openDirectivesStack
                                 if name == 'def'])
             self.getc()
+            # the argument list may end on a later line
+            endOfFirstLinePos = self.findEOL()
             rawSignature = self[startPos:endOfFirstLinePos]
             self._eatSingleLineDef(directiveName=directiveName,
                                    methodName=methodName,
@@ -2222,7 +2224,8 @@ class _HighLevelParser(_LowLevelParser):
     def _eatSingleLineDef(self, directiveName, methodName,
                           argsList, startPos, endPos):
         # filtered in calling method
-        fullSignature = self[startPos:endPos]
+        fullSignature = ' '.join(
+            [line.strip() for line in self[startPos:endPos].splitlines()])
         parserComment = ('## Generated from ' + fullSignature
                          + ' at line %s, col %s' % self.getRowCol(startPos)
                          + '.')
-- 
2.43.0


From d93e3c2341d0433019e8d5beb4d355b506974961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:08 +0000
Subject: [PATCH 63/70] fix: #extends knows imports at the top also when
 useLegacyImportMode is off

---
 Cheetah/Compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 3621239..4786207 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1968,6 +1968,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
         if not settings.get('useLegacyImportMode'):
             if raw_statement and getattr(self, '_methodBodyChunks'):
                 self.addChunk(raw_statement)
+            else:
+                self._importedVarNames.extend(varNames)
         else:
             self._importedVarNames.extend(varNames)
 
-- 
2.43.0


From cb84448bef7f444056e3d74037ce30fa78b71965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 64/70] fix: #extends knows classes imported in parentheses

---
 Cheetah/Compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 4786207..4449e5e 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -2106,8 +2106,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
             self._importStatements.append(impStatement)
 
         # @@TR 2005-01-01: there's almost certainly a cleaner way to do this!
-        importVarNames = impStatement[
-            impStatement.find('import') + len('import'):].split(',')
+        importVarNames = re.split(r'\bimport\b', impStatement, maxsplit=1)[-1]
+        importVarNames = importVarNames.strip().strip('()').split(',')
         # handle aliases
         importVarNames = [var.split()[-1] for var in importVarNames
                           if var.strip()]
-- 
2.43.0


From 2b20483a635749ebd3b32a9d7a36a7cd2df7b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:01 +0000
Subject: [PATCH 65/70] fix: SkeletonPage.javascriptTags writes the code it is
 given

---
 Cheetah/Templates/_SkeletonPage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Templates/_SkeletonPage.py b/Cheetah/Templates/_SkeletonPage.py
index e4590f9..456f233 100644
--- a/Cheetah/Templates/_SkeletonPage.py
+++ b/Cheetah/Templates/_SkeletonPage.py
@@ -121,7 +121,7 @@ class _SkeletonPage(Template):
             javascriptTagsTxt += ['<script language="JavaScript',
                                   str(details[0]),
                                   '" type="text/javascript"><!--\n',
-                                  str(details[0]), '\n//--></script>\n']
+                                  str(details[1]), '\n//--></script>\n']
 
         for key, details in self._javascriptLibs.items():
             if not isinstance(details, (list, tuple)):
-- 
2.43.0


From f3610246df01a504e2ff1fe4a6bba8ade590ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:10 +0000
Subject: [PATCH 66/70] fix: #cache arguments may be expressions that begin
 with a string

---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 4449e5e..7e6cd6c 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -226,7 +226,8 @@ class GenUtils(object):
         for key, val in argList:
             if not val:
                 raise ValueError('%s has no value' % key)
-            if val[0] in '"\'':
+            # just a string, not an expression that begins with one
+            if re.match(r'(["\'])(?:\\.|(?!\1).)*\1$', val, re.S):
                 val = val[1:-1]
 
             if key == 'timer':
-- 
2.43.0


From da1c60ffeb6a37311afc9bf06affcb94fd8c7983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:27 +0000
Subject: [PATCH 67/70] fix: one-line closures keep their literal text

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 80cd7ff..ab29f03 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2178,6 +2178,7 @@ class _HighLevelParser(_LowLevelParser):
                 includeBlockMarkers()
                 self._compiler.closeBlock()
             elif directiveName == 'closure' or isNestedDef:
+                self._compiler.commitStrConst()
                 self._compiler.dedent()
 
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
-- 
2.43.0


From feb51735d9c120dd75e99b44c06f21d3a952339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 68/70] fix: block markers surround one-line blocks

---
 Cheetah/Parser.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index ab29f03..99b5a21 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2147,12 +2147,6 @@ class _HighLevelParser(_LowLevelParser):
         else:
             argsList = []
 
-        def includeBlockMarkers():
-            if self.setting('includeBlockMarkers'):
-                startMarker = self.setting('blockMarkerStart')
-                self._compiler.addStrConst(
-                    startMarker[0] + methodName + startMarker[1])
-
         # @@TR: fix up filtering
         self._applyExpressionFilters(self[startPos:self.pos()], 'def',
                                      startPos=startPos)
@@ -2175,7 +2169,6 @@ class _HighLevelParser(_LowLevelParser):
                 # ...for some reason.
                 self._compiler.closeDef()
             elif directiveName == 'block':
-                includeBlockMarkers()
                 self._compiler.closeBlock()
             elif directiveName == 'closure' or isNestedDef:
                 self._compiler.commitStrConst()
@@ -2193,10 +2186,16 @@ class _HighLevelParser(_LowLevelParser):
                 argsList=argsList, startPos=startPos,
                 isLineClearToStartToken=isLineClearToStartToken)
             if directiveName == 'block':
-                includeBlockMarkers()
+                self._includeBlockMarker(methodName)
 
         return methodName, rawSignature
 
+    def _includeBlockMarker(self, methodName):
+        if self.setting('includeBlockMarkers'):
+            startMarker = self.setting('blockMarkerStart')
+            self._compiler.addStrConst(
+                startMarker[0] + methodName + startMarker[1])
+
     def _eatMultiLineDef(self, directiveName, methodName, argsList, startPos,
                          isLineClearToStartToken=False):
         # filtered in calling method
@@ -2242,6 +2241,8 @@ class _HighLevelParser(_LowLevelParser):
             self.setSetting('useSearchList', False)
             self._compiler.addClosure(methodName, argsList, parserComment)
 
+        if directiveName == 'block':
+            self._includeBlockMarker(methodName)
         self.getWhiteSpace(max=1)
         self.parse(breakPoint=endPos)
         if directiveName == 'closure' or (
-- 
2.43.0


From 220b8012ebcc32a6e4ceb342472bf681ada72904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:36 +0000
Subject: [PATCH 69/70] fix: a block's start marker survives a directive that
 follows it

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 99b5a21..8b78d55 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2195,6 +2195,8 @@ class _HighLevelParser(_LowLevelParser):
             startMarker = self.setting('blockMarkerStart')
             self._compiler.addStrConst(
                 startMarker[0] + methodName + startMarker[1])
+            # a directive that follows must not take it for its indentation
+            self._compiler.commitStrConst()
 
     def _eatMultiLineDef(self, directiveName, methodName, argsList, startPos,
                          isLineClearToStartToken=False):
-- 
2.43.0


From af0e0a741f859c1cf1341cc878f9fdbbe5ffc40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 70/70] fix: an indented one-line closure leaves no indentation
 behind

---
 Cheetah/Parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 8b78d55..1556f14 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2159,6 +2159,11 @@ class _HighLevelParser(_LowLevelParser):
             # the argument list may end on a later line
             endOfFirstLinePos = self.findEOL()
             rawSignature = self[startPos:endOfFirstLinePos]
+            if isLineClearToStartToken and (
+                    directiveName == 'closure'
+                    or directiveName == 'def' and isNestedDef):
+                # addClosure() commits the pending text
+                self._compiler.handleWSBeforeDirective()
             self._eatSingleLineDef(directiveName=directiveName,
                                    methodName=methodName,
                                    argsList=argsList,
-- 
2.43.0

