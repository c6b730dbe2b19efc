From 2fcfb8c77f1de3ecddc7c5c887e537724b7f4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 01/66] fix: do not fail on ^^ at the end of the input or
 before a non-ASCII character

---
 plasTeX/Tokenizer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b5d17e2..37da0a9 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -279,13 +279,18 @@ class Tokenizer(object):
                 if next_char != token:
                     self.pushChar(next_char)
                 else:
-                    next_char = _read1()
-                    num = ord(next_char)
-                    if num >= 64:
-                        token = chr(num-64)
+                    encoded = _read1()
+                    num = ord(encoded) if encoded else 128
+                    if num >= 128:
+                        # Not a ^^X sequence: just two superscript characters
+                        self.pushChar(encoded)
+                        self.pushChar(next_char)
                     else:
-                        token = chr(num+64)
-                    code = whichCode(token)
+                        if num >= 64:
+                            token = chr(num-64)
+                        else:
+                            token = chr(num+64)
+                        code = whichCode(token)
 
             # Just go to the next character if you see one of these...
             if code in (CC_IGNORED, CC_INVALID):
-- 
2.43.0


From e86f3b5cd1e68397ca8a782ff377dd55cb485340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 02/66] fix: start a new line after every end-of-line
 character, also after a backslash

---
 plasTeX/Tokenizer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 37da0a9..571c2fa 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -393,6 +393,12 @@ class Tokenizer(object):
             # End of line
             elif code == CC_EOL:
                 state = self.state
+                # Everything after an end of line character is dropped.
+                # ord(token) != 10 is the same as saying token != '\n'
+                # but it is much faster.
+                if ord(char) != 10:
+                    self.lineNumber += 1
+                    self.readline()
                 if state == STATE_S:
                     self.state = STATE_N
                     continue
@@ -401,11 +407,6 @@ class Tokenizer(object):
                     code = CC_SPACE
                     self.state = STATE_N
                 elif state == STATE_N:
-                    # ord(token) != 10 is the same as saying token != '\n'
-                    # but it is much faster.
-                    if ord(char) != 10:
-                        self.lineNumber += 1
-                        self.readline()
                     token = EscapeSequence('par')
                     # Prevent adjacent paragraphs
                     if prev == token:
@@ -434,7 +435,10 @@ class Tokenizer(object):
                         #pushChar(token)
                         #token = EscapeSequence()
                         token = Space(' ')
-                        self.state = STATE_S
+                        if ord(next_char) != 10:
+                            self.lineNumber += 1
+                            self.readline()
+                        self.state = STATE_N
 
                     else:
                         token = EscapeSequence(next_char)
-- 
2.43.0


From 3a07dafeb5b55e5aeaacec94cadfcefb0d8139a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 03/66] fix: skip blanks after control words ending in a
 non-ASCII-letter and after control space

---
 plasTeX/Tokenizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index 571c2fa..b30175c 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -451,9 +451,9 @@ class Tokenizer(object):
 #
                     if next_code != CC_EOL:
 # HACK: I couldn't get the parse() thing to work so I'm just not
-#       going to parse whitespace after EscapeSequences that end in
-#       non-letter characters as a half-assed solution.
-                        if token[-1] in encoding.stringletters():
+#       going to parse whitespace after EscapeSequences other than
+#       control words and control space as a half-assed solution.
+                        if next_code in (CC_LETTER, CC_SPACE):
                             # Absorb following whitespace
                             self.state = STATE_S
 
-- 
2.43.0


From f47dde60c8e14d63def5da2f9b6255375e74d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 04/66] fix: ignored and invalid characters end a control word

---
 plasTeX/Tokenizer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Tokenizer.py b/plasTeX/Tokenizer.py
index b30175c..0f72aa3 100644
--- a/plasTeX/Tokenizer.py
+++ b/plasTeX/Tokenizer.py
@@ -238,8 +238,7 @@ class Tokenizer(object):
         Get the next character in the stream and its category code
 
         This function handles automatically converts characters like
-        ^^M, ^^@, etc. into the correct character.  It also bypasses
-        ignored and invalid characters.
+        ^^M, ^^@, etc. into the correct character.
 
         If you are iterating through the characters in a TeX instance
         and you go too far, you can put the character back with
@@ -252,8 +251,6 @@ class Tokenizer(object):
 
         whichCode = self.context.whichCode
         CC_SUPER = Token.CC_SUPER
-        CC_IGNORED = Token.CC_IGNORED
-        CC_INVALID = Token.CC_INVALID
 
         def _read1():
             if mybuffer:
@@ -292,10 +289,6 @@ class Tokenizer(object):
                             token = chr(num+64)
                         code = whichCode(token)
 
-            # Just go to the next character if you see one of these...
-            if code in (CC_IGNORED, CC_INVALID):
-                continue
-
             yield (code, token)
 
     def pushChar(self, char: str):
@@ -364,6 +357,8 @@ class Tokenizer(object):
         CC_EOL = Token.CC_EOL
         CC_COMMENT = Token.CC_COMMENT
         CC_ACTIVE = Token.CC_ACTIVE
+        CC_IGNORED = Token.CC_IGNORED
+        CC_INVALID = Token.CC_INVALID
         prev = None
 
         while 1:
@@ -383,6 +378,10 @@ class Tokenizer(object):
                 self.state = STATE_M
                 token = tokenClasses[code](char)
 
+            # Just go to the next character if you see one of these...
+            elif code in (CC_IGNORED, CC_INVALID):
+                continue
+
             # Whitespace
             elif code == CC_SPACE:
                 if self.state  == STATE_S or self.state == STATE_N:
-- 
2.43.0


From 10aa0d78fea6d5abbd13297c5706544c959886c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 05/66] fix: match delimited parameters of \def as TeX does

Respect groups, delimiters of several tokens, #{ and strip the braces
of an argument that is a single group.
---
 plasTeX/__init__.py | 126 +++++++++++++++++++++++++-------------------
 1 file changed, 73 insertions(+), 53 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 9934cc9..33f3141 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1170,70 +1170,90 @@ class Definition(Macro):
     def invoke(self, tex):
         if not self.args: return self.definition
 
-        name = macroName(self)
+        # Split the argument string into delimiters: delimiters[0] comes before
+        # the first parameter, delimiters[i] comes after the i-th parameter
+        delimiters = [[]] # type: List[List[Token]]
         argIter = iter(self.args)
-        inparam = False
-        params = [None]
         for a in argIter:
+            if a.catcode != Token.CC_PARAMETER:
+                delimiters[-1].append(a)
+                continue
 
-            # Beginning a new parameter
-            if a.catcode == Token.CC_PARAMETER:
-
-                # Adjacent parameters, just get the next token
-                if inparam:
-                    params.append(tex.readArgument(parentNode=self,
-                                                   name='#%s' % len(params)))
-
-                # Get the parameter number
-                for a in argIter:
-                    # Numbered parameter
-                    if a in string.digits:
-                        inparam = True
-
-                    elif a.catcode == Token.CC_PARAMETER:
-                        continue
-
-                    # Handle #{ case here
-                    elif a.catcode == Token.CC_BGROUP:
-                        param = []
-                        for t in tex.itertokens():
-                            if t.catcode == Token.CC_BGROUP:
-                                tex.pushToken(t)
-                            else:
-                                param.append(t)
-                        inparam = False
-                        params.append(param)
-
-                    else:
-                        raise ValueError('Invalid arg string: %s' % ''.join(self.args))
-                    break
-
-            # In a parameter, so get everything up to a token that matches `a`
-            elif inparam:
-                param = []
-                for t in tex.itertokens():
-                    if t == a:
-                        break
-                    param.append(t)
-                inparam = False
-                params.append(param)
-
-            # Not in a parameter, just make sure the token matches
+            # Get the parameter number
+            for a in argIter:
+                # Numbered parameter
+                if a in string.digits:
+                    delimiters.append([])
+                elif a.catcode == Token.CC_PARAMETER:
+                    continue
+                # Handle #{ case here
+                elif a.catcode == Token.CC_BGROUP:
+                    delimiters[-1].append(a)
+                else:
+                    raise ValueError('Invalid arg string: %s' % ''.join(self.args))
+                break
+            # The `{' of a #{ is not included in the argument string
             else:
-                for t in tex.itertokens():
-                    if t == a:
-                        break
+                delimiters[-1].append(BeginGroup('{'))
+
+        # Make sure that the tokens before the first parameter match
+        name = macroName(self)
+        for a in delimiters[0]:
+            for t in tex.itertokens():
+                if not (t == a):
                     log.info('Arguments of "%s" don\'t match definition. Got "%s" but was expecting "%s" (%s).' % (name, t, a, ''.join(self.args)))
-                    break
+                elif a.catcode == Token.CC_BGROUP:
+                    tex.pushToken(t)
+                break
 
-        if inparam:
-            params.append(tex.readArgument(parentNode=self,
-                                           name='#%s' % len(params)))
+        params = [None]
+        for delimiter in delimiters[1:]:
+            if delimiter:
+                params.append(self.readDelimited(tex, delimiter))
+            else:
+                params.append(tex.readArgument(parentNode=self,
+                                               name='#%s' % len(params)))
 
         deflog.debug2('expanding %s %s', self.definition, params)
 
         return expandDef(self.definition, params)
 
+    def readDelimited(self, tex, delimiter):
+        """
+        Read everything up to the given delimiter outside of any group
+
+        Required Arguments:
+        tex -- the TeX stream
+        delimiter -- list of tokens that terminate the argument
+
+        Returns: list of the tokens before the delimiter
+
+        """
+        param = []
+        level = 0
+        groupend = None
+        for t in tex.itertokens():
+            param.append(t)
+            if level <= 0 and param[-len(delimiter):] == delimiter:
+                del param[-len(delimiter):]
+                # The brace in #{ isn't removed from the stream
+                if t.catcode == Token.CC_BGROUP:
+                    tex.pushToken(t)
+                break
+            if t.catcode == Token.CC_BGROUP:
+                level += 1
+            elif t.catcode == Token.CC_EGROUP:
+                level -= 1
+                if level == 0 and groupend is None:
+                    groupend = len(param)
+
+        # If the argument is a single group, remove the braces
+        if param and groupend == len(param) and \
+           param[0].catcode == Token.CC_BGROUP:
+            param = param[1:-1]
+
+        return param
+
 
 class number(int):
     """ Class used for parameter and count values """
-- 
2.43.0


From 360d6d1c6cfc2a339ab5ecda7bfd764cf12f875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 06/66] fix: do not end an optional argument at a bracket
 inside braces

---
 plasTeX/TeX.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 31d8073..dc654c1 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -882,9 +882,17 @@ class TeX(object):
             if t.catcode != Token.CC_ESCAPE and \
                (t == begin or str(t) == str(begin)):
                 level = 1
+                braces = 0
                 for t in tokens:
                     source.append(t)
-                    if t.catcode != Token.CC_ESCAPE and \
+                    # Delimiters within braces don't count
+                    if t.catcode == Token.CC_BGROUP:
+                        braces += 1
+                    elif t.catcode == Token.CC_EGROUP:
+                        braces -= 1
+                    if braces > 0:
+                        toks.append(t)
+                    elif t.catcode != Token.CC_ESCAPE and \
                        (t == begin or str(t) == str(begin)):
                         toks.append(t)
                         level += 1
-- 
2.43.0


From 26e8e0bec5629a15ee9da42262357ef5f1f8939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 07/66] fix: definitions made by \newcommand and
 \newenvironment are local to the group

---
 plasTeX/Context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index aaca1e9..a67d0ad 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1077,7 +1077,7 @@ class Context(object):
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':definition})
 
-        self.addGlobal(name, newclass)
+        self.addLocal(name, newclass)
 
     def newenvironment(self, name, nargs=0, def_before=None, def_after=None, opt=None):
         """
@@ -1121,12 +1121,12 @@ class Context(object):
         # Begin portion
         newclass = type(name, (plasTeX.NewCommand,),
                        {'nargs':nargs, 'opt':opt, 'definition':def_before})
-        self.addGlobal(name, newclass)
+        self.addLocal(name, newclass)
 
         # End portion
         newclass = type('end' + name, (plasTeX.NewCommand,),
                        {'nargs':0, 'opt':None, 'definition':def_after})
-        self.addGlobal('end' + name, newclass)
+        self.addLocal('end' + name, newclass)
 
     def newdef(self, name, args=None, definition=None, local=True):
         """
-- 
2.43.0


From 7390f3a50b55bc51fb1ee24bb1e421c496495790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 08/66] fix: honour \global before definitions and \let, and
 let \gdef override local meanings

---
 plasTeX/Base/TeX/Primitives.py | 20 +++++++++++++++++-
 plasTeX/Context.py             | 37 ++++++++++++++++++++++++++++++----
 2 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 288f62e..569dfd6 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -17,7 +17,24 @@ class protect(Command):
     pass
 
 class global_(Command):
+    """ TeX's \\global prefix """
     macroName = 'global'
+    def invoke(self, tex):
+        for t in tex.itertokens():
+            # Skip blanks and other prefixes
+            if t.catcode == Token.CC_SPACE or \
+               t.macroName in ('global', 'long', 'outer', 'relax'):
+                continue
+            if t.macroName is not None and t.nodeType != Command.ELEMENT_NODE:
+                obj = self.ownerDocument.createElement(t.macroName)
+                if isinstance(obj, (DefCommand, let)):
+                    obj.contextDepth = t.contextDepth
+                    obj.parentNode = t.parentNode
+                    obj.local = False
+                    return obj.invoke(tex) or []
+            tex.pushToken(t)
+            break
+        return []
 
 class par(Command):
     """ Paragraph """
@@ -368,10 +385,11 @@ class ifcsname(IfCommand):
 
 class let(Command):
     """ \\let """
+    local = True
     args = 'name:Tok = value:Tok'
     def invoke(self, tex):
         a = self.parse(tex)
-        self.ownerDocument.context.let(a['name'], a['value'])
+        self.ownerDocument.context.let(a['name'], a['value'], local=self.local)
 
 class char(Command):
     """ \\char """
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index a67d0ad..e52daf2 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -1160,19 +1160,36 @@ class Context(object):
                        {'args':args, 'definition':definition})
 
         if local:
+            self.contexts[-1].lets.pop(name, None)
             self.addLocal(name, newclass)
         else:
+            self.removeMeanings(name)
             self.addGlobal(name, newclass)
 
+    def removeMeanings(self, name):
+        """
+        Forget all local meanings of a control sequence
+
+        Required Arguments:
+        name -- name of the control sequence
+
+        """
+        for context in self.contexts:
+            context.lets.pop(name, None)
+            if context is not self.contexts[0]:
+                context.pop(name, None)
+
     def get_let(self, command):
         for context in reversed(self.contexts):
             try:
                 return context.lets[command]
             except KeyError:
-                pass
+                # A macro definition hides the aliases of enclosing groups
+                if dict.__contains__(context, command):
+                    break
         return command
 
-    def let(self, dest, source):
+    def let(self, dest, source, local=True):
         """
         Create a \\let
 
@@ -1180,6 +1197,9 @@ class Context(object):
         dest -- the command sequence to create
         source -- the token to set the command sequence equivalent to
 
+        Keyword Arguments:
+        local -- indicates whether this alias is local or global
+
         Examples::
             c.let('bgroup', BeginGroup('{'))
 
@@ -1187,10 +1207,19 @@ class Context(object):
         # Use nodeName instead of macroName to work with Macros as well as
         # EscapeSequence, e.g. when we do
         # \expandafter\let\csname foo\endcsname=1
+        context = self.top
+        if not local:
+            context = self.contexts[0]
         if source.catcode == Token.CC_ESCAPE:
-            self.top[dest.nodeName] = self[source.nodeName]
+            value = self[source.nodeName]
+            if not local:
+                self.removeMeanings(dest.nodeName)
+            context.lets.pop(dest.nodeName, None)
+            context[dest.nodeName] = value
         else:
-            self.top.lets[dest.nodeName] = source
+            if not local:
+                self.removeMeanings(dest.nodeName)
+            context.lets[dest.nodeName] = source
 
     def chardef(self, name, num):
         """
-- 
2.43.0


From 5fc38ab1bcf0b31f91ce517b90b1af8ce4c70a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 09/66] fix: \providecommand keeps existing commands

---
 plasTeX/Base/LaTeX/Definitions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Definitions.py b/plasTeX/Base/LaTeX/Definitions.py
index 75380ee..f238d54 100644
--- a/plasTeX/Base/LaTeX/Definitions.py
+++ b/plasTeX/Base/LaTeX/Definitions.py
@@ -27,7 +27,14 @@ class renewcommand(newcommand):
     pass
 
 class providecommand(newcommand):
-    pass
+    def invoke(self, tex):
+        self.parse(tex)
+        a = self.attributes
+        # Commands that already exist are left alone
+        if a['name'] in self.ownerDocument.context:
+            return
+        self.ownerDocument.context.newcommand(a['name'], a['nargs'],
+                                              a['definition'], opt=a['opt'])
 
 class DeclareRobustCommand(newcommand):
     pass
-- 
2.43.0


From 32646be34f40b1e1ec9cd8e673b2133bcf0ffdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 10/66] fix: reduce ## in the body of macros without parameters

---
 plasTeX/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 33f3141..0c87ff8 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1168,7 +1168,7 @@ class Definition(Macro):
     definition = None # type: Optional[str]
 
     def invoke(self, tex):
-        if not self.args: return self.definition
+        if not self.args: return expandDef(self.definition, [None])
 
         # Split the argument string into delimiters: delimiters[0] comes before
         # the first parameter, delimiters[i] comes after the i-th parameter
-- 
2.43.0


From e76c53689b512889c24fcbe194b19e738c36f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 11/66] fix: do not multiply a space-terminated integer by the
 register that follows

---
 plasTeX/TeX.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index dc654c1..d766aa4 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1620,12 +1620,13 @@ class TeX(object):
             # integer constant
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
-                                                              optspace=optspace)))
+                                                              optspace=False)))
                 for t in self:
                     if t.nodeType == Macro.ELEMENT_NODE and \
                        isinstance(t, ParameterCommand):
                         num = number(num * number(t))
-                    else:
+                    # An optional space ends the number
+                    elif not optspace or t.catcode != Token.CC_SPACE:
                         self.pushToken(t)
                     break
             # octal constant
-- 
2.43.0


From 485b12e39972a8c99ffb4b82d4febb22d5486104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 12/66] fix: select the else branch for every \ifcase selector
 without a case, and nest only conditionals when skipping

---
 plasTeX/TeX.py | 55 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index d766aa4..bb4930e 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -19,7 +19,7 @@ import contextlib, string, os, sys, plasTeX, subprocess
 from plasTeX.Tokenizer import Tokenizer, Token, EscapeSequence, Other
 from plasTeX import TeXDocument
 from plasTeX.Base.TeX.Primitives import MathShift
-from plasTeX import ParameterCommand, Macro
+from plasTeX import ParameterCommand, Macro, NewIf
 from plasTeX import glue, muglue, mudimen, dimen, number
 from plasTeX.Logging import getLogger, disableLogging, fileLogging
 
@@ -539,14 +539,16 @@ class TeX(object):
             an integer, the `case' matching this integer will be returned.
 
         """
-        # Since the true content always comes first, we need to set
-        # True to case 0 and False to case 1.
-        elsefound = False
+        # The `else' portion isn't one of the numbered cases, but it is
+        # used for every selector that doesn't match one of them.
+        # For booleans, the true content always comes first.
         if isinstance(which, bool):
             if which: which = 0
-            else: which = 1
+            else: which = -1
 
         cases = [[]]
+        current = cases[0]
+        elsecase = []
         nesting = 0
         correctly_terminated = False
         iterator = self.itertokens()
@@ -554,35 +556,54 @@ class TeX(object):
         for t in iterator:
             name = getattr(t, 'macroName', '') or ''
             if name == 'newif':
-                cases[-1].append(t)
-                cases[-1].append(next(iterator))
+                current.append(t)
+                current.append(next(iterator))
                 continue
-            elif name.startswith('if'):
-                cases[-1].append(t)
+            elif name and self.isConditional(name):
+                current.append(t)
                 nesting += 1
             elif name == 'fi':
                 if not nesting:
                     correctly_terminated = True
                     break
-                cases[-1].append(t)
+                current.append(t)
                 nesting -= 1
             elif not(nesting) and name == 'else':
-                cases.append([])
+                current = elsecase
                 continue
             elif not(nesting) and name == 'or':
-                cases.append([])
+                current = []
+                cases.append(current)
                 continue
             else:
-                cases[-1].append(t)
+                current.append(t)
 
         if not correctly_terminated:
             log.warning(r'\end occurred when \if was incomplete')
 
-        # else case for ifs without elses
-        cases.append([])
-
         # Push if-selected tokens back into tokenizer
-        self.pushTokens(cases[which])
+        if 0 <= which < len(cases):
+            self.pushTokens(cases[which])
+        else:
+            self.pushTokens(elsecase)
+
+    def isConditional(self, name):
+        """
+        Does the macro with the given name start an `if' block?
+
+        Required Arguments:
+        name -- name of the macro.  Unknown macros are assumed to be
+            conditionals if their name starts with `if'.
+
+        Returns:
+        boolean
+
+        """
+        from plasTeX.Base.TeX.Primitives import IfCommand
+        macro = self.ownerDocument.context.top.get(name)
+        if isinstance(macro, type):
+            return issubclass(macro, (IfCommand, NewIf))
+        return name.startswith('if')
 
     def readArgument(self, *args, **kwargs):
         """
-- 
2.43.0


From b39c962b94e5cf58a9628ee1aa204a220f5de610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 13/66] fix: compare the meanings of two tokens in \ifx

---
 plasTeX/Base/TeX/Primitives.py | 31 +++++++++++++++++++++++++++++--
 plasTeX/__init__.py            | 13 +------------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 569dfd6..8b0f23a 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -1,7 +1,9 @@
+import plasTeX
 from datetime import datetime
 from plasTeX.Tokenizer import Token, EscapeSequence, Other
 from plasTeX import Macro, Command, CountCommand
 from plasTeX import sourceChildren
+from plasTeX.Base.TeX.Text import empty
 from plasTeX.Logging import getLogger
 
 
@@ -296,13 +298,38 @@ class ifcat(IfCommand):
 
 class ifx(IfCommand):
     """ Test if tokens agree """
-    args = 'a:XTok b:XTok'
+    args = 'a:Tok b:Tok'
     def invoke(self, tex):
         self.parse(tex)
         a = self.attributes
-        tex.processIfContent(a['a'] == a['b'])
+        tex.processIfContent(self.meaning(a['a']) == self.meaning(a['b']))
         return []
 
+    def meaning(self, token):
+        """ Get an object that is equal for tokens with the same meaning """
+        if token.nodeType == Command.ELEMENT_NODE:
+            macro = type(token)
+        elif token.macroName is None:
+            return token.catcode, str(token)
+        else:
+            macro = self.ownerDocument.context.top.get(token.macroName)
+        # All undefined macros are the same
+        if macro is None or issubclass(macro, (plasTeX.UnrecognizedMacro,
+                                               undefined, undefined_)):
+            return None
+        # Macros are the same if they have the same parameters and definition
+        if macro is empty:
+            return '\\def', [], []
+        if issubclass(macro, plasTeX.Definition):
+            return '\\def', self.codes(macro.args), self.codes(macro.definition)
+        if issubclass(macro, plasTeX.NewCommand):
+            return '\\newcommand', macro.nargs, macro.opt is None, \
+                   self.codes(macro.opt), self.codes(macro.definition)
+        return macro
+
+    def codes(self, tokens):
+        return [(t.catcode, str(t)) for t in tokens or []]
+
 class ifvoid(IfCommand):
     """ Test a box register """
     def invoke(self, tex):
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 0c87ff8..1aea34e 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1099,7 +1099,6 @@ def expandDef(definition, params):
         return []
     output = []
     definition = iter(definition)
-    previous = ''
     for t in definition:
         # Expand parameters
         if t.catcode == Token.CC_PARAMETER:
@@ -1109,21 +1108,11 @@ def expandDef(definition, params):
                     output.append(t)
                 else:
                     if int(t) < len(params) and params[int(t)] is not None:
-                        # This is a pretty bad hack, but `ifx' commands
-                        # need an argument to also be a token.  So we
-                        # wrap them in a group here and let the
-                        # TeX parser convert the group to a token.
-                        if previous == 'ifx':
-                            output.append(BeginGroup(' '))
-                            output.extend(params[int(t)])
-                            output.append(EndGroup(' '))
-                        else:
-                            output.extend(params[int(t)])
+                        output.extend(params[int(t)])
                 break
         # Just append other tokens to the output
         else:
             output.append(t)
-        previous = t
     return output
 
 class NewCommand(Macro):
-- 
2.43.0


From 185b8900945a6bc2fcf1c05a67597b71855845cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 14/66] fix: use the text of groups and macros in string
 arguments

---
 plasTeX/TeX.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index bb4930e..a3b7bfc 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1048,7 +1048,12 @@ class TeX(object):
         self.cast()
 
         """
-        return type(self.normalize(tokens))
+        value = self.normalize(tokens)
+        # Nodes (e.g. groups and macros) contribute their text
+        if getattr(value, 'nodeType', None) in (Macro.ELEMENT_NODE,
+                                                Macro.DOCUMENT_FRAGMENT_NODE):
+            value = ''.join([value.textContent])
+        return type(value)
 
     def castLabel(self, tokens, **kwargs):
         """
-- 
2.43.0


From 8c2b3cdb112b03e70cb9e1d217a7c8e70a71acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 15/66] fix: accept groups and macros in keys, "=" in values
 and empty items in dictionary arguments

---
 plasTeX/TeX.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index a3b7bfc..c820058 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1297,14 +1297,18 @@ class TeX(object):
         while tokens:
             current = tokens.pop(0)
 
+            currentlist = currentvalue
+            if currentlist is None:
+                currentlist = currentkey
+
             if current.nodeType == Macro.ELEMENT_NODE:
-                currentvalue.append(current)
+                currentlist.append(current)
                 continue
 
             # Found grouping
             elif current.catcode == Token.CC_BGROUP:
                 level = 1
-                currentvalue.append(current)
+                currentlist.append(current)
                 while tokens:
                     current = tokens.pop(0)
                     if current.catcode == Token.CC_BGROUP:
@@ -1313,12 +1317,12 @@ class TeX(object):
                         level -= 1
                         if not level:
                             break
-                    currentvalue.append(current)
-                currentvalue.append(current)
+                    currentlist.append(current)
+                currentlist.append(current)
                 continue
 
             # Found end-of-key delimiter
-            if current == '=':
+            if current == '=' and currentvalue is None:
                 currentvalue = []
 
             # Found end-of-value delimiter
@@ -1335,24 +1339,27 @@ class TeX(object):
                 currentvalue.append(current)
 
             # Found end-of-value delimiter
-            if current == delim or not tokens:
-                currentkey = self.normalize(currentkey)
-                currentvalue = self.normalize(self.cast(currentvalue, subtype))
-                if currentvalue is None:
-                    currentvalue = True
-                dictarg[currentkey] = currentvalue
+            if current == delim:
+                self.addDictionaryItem(dictarg, currentkey, currentvalue, subtype)
                 currentkey = []
                 currentvalue = None
 
-        if currentkey:
-            currentkey = self.normalize(currentkey)
-            currentvalue = self.normalize(self.cast(currentvalue, subtype))
-            if currentvalue is None:
-                currentvalue = True
-            dictarg[currentkey] = currentvalue
+        self.addDictionaryItem(dictarg, currentkey, currentvalue, subtype)
 
         return dictarg
 
+    def addDictionaryItem(self, dictarg, key, value, subtype):
+        """ Add a key and its value (`True' without one) unless both are empty """
+        key = self.normalize(key)
+        if getattr(key, 'nodeType', None) in (Macro.ELEMENT_NODE,
+                                              Macro.DOCUMENT_FRAGMENT_NODE):
+            key = key.textContent.strip()
+        if value is None:
+            if key:
+                dictarg[key] = True
+        else:
+            dictarg[key] = self.normalize(self.cast(value, subtype))
+
     def kpsewhich(self, name):
         """
         Locate the given file using kpsewhich
-- 
2.43.0


From 8cd23db26cc6b4536cfc69fb7bb9efac0a237fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 16/66] fix: multiples of fil, fill and filll keep their order
 of infinity

---
 plasTeX/TeX.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index c820058..9b53fdc 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1520,7 +1520,17 @@ class TeX(object):
                 return dimen(sign * dimen(t))
             self.pushToken(t)
             break
-        num = dimen(sign * self.readDecimal() * self.readUnitOfMeasure(units=units))
+        num = sign * self.readDecimal()
+        unit = self.readUnitOfMeasure(units=units)
+        # The encoding of the order of infinity is not part of the factor
+        order = 0
+        if unit >= 2e9:
+            if num > 0:
+                order = unit - 1
+            elif num < 0:
+                order = 1 - unit
+            unit = 1
+        num = dimen(num * unit + order)
         ParameterCommand.enable()
         return num
 
-- 
2.43.0


From a21c883d273f2e07dd0092683cce9fdd45126d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 17/66] fix: absorb the space after a character constant and
 accept active characters

---
 plasTeX/TeX.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 9b53fdc..0b62ee5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1683,7 +1683,13 @@ class TeX(object):
             # character token
             elif t == '`':
                 for t in self.itertokens():
-                    num = number(sign * ord(t))
+                    # Active characters are named `active::X'
+                    char = t
+                    if t.nodeType == Macro.ELEMENT_NODE:
+                        char = t.nodeName
+                    num = number(sign * ord(char.split('::')[-1]))
+                    if optspace:
+                        self.readOneOptionalSpace()
                     break
             break
         ParameterCommand.enable()
-- 
2.43.0


From e20507540c3794d3cbeec7817c7d7037bb4cc4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 18/66] fix: lowercase letters are not hexadecimal digits

---
 plasTeX/TeX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 0b62ee5..7779657 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1678,7 +1678,7 @@ class TeX(object):
                                                    default='0', optspace=optspace), 8))
             # hex constant
             elif t == '"':
-                num = number(sign * int('0x' + self.readSequence(string.hexdigits,
+                num = number(sign * int('0x' + self.readSequence('0123456789ABCDEF',
                                                default='0', optspace=optspace), 16))
             # character token
             elif t == '`':
-- 
2.43.0


From db99b478f15c2a51e1d5327e731cf4af8d8c1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 19/66] fix: re-enable parameters after an argument of type any

---
 plasTeX/TeX.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 7779657..e15491b 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -742,6 +742,7 @@ class TeX(object):
                 if t.catcode == Token.CC_SPACE:
                     break
                 toks.append(t)
+            ParameterCommand.enable()
             return self.expandTokens(toks, parentNode=parentNode), self.source(toks)
 
         if type in ['cs']:
-- 
2.43.0


From 3c7615862c9d58fe0cce3d90005b833140bd5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 20/66] fix: glue registers keep their stretch and shrink when
 they are copied or negated

---
 plasTeX/TeX.py      |  4 ++--
 plasTeX/__init__.py | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index e15491b..dadd40d 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1710,7 +1710,7 @@ class TeX(object):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
-                return glue(sign * glue(t))
+                return glue(t).signed(sign)
             self.pushToken(t)
             break
         dim = self.readDimen()
@@ -1740,7 +1740,7 @@ class TeX(object):
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
                 ParameterCommand.enable()
-                return muglue(sign * muglue(t))
+                return muglue(t).signed(sign)
             self.pushToken(t)
             break
         dim = self.readMuDimen()
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 1aea34e..77228d9 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1407,16 +1407,28 @@ class mudimen(dimen):
 class glue(dimen):
     """ Class used for glue values """
     def __new__(cls, g, plus=None, minus=None):
+        if isinstance(g, Macro):
+            g = g.__dimen__()
         return dimen.__new__(cls, g)
 
     def __init__(self, g, plus=None, minus=None):
         # super(glue, self).__init__(g)
-        self.stretch = self.shrink = None
+        # Glue made from a glue parameter keeps its components
+        if isinstance(g, Macro):
+            g = getattr(type(g), 'value', None)
+        self.stretch = getattr(g, 'stretch', None)
+        self.shrink = getattr(g, 'shrink', None)
         if plus is not None:
             self.stretch = dimen(plus)
         if minus is not None:
             self.shrink = dimen(minus)
 
+    def signed(self, sign):
+        """ Multiply all components by a sign """
+        def times(value):
+            return None if value is None else sign * value
+        return type(self)(sign * self, times(self.stretch), times(self.shrink))
+
     @property
     def source(self):
         s = [dimen(self).source]
-- 
2.43.0


From 85cb809624575f836f853fd8eeb4b7b56b9aa9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:24 +0000
Subject: [PATCH 21/66] fix: an integer register is the factor of the unit that
 follows it

---
 plasTeX/TeX.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index dadd40d..07232f5 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -1513,16 +1513,27 @@ class TeX(object):
 
         """
         ParameterCommand.disable()
+        factor = None
         sign = self.readOptionalSigns()
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
                isinstance(t, ParameterCommand):
+                # An integer is the factor of the unit that follows
+                if isinstance(type(t).value, number):
+                    factor = number(t)
+                    break
                 ParameterCommand.enable()
                 return dimen(sign * dimen(t))
             self.pushToken(t)
             break
-        num = sign * self.readDecimal()
-        unit = self.readUnitOfMeasure(units=units)
+        default = None
+        if factor is None:
+            factor = self.readDecimal()
+        elif 'sp' in units:
+            # Without a unit, integer registers are coerced
+            default = 'sp'
+        num = sign * factor
+        unit = self.readUnitOfMeasure(units=units, default=default)
         # The encoding of the order of infinity is not part of the factor
         order = 0
         if unit >= 2e9:
@@ -1539,13 +1550,16 @@ class TeX(object):
         """ Read a mudimen from the stream """
         return mudimen(self.readDimen(units=mudimen.units))
 
-    def readUnitOfMeasure(self, units):
+    def readUnitOfMeasure(self, units, default=None):
         """
         Read a unit of measure from the stream
 
         Required Arguments:
         units -- list of acceptable units of measure
 
+        Keyword Arguments:
+        default -- unit to use, without a warning, if there is none
+
         Returns:
         `dimen' instance
 
@@ -1562,6 +1576,8 @@ class TeX(object):
             break
         true = self.readKeyword(['true'])
         unit = self.readKeyword(units)
+        if unit is None and default is not None:
+            unit = default
         if unit is None:
             log.warning('Missing unit (expecting %s)%s, treating as `%s`',
                         ', '.join(units), self.lineInfo, units[0])
@@ -1708,7 +1724,8 @@ class TeX(object):
         # internal/coerced glue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
+               isinstance(t, ParameterCommand) and \
+               not isinstance(type(t).value, number):
                 ParameterCommand.enable()
                 return glue(t).signed(sign)
             self.pushToken(t)
@@ -1738,7 +1755,8 @@ class TeX(object):
         # internal/coerced muglue
         for t in self:
             if t.nodeType == Macro.ELEMENT_NODE and \
-               isinstance(t, ParameterCommand):
+               isinstance(t, ParameterCommand) and \
+               not isinstance(type(t).value, number):
                 ParameterCommand.enable()
                 return muglue(t).signed(sign)
             self.pushToken(t)
-- 
2.43.0


From 30764822b11f78ef6bd7b552909e1c286cce18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 22/66] fix: compareDocumentPosition uses the deepest common
 ancestor

---
 plasTeX/DOM/__init__.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 4ac8ad8..5de072e 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -487,16 +487,23 @@ def _compareDocumentPosition(self, other):
     sparents.reverse()
     oparents.reverse()
 
-    for i, sparent in enumerate(sparents):
-        for j, oparent in enumerate(oparents):
-            if sparent is oparent:
-                s = sparents[i+1]
-                o = oparents[j+1]
-                for item in sparent:
-                   if item is s:
-                       return Node.DOCUMENT_POSITION_FOLLOWING
-                   if item is o:
-                       return Node.DOCUMENT_POSITION_PRECEDING
+    # Find the deepest common ancestor.  Fragments aren't child nodes.
+    sparents = [x for x in sparents if x is self or
+                x.nodeType != Node.DOCUMENT_FRAGMENT_NODE or x.parentNode is None]
+    oparents = [x for x in oparents if x is other or
+                x.nodeType != Node.DOCUMENT_FRAGMENT_NODE or x.parentNode is None]
+    ancestor = None
+    for s, o in zip(sparents, oparents):
+        if s is not o:
+            break
+        ancestor = s
+
+    if ancestor is not None:
+        for item in ancestor:
+            if item is s:
+                return Node.DOCUMENT_POSITION_FOLLOWING
+            if item is o:
+                return Node.DOCUMENT_POSITION_PRECEDING
 
     return Node.DOCUMENT_POSITION_DISCONNECTED
 
-- 
2.43.0


From a09ef267008abe5c3bd68f6003801d2056e57e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 23/66] fix: negative and out of range positions in node
 insertion and item assignment

---
 plasTeX/DOM/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 5de072e..5aa6b8d 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -951,6 +951,9 @@ class Node(object):
         """
         if type(newChild) == str:
             newChild = self.ownerDocument.createTextNode(newChild)
+        # Negative positions count from the end, as in a list
+        if i < 0:
+            i = max(0, i + len(self))
         if newChild.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
             for item in newChild:
                 self.insert(i, item, setParent=setParent)
@@ -976,6 +979,11 @@ class Node(object):
         """
         if type(node) == str:
             node = self.ownerDocument.createTextNode(node)
+        if not isinstance(i, slice):
+            if not -len(self) <= i < len(self):
+                raise IndexError('assignment index out of range')
+            if i < 0:
+                i += len(self)
         # If a DocumentFragment is being inserted, but it isn't replacing
         # a slice, we need to put each child in manually.
         if node.nodeType == Node.DOCUMENT_FRAGMENT_NODE \
-- 
2.43.0


From a789a4bc978dc1d0e79f3f7f8f346d00a1a1f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 24/66] fix: cloneNode copies the attribute values and leaves
 the original untouched

---
 plasTeX/DOM/__init__.py | 46 +++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 5aa6b8d..92e5f62 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1,4 +1,4 @@
-import sys, re
+import copy, sys, re
 import builtins
 from typing import Optional, NewType, List
 
@@ -561,6 +561,23 @@ def xmlstr(obj):
     else:
         return xmlstr(str(obj))
 
+def _cloneValue(value, parent):
+    """ Copy an attribute value, including all of the nodes in it """
+    if isinstance(value, Node):
+        new = value.cloneNode(True)
+        new.parentNode = parent
+        return new
+    if isinstance(value, list):
+        new = copy.copy(value)
+        new[:] = [_cloneValue(x, parent) for x in value]
+        return new
+    if isinstance(value, dict):
+        new = copy.copy(value)
+        for key, item in value.items():
+            new[key] = _cloneValue(item, parent)
+        return new
+    return value
+
 class Node(object):
     """
     Node
@@ -1060,18 +1077,21 @@ class Node(object):
 #       node.nodeType = self.nodeType
         node.parentNode = self.parentNode
         node.ownerDocument = self.ownerDocument
-        if deep:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x.cloneNode(deep))
-        else:
-            if node.attributes is not None and self.attributes is not None:
-                node.attributes.update(self.attributes)
-            if self.hasChildNodes():
-                for x in self.childNodes:
-                    node.append(x)
+        content = None
+        if self.hasChildNodes():
+            content = self.childNodes
+        cloned = False
+        if node.attributes is not None and self.attributes is not None:
+            for key, value in self.attributes.items():
+                # The `self` attribute is the content
+                if value is content and content is not None:
+                    if not deep:
+                        continue
+                    cloned = True
+                node.attributes[key] = _cloneValue(value, node)
+        if deep and content is not None and not cloned:
+            for x in content:
+                node.append(x.cloneNode(deep))
         return node
 
     def normalize(self, charsubs=None):
-- 
2.43.0


From a2154086bdff8ec27cf68ecb9d1f687459ed13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 25/66] fix: getElementsByTagName finds each element once, also
 inside lists and dictionaries

---
 plasTeX/DOM/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 92e5f62..2db29f0 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -1306,6 +1306,9 @@ def _getElementsByTagName(self, tagname):
     # Look in attributes dictionary for document fragments as well
     if self.attributes and list(self.attributes.keys()):
         for item in list(self.attributes.values()):
+            # The `self` attribute can be the list of children
+            if item is not None and item is self.childNodes:
+                continue
             if getattr(item, 'tagName', None) in tagname:
                  output.append(item)
             if hasattr(item, 'getElementsByTagName'):
@@ -1314,14 +1317,14 @@ def _getElementsByTagName(self, tagname):
                 for e in item:
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
             elif isinstance(item, dict):
                 for e in list(item.values()):
                     if getattr(e, 'tagName', None) in tagname:
                         output.append(e)
-                    if hasattr(item, 'getElementsByTagName'):
-                        output += item.getElementsByTagName(tagname)
+                    if hasattr(e, 'getElementsByTagName'):
+                        output += e.getElementsByTagName(tagname)
 
     # Now look in the child elements
     for item in self:
@@ -1599,7 +1602,7 @@ class Element(Node):
         list of elements
 
         """
-        return _getElementsByTagName(localName)
+        return self.getElementsByTagName(localName)
 
     def hasAttribute(self, name):
         """
-- 
2.43.0


From 4932ab5b4b6f5f874a7cc33fcdce06746f156b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 26/66] fix: fragments stored as an attribute get the parent
 and owner of their element

---
 plasTeX/DOM/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plasTeX/DOM/__init__.py b/plasTeX/DOM/__init__.py
index 2db29f0..12b9bb5 100644
--- a/plasTeX/DOM/__init__.py
+++ b/plasTeX/DOM/__init__.py
@@ -406,6 +406,8 @@ class NamedNodeMap(dict):
             return
 
         elif nodeType == Node.DOCUMENT_FRAGMENT_NODE:
+            value.parentNode = parent
+            value.ownerDocument = self.ownerDocument
             for item in value:
                 self._resetPosition(item, parent=value)
 
-- 
2.43.0


From d65bf71a70bbfcbc6c1cd9d6b8d0851a5d36fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 27/66] fix: no character substitution in arguments and groups
 inside mathematics

---
 plasTeX/Base/TeX/Primitives.py |  3 +++
 plasTeX/__init__.py            | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index 8b0f23a..cc47b61 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -66,7 +66,10 @@ class BoxCommand(Command):
     mathMode = False
     def parse(self, tex):
         MathShift.inEnv.append(None)
+        # Push a context so that the mathMode of the box is seen by its content
+        self.ownerDocument.context.push(self)
         Command.parse(self, tex)
+        self.ownerDocument.context.pop(self)
         MathShift.inEnv.pop()
         return self.attributes
 
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 77228d9..6836024 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -475,12 +475,19 @@ class Macro(Element):
 
         self.argSource = ''
         arg = None
+        # Character substitutions don't apply to mathematics
+        mathMode = self.mathMode
+        if mathMode is None:
+            mathMode = self.ownerDocument.context.isMathMode
         try:
             for arg in self.arguments:
                 self.preArgument(arg, tex)
+                options = dict(arg.options)
+                if mathMode:
+                    options['charsubs'] = []
                 output, source = tex.readArgumentAndSource(parentNode=self,
                                                            name=arg.name,
-                                                           **arg.options)
+                                                           **options)
                 self.argSource += source
                 self.attributes[arg.name] = output
                 self.postArgument(arg, output, tex)
@@ -746,7 +753,14 @@ class Macro(Element):
 
         # No paragraphs, and we aren't forcing paragraphs...
         if parname is None and not force:
-            self.normalize(self.ownerDocument.charsubs)
+            # Character substitutions don't apply to mathematics
+            mathMode, node = None, self
+            while mathMode is None and node is not None:
+                mathMode = getattr(node, 'mathMode', None)
+                node = node.parentNode
+            if mathMode is None:
+                mathMode = self.ownerDocument.context.isMathMode
+            self.normalize(None if mathMode else self.ownerDocument.charsubs)
             return
 
         if parname is None:
-- 
2.43.0


From b002f3fc66c493c38644484ea291ae2525615a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 28/66] fix: merge text and substitute characters in documents
 without paragraphs

---
 plasTeX/Base/LaTeX/Document.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Document.py b/plasTeX/Base/LaTeX/Document.py
index 9b801ec..4227957 100644
--- a/plasTeX/Base/LaTeX/Document.py
+++ b/plasTeX/Base/LaTeX/Document.py
@@ -25,7 +25,14 @@ class document(Environment, SectionUtils):
             self.ownerDocument.context.counters[name].setcounter(value-1)
 
         return res
- 
+
+    def digest(self, tokens):
+        Environment.digest(self, tokens)
+        # Text that isn't grouped into paragraphs still has to be merged
+        # and needs its character substitutions
+        if not any(item.level == Environment.PAR_LEVEL for item in self):
+            self.normalize(self.ownerDocument.charsubs)
+
     @property
     def index(self):
         idx = self.getElementsByTagName(['theindex','printindex'])
-- 
2.43.0


From f88bb82685b488ab4ca70620f36fc4751dedbe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 29/66] fix: only stepping a counter resets the counters within
 it

---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 1 +
 plasTeX/__init__.py         | 4 ++--
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index dd4607d..83a85c5 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -19,4 +19,5 @@ class appendix(Command): # type: ignore
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['section'].setcounter(0)
+        self.ownerDocument.context.counters['subsection'].setcounter(0)
         self.ownerDocument.context['thesection'] = type(self).thesection 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index b78b1a5..8daf727 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -70,4 +70,5 @@ class appendix(Command):
 
     def invoke(self, tex):
         self.ownerDocument.context.counters['chapter'].setcounter(0)
+        self.ownerDocument.context.counters['section'].setcounter(0)
         self.ownerDocument.context['thechapter'] = type(self).thechapter
diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 6836024..7195d27 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1618,13 +1618,13 @@ class Counter(object):
         self.value = value
         self.counters = context.counters
 
+    # Only stepping a counter resets the counters within it
+
     def addtocounter(self, other):
         self.value += int(other)
-        self.resetcounters()
 
     def setcounter(self, other):
         self.value = int(other)
-        self.resetcounters()
 
     def stepcounter(self):
         self.value += 1
-- 
2.43.0


From 7cc8c704ffa6acad2fbdeb1428b5b8a6ec909f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 30/66] fix: counters declared with \newcounter{..}[within] are
 reset

---
 plasTeX/Base/LaTeX/Numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Numbering.py b/plasTeX/Base/LaTeX/Numbering.py
index 2de5263..5ee639e 100644
--- a/plasTeX/Base/LaTeX/Numbering.py
+++ b/plasTeX/Base/LaTeX/Numbering.py
@@ -7,7 +7,7 @@ from plasTeX import Command
 
 
 class newcounter(Command):
-    args = 'name:str [ within ]'
+    args = 'name:str [ within:str ]'
     def invoke(self, tex):
         a = self.parse(tex)
         self.ownerDocument.context.newcounter(a['name'], a['within'])
-- 
2.43.0


From 18235e79e2af9ae4780951e9d36699728fb82c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 31/66] fix: enumerate items count 1, 2, 3 whatever lists they
 are nested in; items with a label aren't counted

---
 plasTeX/Base/LaTeX/Lists.py | 56 ++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Lists.py b/plasTeX/Base/LaTeX/Lists.py
index 0a989d7..1cc6679 100644
--- a/plasTeX/Base/LaTeX/Lists.py
+++ b/plasTeX/Base/LaTeX/Lists.py
@@ -4,6 +4,7 @@ C.6.3 The list and trivlist Enviroments
 
 """
 
+from typing import Optional
 from plasTeX import Environment, Command, DimenCommand
 
 class enuminame(Command): str = ''
@@ -13,24 +14,39 @@ class enumivname(Command): str = ''
 
 class List(Environment):
     """ Base class for all list-based environments """
-    depth = 0
     counters = ['enumi','enumii','enumiii','enumiv']
+    # Are the items of this kind of list numbered?
+    numbered = False
     blockType = True
 
     class item(Command):
         args = '[ term ]'
-        counter = 'enumi'
+        counter = None # type: Optional[str]
         position = 0
         forcePars = True
 
-        def invoke(self, tex):
+        def preParse(self, tex):
             """ Set up counter for this list depth """
-            try:
-                self.counter = List.counters[List.depth-1]
-                self.position = self.ownerDocument.context.counters[self.counter].value + 1
-            except (KeyError, IndexError):
-                pass
-            return Command.invoke(self, tex)
+            lists = List.openLists(self.ownerDocument.context)
+            if lists and lists[-1].numbered:
+                depth = len([x for x in lists if x.numbered])
+                if depth <= len(List.counters):
+                    self.counter = List.counters[depth-1]
+
+        def preArgument(self, arg, tex):
+            """ The counter isn't stepped until the arguments are known """
+
+        def postArgument(self, arg, value, tex):
+            """ See preArgument """
+
+        def postParse(self, tex):
+            # Items with an explicit label aren't numbered
+            if self.attributes.get('term') is not None:
+                self.counter = None
+            if self.counter:
+                self.refstepcounter(tex)
+                self.position = self.ownerDocument.context.counters[self.counter].value
+            Command.postParse(self, tex)
 
         def digest(self, tokens):
             """
@@ -48,17 +64,18 @@ class List(Environment):
             if self.forcePars:
                 self.paragraphs()
 
+    @staticmethod
+    def openLists(context):
+        """ The list environments that are currently open, outermost first """
+        return [x.obj for x in context.contexts if isinstance(x.obj, List)]
+
     def invoke(self, tex):
-        """ Set list nesting depth """
-        if self.macroMode != Environment.MODE_END:
-            List.depth += 1
-        else:
-            List.depth -= 1
-        try:
-            for i in range(List.depth, len(List.counters)):
-                self.ownerDocument.context.counters[List.counters[i]].setcounter(0)
-        except (IndexError, KeyError):
-            pass
+        """ Numbering starts over in every numbered list """
+        if self.macroMode != Environment.MODE_END and self.numbered:
+            context = self.ownerDocument.context
+            depth = len([x for x in List.openLists(context) if x.numbered])
+            if depth < len(List.counters):
+                context.counters[List.counters[depth]].setcounter(0)
         return Environment.invoke(self, tex)
 
     def digest(self, tokens):
@@ -97,6 +114,7 @@ class labelitemiv(Command):
 
 class enumerate_(List): 
     macroName = 'enumerate'
+    numbered = True
     args = '[ type ]'  # Actually defined in the enumerate package, but it doesn't hurt
 
 class description(List): 
-- 
2.43.0


From 8058e5ccf17632d3b45efc3d9764fb9407af6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 32/66] fix: starred row ends and \nonumber in unnumbered
 alignments don't disturb equation numbers

---
 plasTeX/Base/LaTeX/Math.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 60f41bb..26ab5fd 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -176,6 +176,12 @@ class eqnarray(EqnarrayStar):
             self.ownerDocument.context.currentlabel = res[1]
             return res
 
+        def postArgument(self, arg, value, tex):
+            # \\* also starts a numbered row
+            if arg.name == '*modifier*':
+                value = None
+            Array.EndRow.postArgument(self, arg, value, tex)
+
     def invoke(self, tex):
         res = EqnarrayStar.invoke(self, tex)
         if self.macroMode == self.MODE_END:
@@ -185,6 +191,12 @@ class eqnarray(EqnarrayStar):
 class nonumber(Command):
 
     def invoke(self, tex):
+        # Rows of unnumbered alignments haven't been counted
+        for item in reversed(self.ownerDocument.context.contexts):
+            if isinstance(item.obj, Array):
+                if not item.obj.counter:
+                    return
+                break
         self.ownerDocument.context.counters['equation'].addtocounter(-1)
 
     def digest(self, tokens):
-- 
2.43.0


From 170e5d36ed71328b7efe9e9ec82e0378601a134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 33/66] fix: book part numbers are Roman, equations before the
 first chapter have no chapter number, appendix is global

---
 plasTeX/Packages/article.py | 1 +
 plasTeX/Packages/book.py    | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 83a85c5..233edf6 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -20,4 +20,5 @@ class appendix(Command): # type: ignore
     def invoke(self, tex):
         self.ownerDocument.context.counters['section'].setcounter(0)
         self.ownerDocument.context.counters['subsection'].setcounter(0)
+        self.ownerDocument.context.removeMeanings('thesection')
         self.ownerDocument.context['thesection'] = type(self).thesection 
diff --git a/plasTeX/Packages/book.py b/plasTeX/Packages/book.py
index 8daf727..fa4d59a 100644
--- a/plasTeX/Packages/book.py
+++ b/plasTeX/Packages/book.py
@@ -10,7 +10,7 @@ def ProcessOptions(options, document):
 
     # Sections
     context.newcounter('part', resetby='volume',
-                       format='$part')
+                       format='${part.Roman}')
     context.newcounter('chapter', resetby='volume',
                        format='$chapter')
     context.newcounter('section', resetby='chapter',
@@ -27,7 +27,7 @@ def ProcessOptions(options, document):
                        format='${thesubparagraph}.${subsubparagraph}')
 
     context.newcounter('equation', resetby='chapter',
-                       format='${thechapter}.${equation}')
+                       format='${thechapter}.${equation}', trimLeft=True)
 
     context.newcounter('secnumdepth')
     context.newcounter('tocdepth')
@@ -71,4 +71,5 @@ class appendix(Command):
     def invoke(self, tex):
         self.ownerDocument.context.counters['chapter'].setcounter(0)
         self.ownerDocument.context.counters['section'].setcounter(0)
+        self.ownerDocument.context.removeMeanings('thechapter')
         self.ownerDocument.context['thechapter'] = type(self).thechapter
-- 
2.43.0


From e16d28149f141ab628441d0a6154ef4faf194679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 34/66] fix: sections deeper than the numbering depth aren't
 counted

---
 plasTeX/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 7195d27..3d1a5e5 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -572,7 +572,16 @@ class Macro(Element):
         """
         if self.counter is not None:
             self.ownerDocument.context.currentlabel = self
-            self.stepcounter(tex)
+            # Only numbered objects are counted
+            if self.isNumbered:
+                self.stepcounter(tex)
+
+    @property
+    def isNumbered(self):
+        """ Is the object above the depth limit for numbers? """
+        try: secnumdepth = self.config['document']['sec-num-depth']
+        except: secnumdepth = 10
+        return secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL
 
     def postParse(self, tex):
         """
@@ -583,9 +592,7 @@ class Macro(Element):
 
         """
         if self.counter:
-            try: secnumdepth = self.config['document']['sec-num-depth']
-            except: secnumdepth = 10
-            if secnumdepth >= self.level or self.level > self.ENDSECTIONS_LEVEL:
+            if self.isNumbered:
                 self.ref = self.ownerDocument.createElement('the' + self.counter).expand(tex)
                 self.captionName = self.ownerDocument.createElement(self.counter + 'name').expand(tex)
 
-- 
2.43.0


From f31dc88ae162cf55701d65295d4a3cf186b2042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 35/66] fix: labels containing _ or ^ lost these characters in
 mathematics

---
 plasTeX/Base/LaTeX/Crossref.py | 4 ++++
 plasTeX/Packages/amsmath.py    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/plasTeX/Base/LaTeX/Crossref.py b/plasTeX/Base/LaTeX/Crossref.py
index 0db1ca5..fc46d68 100644
--- a/plasTeX/Base/LaTeX/Crossref.py
+++ b/plasTeX/Base/LaTeX/Crossref.py
@@ -8,9 +8,13 @@ from plasTeX import Command
 
 class label(Command):
     args = 'label:id'
+    # Labels are plain text, even in mathematics
+    mathMode = False
 
 class ref(Command):
     args = 'label:idref'
+    mathMode = False
 
 class pageref(Command):
     args = 'label:idref'
+    mathMode = False
diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 5f81799..b3d968b 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -142,3 +142,4 @@ class numberwithin(Command):
 
 class eqref(Command):
     args = 'label:idref'
+    mathMode = False
-- 
2.43.0


From dd0fff9429a1f3ba9fffcd82f674b62c900e22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 36/66] fix: labels of other documents captured the references
 to labels set later in this document

---
 plasTeX/Context.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index e52daf2..4c143d1 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -581,13 +581,9 @@ class Context(object):
         # print label, ''.join(self.currentlabel.ref[:])
 
         # Resolve any outstanding references to this object
-        if label in list(self.refs.keys()) and label in (self.labels.keys()):
-            for obj in self.refs[label]:
-                for key, value in list(obj.idref.items()):
-                    if value.id != label:
-                        continue
-                    obj.idref[key] = self.labels[label]
-            del self.refs[label]
+        if label in self.refs and label in self.persistentLabels:
+            for obj, name in self.refs.pop(label):
+                obj.idref[name] = self.labels[label]
 
     def ref(self, obj, name, label):
         """
@@ -607,14 +603,16 @@ class Context(object):
             return
 
         # Resolve ref if label already exists
-        if label in list(self.labels.keys()):
+        if label in self.labels:
             obj.idref[name] = self.labels[label]
-            return
+            # A label from another document gives way to one in this document
+            if label in self.persistentLabels:
+                return
 
         # If the label doesn't exist, store away the object for later
-        if label not in list(self.refs.keys()):
-            self.refs[label] = []
-        self.refs[label].append(obj)
+        self.refs.setdefault(label, []).append((obj, name))
+        if label in self.labels:
+            return
 
         # Make a fake node with the ID on it for now
         node = self['Macro']()
-- 
2.43.0


From dccb8a80e424cdd25920232a70e27645cdf72299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 37/66] fix: labels after an environment were attached to
 objects inside of it

---
 plasTeX/Context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 4c143d1..af65c1b 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -40,6 +40,8 @@ class ContextItem(dict):
         self.obj = None
         self.parent = None
         self.owner = None
+        # Labelable object outside of this context
+        self.currentlabel = None
 
     @property
     def name(self):
@@ -669,6 +671,7 @@ class Context(object):
                         self.contexts.pop()
             stacklog.debug('pushing %s onto %s', name, self.top)
             self.contexts.append(self.createContext(context))
+            self.contexts[-1].currentlabel = self.currentlabel
 
         self.mapMethods()
 
@@ -772,11 +775,13 @@ class Context(object):
                     break
                 # Found the \begin to our \end
                 elif type(obj) == type(o) and obj.macroMode == obj.MODE_END:
-                    self.contexts.pop()
+                    # Labels after the environment don't refer to the
+                    # objects in it
+                    self.currentlabel = self.contexts.pop().currentlabel
                     break
                 # Found the \foo to our \endfoo
                 elif obj.nodeName == ('end%s' % o.nodeName):
-                    self.contexts.pop()
+                    self.currentlabel = self.contexts.pop().currentlabel
                     break
                 self.contexts.pop()
 
-- 
2.43.0


From 1a0c54eddb1fb68ee0aa3b59489f82e16fe9b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 38/66] fix: \cline counted the cells it skips as single
 columns

---
 plasTeX/Base/LaTeX/Arrays.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index ea80bed..89ce0aa 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -147,12 +147,10 @@ class Array(Environment):
                 location = self.locations[self.position]
             colnum = 1
             for cell in cells:
-                if colnum < start or colnum > end:
-                    colnum += 1
-                    continue
-                cell.style['border-%s-style' % location] = 'solid'
-                cell.style['border-%s-color' % location] = 'black'
-                cell.style['border-%s-width' % location] = '1px'
+                if start <= colnum <= end:
+                    cell.style['border-%s-style' % location] = 'solid'
+                    cell.style['border-%s-color' % location] = 'black'
+                    cell.style['border-%s-width' % location] = '1px'
                 if cell.attributes:
                     colnum += cell.attributes.get('colspan', 1)
                 else:
-- 
2.43.0


From 891d9dc75a1a4d3f703bcdbf7d4faf3adad26d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 39/66] fix: @{...} before the first column was taken for
 columns

---
 plasTeX/Base/LaTeX/Arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index 89ce0aa..c464c43 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -546,8 +546,9 @@ class Array(Environment):
                 continue
 
             if tok == '@':
+                between = tex.readArgument()
                 if output:
-                    output[-1].between = tex.readArgument()
+                    output[-1].between = between
                 continue
 
             if tok == '*':
-- 
2.43.0


From d3814bbb6ba99e8158f55734e5498ce52fe4c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 40/66] fix: text boxes used in inline math took dollars in
 them for the end of the formula

---
 plasTeX/Base/LaTeX/Boxes.py | 6 +++---
 plasTeX/Base/LaTeX/Math.py  | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Boxes.py b/plasTeX/Base/LaTeX/Boxes.py
index 0cc87ac..8a1a907 100644
--- a/plasTeX/Base/LaTeX/Boxes.py
+++ b/plasTeX/Base/LaTeX/Boxes.py
@@ -8,7 +8,7 @@ from plasTeX import Command, Environment
 from plasTeX import DimenCommand, GlueCommand
 
 
-class TextBoxCommand(Command):
+class TextBoxCommand(BoxCommand):
 
     class width(DimenCommand):
         value = DimenCommand.new(0)
@@ -29,7 +29,7 @@ class mbox(BoxCommand):
 class makebox(TextBoxCommand):
     args = '[ width:dimen ] [ pos:str ] self'
 
-class fbox(Command):
+class fbox(BoxCommand):
     args = 'self'
 
 class framebox(TextBoxCommand):
@@ -50,7 +50,7 @@ class lrbox(Environment):
 class usebox(Command):
     args = 'name:cs'
 
-class parbox(Command):
+class parbox(BoxCommand):
     args = '[ pos:str ] width:dimen self'
 
 class minipage(Environment):
diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 26ab5fd..3383ce2 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -4,6 +4,7 @@ C.7 Mathematical Formulas (p187)
 """
 
 from plasTeX.Base.LaTeX.Arrays import Array
+from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment, sourceChildren, NoCharSubEnvironment
 from plasTeX import DimenCommand, GlueCommand, TeXFragment
 from typing import Optional
@@ -702,7 +703,7 @@ class boldmath(Command):
 class unboldmath(Command):
     pass
 
-class text(Command):
+class text(BoxCommand):
     args = 'self'
 
 # Math Style
-- 
2.43.0


From dae489baa11d0c3a39aefa454a8be0ee8a53b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 41/66] fix: the end of a group was executed while looking for
 more digits of a number

---
 plasTeX/TeX.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/plasTeX/TeX.py b/plasTeX/TeX.py
index 07232f5..f384761 100644
--- a/plasTeX/TeX.py
+++ b/plasTeX/TeX.py
@@ -339,6 +339,34 @@ class TeX(object):
 
             yield token
 
+    def itergroup(self):
+        """
+        Iterate over expanded tokens up to the end of the current group
+
+        The token which ends the group is left in the stream unexpanded,
+        so that looking for more digits of a number doesn't close the group
+        that the number belongs to.
+
+        Returns:
+        generator that iterates through the expanded tokens
+
+        """
+        while 1:
+            for token in self.itertokens():
+                self.pushToken(token)
+                break
+            else:
+                return
+            if token.nodeType != Macro.ELEMENT_NODE and \
+               (token.catcode in (Token.CC_EGROUP, Token.CC_MATHSHIFT) or
+                token.macroName in ('end', 'endgroup')):
+                return
+            for token in self:
+                yield token
+                break
+            else:
+                return
+
     def createSubProcess(self):
         """
         Create a TeX instance using the same document context
@@ -1642,7 +1670,7 @@ class TeX(object):
 
         """
         output = []
-        for t in self:
+        for t in self.itergroup():
             if t.nodeType == Macro.ELEMENT_NODE:
                 self.pushToken(t)
                 break
@@ -1681,7 +1709,7 @@ class TeX(object):
             elif t in string.digits:
                 num = number(sign * int(t + self.readSequence(string.digits,
                                                               optspace=False)))
-                for t in self:
+                for t in self.itergroup():
                     if t.nodeType == Macro.ELEMENT_NODE and \
                        isinstance(t, ParameterCommand):
                         num = number(num * number(t))
-- 
2.43.0


From dfc22d65938e77139db867ace5ec44253e13cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 42/66] fix: cells of amsmath matrices were taken for text

---
 plasTeX/Packages/amsmath.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index b3d968b..54b0df8 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -10,7 +10,7 @@ from plasTeX.Logging import getLogger
 deflog = getLogger('parse.definitions')
 
 class pmatrix(Array):
-    pass
+    mathMode = True
 
 class _AMSEquation(eqnarray):
     pass
@@ -87,20 +87,20 @@ class MultlineStar(MultilineStar):
     macroName = 'multline*'
 
 class matrix(Array):
-    pass
+    mathMode = True
 
 class vmatrix(Array):
-    pass
+    mathMode = True
 class Vmatrix(Array):
-    pass
+    mathMode = True
 
 class bmatrix(Array):
-    pass
+    mathMode = True
 class Bmatrix(Array):
-    pass
+    mathMode = True
 
 class smallmatrix(Array):
-    pass
+    mathMode = True
 
 class dddot(math):
     pass
-- 
2.43.0


From 199cae1f28ba08d69cfbab956358409a5c703152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 43/66] fix: \dddot and \ddddot were formulas of their own

---
 plasTeX/Packages/amsmath.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 54b0df8..1823b2b 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -2,7 +2,7 @@ from plasTeX import Command
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
 #### Imports Added by Tim ####
-from plasTeX.Base.LaTeX.Math import math, MathEnvironmentPre
+from plasTeX.Base.LaTeX.Math import MathEnvironmentPre
 
 from plasTeX import Tokenizer
 from plasTeX.Logging import getLogger
@@ -102,11 +102,11 @@ class Bmatrix(Array):
 class smallmatrix(Array):
     mathMode = True
 
-class dddot(math):
-    pass
+class dddot(Command):
+    args = 'self'
 
-class ddddot(math):
-    pass
+class ddddot(Command):
+    args = 'self'
 
 class DeclareMathOperator(Command):
     args = '* name:cs definition:nox'
-- 
2.43.0


From c94f432bc178d5764071f5d66fdd2b21b456dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 44/66] fix: \endverbatim inside of a verbatim environment
 ended it

---
 plasTeX/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/__init__.py b/plasTeX/__init__.py
index 3d1a5e5..c34333b 100644
--- a/plasTeX/__init__.py
+++ b/plasTeX/__init__.py
@@ -1035,7 +1035,8 @@ class VerbatimEnvironment(NoCharSubEnvironment):
                         res = [end]
                     tex.pushTokens(res)
                     break
-            if len(tokens) >= endlength2:
+            if self.macroMode == Environment.MODE_NONE and \
+               len(tokens) >= endlength2:
                 if tokens[-endlength2:] == endpattern2:
                     tokens = tokens[:-endlength2]
                     self.ownerDocument.context.pop(self)
-- 
2.43.0


From a54ec64c5460ce7b54a6929fa1f8aa531e822bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 45/66] fix: delimiters of \verb which aren't letters or other
 characters

---
 plasTeX/Base/LaTeX/Verbatim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Verbatim.py b/plasTeX/Base/LaTeX/Verbatim.py
index d842d60..82dfcba 100644
--- a/plasTeX/Base/LaTeX/Verbatim.py
+++ b/plasTeX/Base/LaTeX/Verbatim.py
@@ -29,12 +29,13 @@ class verb(Command):
     def invoke(self, tex):
         """ Parse for matching delimiters """
         self.ownerDocument.context.push(self)
-        self.parse(tex)
+        # Looking for the star already reads the delimiter
         self.ownerDocument.context.setVerbatimCatcodes()
+        self.parse(tex)
         # See what the delimiter is
         for endpattern in tex:
             self.delimiter = endpattern
-            if isinstance(endpattern, bgroup):
+            if isinstance(endpattern, bgroup) or endpattern == '{':
                 self.delimiter = endpattern = Other('}')
             break
         tokens = [self, endpattern]
-- 
2.43.0


From 9e04c57b6e125f21235a6f050417de04a5a5c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 46/66] fix: \> in a formula was turned into a line break for
 MathJax

---
 plasTeX/Base/LaTeX/Math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Math.py b/plasTeX/Base/LaTeX/Math.py
index 3383ce2..926f65c 100644
--- a/plasTeX/Base/LaTeX/Math.py
+++ b/plasTeX/Base/LaTeX/Math.py
@@ -3,6 +3,7 @@ C.7 Mathematical Formulas (p187)
 
 """
 
+import re
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.TeX.Primitives import BoxCommand
 from plasTeX import Command, Environment, sourceChildren, NoCharSubEnvironment
@@ -56,7 +57,8 @@ class MathEnvironmentPre(MathEnvironment):
 
 def mathjax_lt_gt(s: str) -> str:
     """Help mathjax deal with < and >, see http://docs.mathjax.org/en/latest/input/tex/html.html?highlight=lt#html-special-characters."""
-    return s.replace('<', r'\lt ').replace('>', r'\gt ')
+    # The second character of commands like \> is no relation
+    return re.sub(r'\\.|[<>]', lambda m: {'<': r'\lt ', '>': r'\gt '}.get(m.group(), m.group()), s, flags=re.DOTALL)
 
 class math(MathEnvironment):
     @property
-- 
2.43.0


From 7c431ba7f4f1600b67c75cfb1368378c2fcbb17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 47/66] fix: rows of gathered ended the rows of the array
 around it

---
 plasTeX/Packages/amsmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Packages/amsmath.py b/plasTeX/Packages/amsmath.py
index 1823b2b..4697629 100644
--- a/plasTeX/Packages/amsmath.py
+++ b/plasTeX/Packages/amsmath.py
@@ -2,7 +2,7 @@ from plasTeX import Command
 from plasTeX.Base.LaTeX.Arrays import Array
 from plasTeX.Base.LaTeX.Math import EqnarrayStar, eqnarray
 #### Imports Added by Tim ####
-from plasTeX.Base.LaTeX.Math import MathEnvironmentPre
+
 
 from plasTeX import Tokenizer
 from plasTeX.Logging import getLogger
@@ -64,7 +64,7 @@ class EquationStar(_AMSEquationStar):
 class aligned(_AMSEquationStar):
     pass
 
-class gathered(MathEnvironmentPre):
+class gathered(_AMSEquationStar):
     pass
 
 class cases(_AMSEquation):
-- 
2.43.0


From 2163e746ee328f4abbf20b03b674936694693287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 48/66] fix: filename generator lost variables, words and
 numbers

Values were split into words only after forbidden characters (usually
including the space) had been replaced, an empty value failed, and a
variable used twice could have one width only.  A skipped name discarded the
variables of the request, so the following alternatives could not be used;
the variables of the first request became the initial ones; an error ended
the generator, which then returned None; and after 100 names (or 100 taken
ones) it gave up although a fresh name could be formed.  The documented
template $jobname_[...] looked for a variable named jobname_.
---
 plasTeX/Filenames.py | 160 ++++++++++++++++++++-----------------------
 1 file changed, 75 insertions(+), 85 deletions(-)

diff --git a/plasTeX/Filenames.py b/plasTeX/Filenames.py
index 3323e23..81675ac 100644
--- a/plasTeX/Filenames.py
+++ b/plasTeX/Filenames.py
@@ -75,6 +75,8 @@ class Filenames(object):
         self.files = self.parseFilenames(spec)
         self.charsub = charsub or []
         self.variables = variables or {}
+        # The variables that the namespace is reset to after each iteration
+        self.initial = self.variables.copy()
         self.extension = extension
         self.invalid = invalid or {}
         self.newFilename = self._newFilename()
@@ -83,7 +85,8 @@ class Filenames(object):
         """ Parse and expand the filename string """
         # Normalize string before parsing
         spec = spec.strip()
-        spec = re.sub(r'\$(\w+)', r'${\1}', spec)
+        # (an underscore can not be the last character of a variable name)
+        spec = re.sub(r'\$(\w*[^\W_])', r'${\1}', spec)
         spec = re.sub(r'\${\s*(\w+)\s*}', r'${\1}', spec)
         spec = re.sub(r'\}\(\s*(\d+)\s*\)', r'.\1}', spec)
         spec = re.sub(r'\[\s*', r'[', spec)
@@ -127,8 +130,10 @@ class Filenames(object):
         return next(self)
 
     def __next__(self):
-        for name in self.newFilename:
-            return name
+        name = next(self.newFilename)
+        if name is None:
+            raise ValueError('Filename could not be created.')
+        return name
 
     def addExtension(self, filename):
         """ Add a file extension to the filename if none exists """
@@ -137,10 +142,50 @@ class Filenames(object):
             return filename + self.extension
         return filename
 
+    def expand(self, item, num):
+        """
+        Substitute the current variables into a filename template
+
+        Arguments:
+        item -- the template
+        num -- the number to use as the value of $num
+
+        Returns:
+        the filename.  KeyError is raised if a variable is not set.
+
+        """
+        currentns = {}
+        # Locate all key names and formats in the string
+        for key, format in re.findall(r'\$\{(\w+)(?:\.(\d+))?}', item):
+            # Supply a file number as needed
+            if key == 'num':
+                value = ('%%.%sd' % format) % num
+            elif key in self.variables:
+                value = self.variables[key]
+                # Limit variables to specified number of words
+                if format:
+                    value = ' '.join(value.split()[:int(format)])
+                if self.charsub:
+                    for char in self.charsub[0]:
+                        value = value.replace(char, self.charsub[1])
+            else:
+                raise KeyError(key)
+            if format:
+                key = '%s__%s' % (key, format)
+            currentns[key] = value
+        # Make the formats part of the variable names
+        item = re.sub(r'(\$\{\w+)\.(\d+\})', r'\1__\2', item)
+        # Do variable substitution
+        return self.addExtension(string.Template(item).substitute(currentns))
+
     def _newFilename(self):
-        """ Generator that generates new filenames """
-        g = self.variables.copy()
+        """
+        Generator that generates new filenames
 
+        None is generated if no filename can be created with the current
+        variables.
+
+        """
         # Split filenames into static and wildcard groups
         static = []
         wildcard = []
@@ -159,96 +204,41 @@ class Filenames(object):
         # Initialize file number counter
         num = 1
 
-        # Locate all key names and formats in the string
-        keysre = re.compile(r'\$\{(\w+)(?:\.(\d+))?}')
-
         # Return static filenames
         for item in static:
-            currentns = self.variables.copy()
-            for key, value in list(currentns.items()):
-                if self.charsub:
-                    for char in self.charsub[0]:
-                        value = value.replace(char, self.charsub[1])
-                currentns[key] = value
-            for key, format in keysre.findall(item):
-                # Supply a file number as needed
-                if key == 'num':
-                    currentns['num'] = ('%%.%sd' % format) % num
-                # Limit other variables to specified number of words
-                elif format and key in currentns:
-                    value = currentns[key].split()
-                    newvalue = []
-                    for i in range(int(format)):
-                        newvalue.append(value.pop(0))
-                        if not value:
-                            break
-                    currentns[key] = ' '.join(newvalue)
             try:
-                # Strip formats
-                item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-                # Do variable substitution
-                result = string.Template(item).substitute(currentns)
-                if 'num' in currentns:
-                    num += 1
-                self.variables.clear()
-                self.variables.update(g)
-                result = self.addExtension(result)
-                if result not in self.invalid:
-                    self.invalid[result] = None
-                    yield result
+                result = self.expand(item, num)
             except KeyError:
                 continue
+            if '${num' in item:
+                num += 1
+            if result not in self.invalid:
+                self.invalid[result] = None
+                self.variables.clear()
+                self.variables.update(self.initial)
+                yield result
 
         # We've reached the wildcard stage.  The wildcard gives us
         # multiple alternatives of filenames to choose from.  Keep trying
         # each one with the current namespace until one works.
-        passes = 0
         while 1:
-            passes += 1
-            for item in wildcard:
-                currentns = self.variables.copy()
-                for key, value in list(currentns.items()):
-                    if self.charsub:
-                        for char in self.charsub[0]:
-                            value = value.replace(char, self.charsub[1])
-                    currentns[key] = value
-                for key, format in keysre.findall(item):
-                    # Supply a file number as needed
-                    if key == 'num':
-                        currentns['num'] = ('%%.%sd' % format) % num
-                    # Limit other variables to specified number of words
-                    elif format and key in currentns:
-                        value = currentns[key].split()
-                        newvalue = []
-                        for i in range(int(format)):
-                            newvalue.append(value.pop(0))
-                            if not value:
-                                break
-                        currentns[key] = ' '.join(newvalue)
-                try:
-                    # Strip formats
-                    item = re.sub(r'(\$\{\w+)\.\d+(\})', r'\1\2', item)
-                    # Do variable substitution
-                    result = string.Template(item).substitute(currentns)
-                    if 'num' in currentns:
+            name = None
+            retry = True
+            while name is None and retry:
+                # Only a new number can make a difference in another pass
+                retry = False
+                for item in wildcard:
+                    try:
+                        result = self.expand(item, num)
+                    except KeyError:
+                        continue
+                    if '${num' in item:
                         num += 1
-                    self.variables.clear()
-                    self.variables.update(g)
-                    result = self.addExtension(result)
+                        retry = True
                     if result not in self.invalid:
                         self.invalid[result] = None
-                        yield result
-                    else:
-                        continue
-                    break
-                except KeyError as key:
-                    if 'num' in self.variables:
-                        del self.variables['num']
-                    continue
-            else:
-                # We tried 100 different names and still don't have a unique
-                # one, we better just bail out.
-                if passes > 100:
-                    break
-
-        raise ValueError('Filename could not be created.')
+                        name = result
+                        break
+            self.variables.clear()
+            self.variables.update(self.initial)
+            yield name
-- 
2.43.0


From 95acd5d8067c03255fbd3172775c0d39bead76e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 49/66] fix: \not, parentheses in loops and booleans of ifthen

\not ended the operand before it when it followed \and or \or; \( and \)
started math in the test of \whiledo, whose body was processed in a group of
its own; \boolean did not see \newif switches, \newboolean could not use the
name of an existing command; and lengths could be equal and less or greater
at the same time.
---
 plasTeX/Packages/ifthen.py | 70 ++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/plasTeX/Packages/ifthen.py b/plasTeX/Packages/ifthen.py
index 645172b..712cdc5 100644
--- a/plasTeX/Packages/ifthen.py
+++ b/plasTeX/Packages/ifthen.py
@@ -5,7 +5,7 @@ A Python implementation of the ifthen package.
 """
 
 from plasTeX import Command, TeXFragment, number
-from plasTeX.Tokenizer import Token, Space
+from plasTeX.Tokenizer import Token, Space, EscapeSequence, BeginGroup, EndGroup
 from plasTeX.Base.LaTeX.Math import BeginMath, EndMath
 from typing import Union, List
 
@@ -69,8 +69,10 @@ class ifthenelse(Command):
     def invoke(self, tex) -> List[Token]:
         # Temporarily disable entering math mode with \( and \)
         BeginMath.disableMath = EndMath.disableMath = True
-        a = self.parse(tex)
-        BeginMath.disableMath = EndMath.disableMath = False
+        try:
+            a = self.parse(tex)
+        finally:
+            BeginMath.disableMath = EndMath.disableMath = False
         if isinstance(a['test'], TeXFragment):
             test_result = self.evaluate(tex, a['test'])
         else:
@@ -80,8 +82,10 @@ class ifthenelse(Command):
     def prec(self, tok: Union[Token, number]) -> int:
         """Return the operator precedence for the given token"""
         if tok in ['>', '<', '=']:
+            return 3
+        if isinstance(tok, (_not, NOT)):
             return 2
-        if isinstance(tok, (_and, AND, _or, OR, _not, NOT)):
+        if isinstance(tok, (_and, AND, _or, OR)):
             return 1
         return 0
 
@@ -114,8 +118,9 @@ class ifthenelse(Command):
                     postfix.append(stack.pop())
                 stack.pop()  # (
             else:
-                # Handle operators and precedence
-                while stack and self.prec(tok) <= self.prec(stack[-1]):
+                # Handle operators and precedence; \not is a prefix operator,
+                # so there is nothing to the left for it to end
+                while not isinstance(tok, (_not, NOT)) and stack and self.prec(tok) <= self.prec(stack[-1]):
                     postfix.append(stack.pop())
                 stack.append(tok)
         while stack:
@@ -179,24 +184,29 @@ class ifthenelse(Command):
 class whiledo(ifthenelse):
     r"""The \whiledo macro.
 
-    Similar to ifthenelse, but repeatedy append the second argument to the
-    resulting expansion until the first argument expands and evaluates to false.
+    Similar to ifthenelse, but expands to the second argument followed by the
+    same loop, unless the first argument expands and evaluates to false.
     """
     args = 'test:nox operations:nox'
 
     def invoke(self, tex) -> List[Token]:
         a = self.parse(tex)
-        tok: List[Token] = []
-        while True:
+        # Temporarily disable entering math mode with \( and \)
+        BeginMath.disableMath = EndMath.disableMath = True
+        try:
             expanded = tex.expandTokens(a['test'], parentNode=self.parentNode)
-            if isinstance(expanded, TeXFragment):
-                test_result = self.evaluate(tex, expanded)
-            else:
-                test_result = self.evaluate(tex, [expanded])
-            if not test_result.state:
-                break
-            tok += tex.expandTokens(a['operations'], parentNode=self.parentNode)
-        return tok
+        finally:
+            BeginMath.disableMath = EndMath.disableMath = False
+        if isinstance(expanded, TeXFragment):
+            test_result = self.evaluate(tex, expanded)
+        else:
+            test_result = self.evaluate(tex, [expanded])
+        if not test_result.state:
+            return []
+        # Process the body where we are, then try again
+        return a['operations'] + [EscapeSequence('whiledo'),
+            BeginGroup('{')] + a['test'] + [EndGroup('}'),
+            BeginGroup('{')] + a['operations'] + [EndGroup('}')]
 
 
 class boolean(Command):
@@ -205,8 +215,9 @@ class boolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
-            if self.ownerDocument.context[a['name']].state:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
+            if self.ownerDocument.context[name].state:
                 return [_true()]
             else:
                 return [_false()]
@@ -252,8 +263,7 @@ class lengthtest(Command):
     """
     Evaluate a length test and return a _boolToken depending on the result
 
-    The < and > relations are implemented directly. However, equals tests if
-    the lengths are just very close. This is to ensure that the result of tests
+    Lengths are considered equal if they are very close. This is to ensure that the result of tests
     such as "1cm=10mm" match in LaTeX and plasTeX.
 
     The workaround is required because LaTeX dimension calculations are
@@ -269,12 +279,13 @@ class lengthtest(Command):
         a = tex.readDimen()
         relation = next(tex.itertokens())
         b = tex.readDimen()
+        same = abs(a - b) < 1e-6
         if relation == '<':
-            return [_true() if a < b else _false()]
+            return [_true() if a < b and not same else _false()]
         elif relation == '>':
-            return [_true() if a > b else _false()]
+            return [_true() if a > b and not same else _false()]
         elif relation == '=':
-            return [_true() if abs(a - b) < 1e-6 else _false()]
+            return [_true() if same else _false()]
         raise ValueError('"%s" is not a valid relation' % relation)
 
 
@@ -283,7 +294,7 @@ class newboolean(Command):
     args = 'name:str'
 
     def invoke(self, tex):
-        self.ownerDocument.context.newif(self.parse(tex)['name'])
+        self.ownerDocument.context.newif('if' + self.parse(tex)['name'])
 
 
 class provideboolean(newboolean):
@@ -296,10 +307,11 @@ class setboolean(Command):
 
     def invoke(self, tex):
         a = self.parse(tex)
-        if a['name'] in self.ownerDocument.context:
+        name = 'if' + a['name']
+        if name in self.ownerDocument.context:
             if a['value'].lower() == 'true':
-                self.ownerDocument.context[a['name']].setTrue()
+                self.ownerDocument.context[name].setTrue()
             elif a['value'].lower() == 'false':
-                self.ownerDocument.context[a['name']].setFalse()
+                self.ownerDocument.context[name].setFalse()
         else:
             raise ValueError("Boolean %s not defined" % a['name'])
-- 
2.43.0


From 184cc0f4f96c5df958a33061009f9e198126e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 50/66] fix: booleans in configuration files were always true

---
 plasTeX/ConfigManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 83f917b..4068e72 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -55,6 +55,12 @@ class BooleanOption(ConfigOption[bool]):
         if disables:
             group.add_argument(*disables, dest=self.name, help=self.description + formatDefault(self.value), action='store_false', default=None)
 
+    def setFromString(self, string: str):
+        try:
+            self.value = ConfigParser.BOOLEAN_STATES[string.strip().lower()]
+        except KeyError:
+            raise ValueError("Not a boolean: %s" % string) from None
+
 class MultiStringOption(ConfigOption[List[str]]):
     def registerArgparse(self, group: ArgumentGroup):
         group.add_argument(*self.options, dest=self.name, type=str, nargs="*", help=self.description, action="append")
-- 
2.43.0


From 65da2cef5384c4dcecf9b73ce9b6c186a6854339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 51/66] fix: keys of dictionary options in configuration files
 lost their case

---
 plasTeX/ConfigManager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/ConfigManager.py b/plasTeX/ConfigManager.py
index 4068e72..fab1648 100644
--- a/plasTeX/ConfigManager.py
+++ b/plasTeX/ConfigManager.py
@@ -280,6 +280,8 @@ class ConfigManager(Dict[str, ConfigSection]):
 
         for filename in filenames:
             data = ConfigParser(interpolation=None)
+            # Keys of dictionaries are case sensitive
+            data.optionxform = str # type: ignore
             data.read(filename)
 
             for section in data.sections():
@@ -290,8 +292,8 @@ class ConfigManager(Dict[str, ConfigSection]):
                 dictObject = next((x for x in self[section].data.values() if isinstance(x, DictOption)), None)
 
                 for key, val in data.items(section):
-                    if key in self[section].data:
-                        self[section].data[key].setFromString(val)
+                    if key.lower() in self[section].data:
+                        self[section].data[key.lower()].setFromString(val)
                     else:
                         if dictObject is not None:
                             dictObject.set(key, val)
-- 
2.43.0


From 7d6192706f30a65df5cc0cf72fcebbd74c5f53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 52/66] fix: the index was not sorted by the collation order

---
 plasTeX/Base/LaTeX/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 3f46fb7..96da0bf 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -14,7 +14,7 @@ from typing import Optional
 log = getLogger()
 
 try:
-    from pyuca import Collator_10_0_0
+    from pyuca.collator import Collator_10_0_0
     collator = Collator_10_0_0().sort_key
 except ImportError:
     collator = lambda x: x.lower()
-- 
2.43.0


From 7a0640384291ab8a3833a3d2a39294b6f652ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 53/66] fix: index entries with a page range stopped processing

---
 plasTeX/Base/LaTeX/Index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 96da0bf..61dafb2 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -218,7 +218,8 @@ class IndexUtils(object):
                 ipn = item.format.getElementsByTagName('index-page-number')
                 if ipn:
                     ipn = ipn[0]
-                    ipn.parentNode.replaceChild(text, ipn)
+                    # The page number may stand by itself (e.g. |( )
+                    (ipn.parentNode or item.format).replaceChild(text, ipn)
                 item.node.append(item.format)
             else:
                 text = doc.createTextNode(str(len(current.pages)))
-- 
2.43.0


From 891bbf37f288cb05a26c4a9d4f5bb22485972923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 54/66] fix: special characters in the format of an index entry
 broke its key

---
 plasTeX/Base/LaTeX/Index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 61dafb2..ba87653 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -284,10 +284,15 @@ class index(Command):
         sortkey, key, format = [], [], []
         entry = iter(self.attributes['entry'])
         current = []
+        formatted = False
         alphanumeric = [Token.CC_OTHER, Token.CC_LETTER, Token.CC_SPACE]
 
         # Parse the index tokens
         for tok in entry:
+            if formatted:
+                # Nothing is special in the format
+                format.append(tok)
+                continue
             if tok.catcode in alphanumeric:
                 # Escape character
                 if tok == '"':
@@ -309,7 +314,7 @@ class index(Command):
                     key.append(current)
                     if len(sortkey) < len(key):
                         sortkey.append(current)
-                    current = format
+                    formatted = True
                 else:
                     current.append(tok)
                 continue
@@ -317,7 +322,7 @@ class index(Command):
             current.append(tok)
 
         # Make sure to get the stuff at the end
-        if not format:
+        if not formatted:
             key.append(current)
             if len(sortkey) < len(key):
                 sortkey.append(current)
-- 
2.43.0


From 90b1183affe7865d615b59f8e0c96a0e926cad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 55/66] fix: headings of index entries beginning with a
 ligature or an unknown symbol

---
 plasTeX/Base/LaTeX/Index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index ba87653..7e28a62 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -84,8 +84,8 @@ class IndexUtils(object):
         current = ''
         for item in self:
             try:
-                label = title = unidecode(item.sortkey[0]).upper()
-                if title in encoding.stringletters():
+                label = title = unidecode(item.sortkey[0])[:1].upper()
+                if item.sortkey[0].isalpha() and title and title in encoding.stringletters():
                     pass
                 elif title == '_':
                      title = '_ (Underscore)'
-- 
2.43.0


From b3ba9153259063f8fdfc23128a09ae898c3865a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 56/66] fix: index entries with the same path were not always
 merged

---
 plasTeX/Base/LaTeX/Index.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Index.py b/plasTeX/Base/LaTeX/Index.py
index 7e28a62..d70fc7c 100644
--- a/plasTeX/Base/LaTeX/Index.py
+++ b/plasTeX/Base/LaTeX/Index.py
@@ -414,12 +414,12 @@ class IndexEntry(object):
         return not(self.see) and not(self.seealso)
 
     def __lt__(self, other):
-        key_self = list(zip([collator(x) for x in self.sortkey if isinstance(x, str)],
-                            [collator(x.textContent) for x in self.key],
-                            self.key))
-        key_other = list(zip([collator(x) for x in other.sortkey if isinstance(x, str)],
-                             [collator(x.textContent) for x in other.key],
-                             other.key))
+        # The keys and their source order entries that collate equally, so
+        # that entries with the same path always come together
+        key_self = [(collator(sk), collator(x.textContent), sk, x.source)
+                    for sk, x in zip(self.sortkey, self.key)]
+        key_other = [(collator(sk), collator(x.textContent), sk, x.source)
+                     for sk, x in zip(other.sortkey, other.key)]
         if key_self < key_other:
             return True
         elif key_self > key_other:
-- 
2.43.0


From 341a0ca2a0c8d9743ee1bc29ed361d05a8ac5b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 57/66] fix: damaged label files stopped \externaldocument

---
 plasTeX/Packages/xr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Packages/xr.py b/plasTeX/Packages/xr.py
index 00a10c7..1bb9eea 100644
--- a/plasTeX/Packages/xr.py
+++ b/plasTeX/Packages/xr.py
@@ -11,11 +11,15 @@ def load_paux(name: str) -> Dict:
         log.warning('Could not find {}'.format(name))
         return dict()
     try:
-        data = pickle.load(open(name, 'rb'))
+        with open(name, 'rb') as fh:
+            data = pickle.load(fh)
+        # Keep the well-formed information only
+        return {rtype: {lbl: val for lbl, val in block.items()
+                        if isinstance(lbl, str) and isinstance(val, dict)}
+                for rtype, block in data.items() if isinstance(block, dict)}
     except:
         log.warning('Failed to load {}'.format(name))
         return dict()
-    return data
 
 
 class externaldocument(Command):
@@ -32,5 +36,5 @@ class externaldocument(Command):
         for block in load_paux(pauxname).values():
             for lbl, val in block.items():
                 labels[prefix + lbl] = val
-                if url:
+                if url and isinstance(val.get('url'), str):
                     labels[prefix + lbl]['url'] = url + labels[prefix + lbl]['url']
-- 
2.43.0


From 739fa6c671ab3e0f314a999afc509dc1e1c123e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 58/66] fix: foreign label files stopped processing and stale
 labels were kept

---
 plasTeX/Context.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index af65c1b..2439fe9 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -246,14 +246,14 @@ class Context(object):
             try:
                 with open(filename, 'rb') as fh:
                     d = pickle.load(fh)
-                    if rtype not in list(d.keys()):
-                        d[rtype] = {}
-            except:
+                # Keep the information of the other renderers only
+                d = {k:v for k, v in d.items() if isinstance(v, dict)}
+            except Exception:
                 os.remove(filename)
-                d = {rtype:{}}
+                d = {}
         else:
-            d = {rtype:{}}
-        data = d[rtype]
+            d = {}
+        data = d[rtype] = {}
         for key, value in list(self.persistentLabels.items()):
             data[key] = value.persist()
         try:
@@ -278,19 +278,23 @@ class Context(object):
         import pickle
         if not os.path.exists(filename):
             return
+        labels = {}
+        wou = self.warnOnUnrecognized
+        self.warnOnUnrecognized = False
         try:
-            d = pickle.load(open(filename, 'rb'))
+            with open(filename, 'rb') as fh:
+                d = pickle.load(fh)
             try: data = d[rtype]
             except KeyError: return
-            wou = self.warnOnUnrecognized
-            self.warnOnUnrecognized = False
             for key, value in list(data.items()):
                 n = self[value.get('macroName', 'Macro')]()
                 n.restore(value)
-                self.labels[key] = n
-            self.warnOnUnrecognized = wou
+                labels[key] = n
         except Exception as msg:
             log.warning('Could not load auxiliary information. (%s)' % msg)
+        finally:
+            self.warnOnUnrecognized = wou
+        self.labels.update(labels)
 
     @property
     def isMathMode(self):
-- 
2.43.0


From 98bd7075197359e87fbb000757e0245ccb61c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:32 +0000
Subject: [PATCH 59/66] fix: labels of list items and of the rows of alignments
 had no element in the HTML5 output; index section without anchor, see entries
 linked to None

---
 plasTeX/Renderers/HTML5/Index.jinja2s | 6 +++++-
 plasTeX/Renderers/HTML5/Lists.jinja2s | 2 +-
 plasTeX/Renderers/HTML5/Math.jinja2s  | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index 99253a7..ffaf1d5 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -1,6 +1,6 @@
 name: theindex printindex
 {% set groups = obj.groups %}
-<h1>{{ obj.title }}</h1>
+<h1 id="{{ obj.id }}">{{ obj.title }}</h1>
 
 <nav class="index-groups">
 {% for group in groups %}
@@ -19,7 +19,11 @@ name: theindex printindex
   <li>
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
+    {% if page.normal %}
     <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    {% else %}
+    <span class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</span>
+    {% endif %}
     {% endfor %}
     {% if item %}
       <ul class="index-subitem-{{ loop.depth }}">
diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index 6f387ee..e7cb7d1 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -8,7 +8,7 @@ name: itemize
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li{% if item|attr('@id') %} id="{{ item.id }}"{% endif %}>{{ item }}</li>
 {% endfor %}
 </ol>
 
diff --git a/plasTeX/Renderers/HTML5/Math.jinja2s b/plasTeX/Renderers/HTML5/Math.jinja2s
index 26cad1b..5849147 100644
--- a/plasTeX/Renderers/HTML5/Math.jinja2s
+++ b/plasTeX/Renderers/HTML5/Math.jinja2s
@@ -6,6 +6,7 @@ name: ensuremath
 
 name: displaymath equation* eqnarray eqnarray* align align* gather gather* flalign flalign* multline multline* alignat alignat* split
 <div class="displaymath" id="{{ obj.id }}">
+  {% for row in obj %}{% if not loop.first and row|attr('@id') %}<span id="{{ row.id }}"></span>{% endif %}{% endfor %}
   {{ obj.mathjax_source }}
 </div>
 
-- 
2.43.0


From 4e1b006d71c9df2018aa0888b286ac2e554ecc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 60/66] fix: HTML5 output lost the text of \raisebox, of item
 labels in itemize/enumerate and of longtables without caption

---
 plasTeX/Renderers/HTML5/Boxes.jinja2s     | 5 ++++-
 plasTeX/Renderers/HTML5/Lists.jinja2s     | 4 ++--
 plasTeX/Renderers/HTML5/longtable.jinja2s | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/plasTeX/Renderers/HTML5/Boxes.jinja2s b/plasTeX/Renderers/HTML5/Boxes.jinja2s
index 74dc6a8..4636d55 100644
--- a/plasTeX/Renderers/HTML5/Boxes.jinja2s
+++ b/plasTeX/Renderers/HTML5/Boxes.jinja2s
@@ -10,4 +10,7 @@ name: parbox
 name: minipage
 <div class="minipage" style="width: {{ obj.attributes.width }}">{{ obj }}</div>
 
-name: raisebox rule
+name: raisebox
+{{ obj }}
+
+name: rule
diff --git a/plasTeX/Renderers/HTML5/Lists.jinja2s b/plasTeX/Renderers/HTML5/Lists.jinja2s
index e7cb7d1..e24151f 100644
--- a/plasTeX/Renderers/HTML5/Lists.jinja2s
+++ b/plasTeX/Renderers/HTML5/Lists.jinja2s
@@ -1,14 +1,14 @@
 name: itemize
 <ul class="itemize">
 {% for item in obj %}
-  <li>{{ item }}</li>
+  <li>{% if item.attributes.term %}<span class="item-label">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
 {% endfor %}
 </ul>
 
 name: enumerate
 <ol class="enumerate">
 {% for item in obj %}
-  <li{% if item|attr('@id') %} id="{{ item.id }}"{% endif %}>{{ item }}</li>
+  <li{% if item|attr('@id') %} id="{{ item.id }}"{% endif %}>{% if item.attributes.term %}<span class="item-label">{{ item.attributes.term }}</span> {% endif %}{{ item }}</li>
 {% endfor %}
 </ol>
 
diff --git a/plasTeX/Renderers/HTML5/longtable.jinja2s b/plasTeX/Renderers/HTML5/longtable.jinja2s
index 50c2070..e6b882a 100644
--- a/plasTeX/Renderers/HTML5/longtable.jinja2s
+++ b/plasTeX/Renderers/HTML5/longtable.jinja2s
@@ -1,5 +1,5 @@
 name: longtable
-<div id="{{ obj.title.id }}">
+<div id="{% if obj.title %}{{ obj.title.id }}{% else %}{{ obj.id }}{% endif %}">
 {% if obj.title %}
 <div class="caption">
   <span class="table-label">{{ obj.title.title }} {{ obj.title.ref }}</span> 
@@ -16,7 +16,7 @@ name: longtable
   <td style="{{ cell.style.inline}}" rowspan="{{ cell.attributes.rowspan }}" colspan="{{ cell.attributes.colspan }}">{{ cell }}</td>
   {% endif %}
 {% endfor %}
-{% endfor %}
 </tr>
+{% endfor %}
 </table>
 </div>
-- 
2.43.0


From 02d04d2cbe1137a8fd3c466dd36e6403366acf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 61/66] fix: text that looks like an image placeholder was
 changed; pages with characters outside the output encoding could not be
 written

---
 plasTeX/Renderers/PageTemplate/__init__.py | 5 ++++-
 plasTeX/Renderers/__init__.py              | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/plasTeX/Renderers/PageTemplate/__init__.py b/plasTeX/Renderers/PageTemplate/__init__.py
index 527118f..19de476 100644
--- a/plasTeX/Renderers/PageTemplate/__init__.py
+++ b/plasTeX/Renderers/PageTemplate/__init__.py
@@ -280,6 +280,8 @@ class PageTemplate(BaseRenderer):
 
     outputType = str
     fileExtension = '.xml'
+    # Characters that the output encoding doesn't have become references
+    outputErrors = 'xmlcharrefreplace'
 
     def __init__(self, *args, **kwargs):
         BaseRenderer.__init__(self, *args, **kwargs)
@@ -645,7 +647,8 @@ class PageTemplate(BaseRenderer):
                 return str(getattr(img, parameter))
         except KeyError: pass
 
-        return '&%s-%s;' % (filename, parameter)
+        # No placeholder of a known image
+        return m.group()
 
 
 # Set Renderer variable so that plastex will know how to load it
diff --git a/plasTeX/Renderers/__init__.py b/plasTeX/Renderers/__init__.py
index 002e955..7deae5d 100644
--- a/plasTeX/Renderers/__init__.py
+++ b/plasTeX/Renderers/__init__.py
@@ -199,7 +199,7 @@ class Renderable(object):
                 # Write the file content
 
                 enc = child.config['files']['output-encoding']
-                with open(filename, 'w', encoding=enc) as f:
+                with open(filename, 'w', encoding=enc, errors=r.outputErrors) as f:
                     f.write(val)
 
                 status.info(' ] ')
@@ -358,6 +358,7 @@ class Renderer(dict):
     imageAttrs = '&${filename}-${attr};'
     imageUnits = '&${units};'
     encodingErrors = 'replace'
+    outputErrors = 'strict'
 
     def __init__(self, data=None):
         dict.__init__(self, data or {})
@@ -568,7 +569,7 @@ class Renderer(dict):
             if isinstance(postProcess, collections.abc.Callable):
                 s = postProcess(document, s)
 
-            with open(f, 'w', encoding=encoding) as fd:
+            with open(f, 'w', encoding=encoding, errors=self.outputErrors) as fd:
                 fd.write(''.join(s))
 
     def find(self, keys, default=None):
-- 
2.43.0


From 0eebece7d32f5040818974152180934efa2e770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 62/66] fix: unescaped titles in attributes, citation notes and
 theorem names in the HTML5 output

---
 plasTeX/Base/LaTeX/Bibliography.py                   |  4 +++-
 plasTeX/Packages/amsthm.py                           |  2 +-
 plasTeX/Renderers/HTML5/Index.jinja2s                |  2 +-
 .../HTML5/Themes/default/default-layout.jinja2       | 12 ++++++------
 .../HTML5/Themes/default/document-layout.jinja2      | 12 ++++++------
 5 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Bibliography.py b/plasTeX/Base/LaTeX/Bibliography.py
index 374c10f..69fc7ac 100644
--- a/plasTeX/Base/LaTeX/Bibliography.py
+++ b/plasTeX/Base/LaTeX/Bibliography.py
@@ -108,7 +108,9 @@ class cite(Command):
     def postnote(self):
         a = self.attributes
         if a['text'] is not None:
-            return a['text']
+            out = self.ownerDocument.createElement('bgroup')
+            out.extend(a['text'])
+            return out
         return ''
 
     def citation(self):
diff --git a/plasTeX/Packages/amsthm.py b/plasTeX/Packages/amsthm.py
index 96a53be..e072cd4 100755
--- a/plasTeX/Packages/amsthm.py
+++ b/plasTeX/Packages/amsthm.py
@@ -165,7 +165,7 @@ class newtheorem(Command):
         self.parse(tex)
         a = self.attributes
         name = str(a['name'])
-        header = a['header'].textContent
+        header = a['header']
         star = a['*modifier*'] == '*'
         parent = a['parent']
         shared = a['shared']
diff --git a/plasTeX/Renderers/HTML5/Index.jinja2s b/plasTeX/Renderers/HTML5/Index.jinja2s
index ffaf1d5..47ce775 100755
--- a/plasTeX/Renderers/HTML5/Index.jinja2s
+++ b/plasTeX/Renderers/HTML5/Index.jinja2s
@@ -20,7 +20,7 @@ name: theindex printindex
     <span class="index-item">{{ item.key }}</span>,
     {% for page in item.pages %}
     {% if page.normal %}
-    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
+    <a href="{{ page.url }}" title="{{ page.currentSection.title | striptags | e }}" class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</a>
     {% else %}
     <span class="{% if loop.last %}index-page-last{% else %}index-page{% endif %}">{{ page }}</span>
     {% endif %}
diff --git a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
index c31176a..29dd574 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/default-layout.jinja2
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -144,13 +144,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
diff --git a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2 b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
index a7aa818..455ebd1 100755
--- a/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
+++ b/plasTeX/Renderers/HTML5/Themes/default/document-layout.jinja2
@@ -47,13 +47,13 @@
 {% endif %}
 {% endif %}
 {% if links.next.url %}
-<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent }}" />
+<link rel="next" href="{{ links.next.url }}" title="{{ links.next.title.textContent | e }}" />
 {% endif %}
 {% if links.prev.url %}
-<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent }}" />
+<link rel="prev" href="{{ links.prev.url }}" title="{{ links.prev.title.textContent | e }}" />
 {% endif %}
 {% if links.up.url %}
-<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent }}" />
+<link rel="up" href="{{ links.up.url }}" title="{{ links.up.title.textContent | e }}" />
 {% endif %}
 {% for css in rendererdata.get('css', []) %}
 <link rel="stylesheet" href="styles/{{ css }}" />
@@ -143,13 +143,13 @@
   {{ icon(nav['icon'], id=nav['id'], class=nav['class']) }}
 {% endfor %}
   {% if links.prev.url %}
-  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags }}">{{ icon('arrow-left')}}</a>
+  <a href="{{ links.prev.url }}" title="{{ links.prev.title | striptags | e }}">{{ icon('arrow-left')}}</a>
   {% endif %}
   {% if links.up.url %}
-  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags }}">{{ icon('arrow-up')}}</a>
+  <a href="{{ links.up.url }}" title="{{ links.up.title | striptags | e }}">{{ icon('arrow-up')}}</a>
   {% endif %}
   {% if links.next.url %}
-  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags }}">{{ icon('arrow-right')}}</a>
+  <a href="{{ links.next.url }}" title="{{ links.next.title | striptags | e }}">{{ icon('arrow-right')}}</a>
   {% endif %}
   {% if links.index.url %}
   <a href="{{ links.index.url }}" class="index">Index</a>
-- 
2.43.0


From e7bd68d011494b3ab204210e9ec79228723eb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 63/66] fix: open math groups belong to the document, not to
 the interpreter

---
 plasTeX/Base/TeX/Primitives.py | 8 ++++----
 plasTeX/Context.py             | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/plasTeX/Base/TeX/Primitives.py b/plasTeX/Base/TeX/Primitives.py
index cc47b61..bba5af4 100644
--- a/plasTeX/Base/TeX/Primitives.py
+++ b/plasTeX/Base/TeX/Primitives.py
@@ -65,12 +65,13 @@ class BoxCommand(Command):
     args = 'self'
     mathMode = False
     def parse(self, tex):
-        MathShift.inEnv.append(None)
+        mathShifts = self.ownerDocument.context.mathShifts
+        mathShifts.append(None)
         # Push a context so that the mathMode of the box is seen by its content
         self.ownerDocument.context.push(self)
         Command.parse(self, tex)
         self.ownerDocument.context.pop(self)
-        MathShift.inEnv.pop()
+        mathShifts.pop()
         return self.attributes
 
 class hbox(BoxCommand): pass
@@ -86,7 +87,6 @@ class MathShift(Command):
 
     """
     macroName = 'active::$'
-    inEnv = []
 
     def invoke(self, tex):
         r"""
@@ -95,7 +95,7 @@ class MathShift(Command):
         account \mbox{}es.
 
         """
-        inEnv = type(self).inEnv
+        inEnv = self.ownerDocument.context.mathShifts
 
         current = self.ownerDocument.createElement('math')
         for t in tex.itertokens():
diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index 2439fe9..ae15432 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -192,6 +192,9 @@ class Context(object):
         # Output files
         self.writes = {}
 
+        # Open math shift groups, with None for each box within them
+        self.mathShifts = []
+
         # Depth of the context stack
         self.depth = 0
 
-- 
2.43.0


From e71c32a788eff70c9fb2edbd44e04c4586c6c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 64/66] fix: parameter values and document class settings
 belong to the document

---
 plasTeX/Context.py          | 48 ++++++++++++++++++++++++++++++++++++-
 plasTeX/Packages/article.py |  8 ++-----
 plasTeX/Packages/natbib.py  |  2 +-
 3 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/plasTeX/Context.py b/plasTeX/Context.py
index ae15432..0a41a3a 100644
--- a/plasTeX/Context.py
+++ b/plasTeX/Context.py
@@ -192,6 +192,9 @@ class Context(object):
         # Output files
         self.writes = {}
 
+        # Class attributes of macros that differ in this document
+        self.settings = {}
+
         # Open math shift groups, with None for each box within them
         self.mathShifts = []
 
@@ -745,10 +748,53 @@ class Context(object):
         """
         for value in list(context.values()):
             if ismacro(value):
-                self[macroName(value)] = value
+                self[macroName(value)] = self.documentClass(value)
 #           elif isinstance(value, Context):
 #               self.importMacros(value)
 
+    def documentClass(self, value):
+        """
+        Get the macro class that this document uses for a shared macro class
+
+        Parameters hold their value on their class, and document classes
+        change the settings of some macros.  Both are specific to this
+        document, so they are kept on a subclass.
+
+        Required Arguments:
+        value -- macro to be imported
+
+        Returns: the macro to use in this document
+
+        """
+        if not isinstance(value, type):
+            return value
+        name = macroName(value)
+        settings = self.settings.get(name)
+        if settings is None and not issubclass(value, plasTeX.ParameterCommand):
+            return value
+        current = self.contexts[0].get(name)
+        if isinstance(current, type) and value in current.__bases__:
+            # Imported again
+            return current
+        return type(value.__name__, (value,), dict(settings or {}, __module__=value.__module__))
+
+    def configure(self, name, **settings):
+        """
+        Change class attributes of a macro in this document only
+
+        Required Arguments:
+        name -- name of the macro
+
+        Keyword Arguments:
+        settings -- class attributes and their values.  They also apply
+            to macros of that name imported later.
+
+        """
+        self.settings.setdefault(name, {}).update(settings)
+        value = self.contexts[0].get(name)
+        if value is not None:
+            self[name] = type(value.__name__, (value,), dict(settings, __module__=value.__module__))
+
     def pop(self, obj=None):
         """
         Remove a context from the stack
diff --git a/plasTeX/Packages/article.py b/plasTeX/Packages/article.py
index 233edf6..8700eef 100644
--- a/plasTeX/Packages/article.py
+++ b/plasTeX/Packages/article.py
@@ -5,12 +5,8 @@ from plasTeX.Packages import report
 def ProcessOptions(options, document): # type: ignore
     report.ProcessOptions(options, document)
     document.context['thesection'].format = '${section}'
-    document.context['theindex'].counter = 'section'
-    document.context['theindex'].level = Environment.SECTION_LEVEL
-    document.context['printindex'].counter = 'section'
-    document.context['printindex'].level = Command.SECTION_LEVEL
-    document.context['bibliography'].counter = 'section'
-    document.context['bibliography'].level = Command.SECTION_LEVEL
+    for name in ['theindex', 'printindex', 'bibliography']:
+        document.context.configure(name, counter='section', level=Environment.SECTION_LEVEL)
 
 class appendix(Command): # type: ignore
 
diff --git a/plasTeX/Packages/natbib.py b/plasTeX/Packages/natbib.py
index 6be9f62..6e8c113 100644
--- a/plasTeX/Packages/natbib.py
+++ b/plasTeX/Packages/natbib.py
@@ -50,7 +50,7 @@ def ProcessOptions(options, document):
         elif key == 'colon':
             punct['sep'] = ';'
         elif key == 'sectionbib':
-            Base.bibliography.level = Base.section.level
+            document.context.configure('bibliography', level=Base.section.level)
         elif key == 'sort':
             pass
         elif key in ['sort&compress','sortandcompress']:
-- 
2.43.0


From 665fa456793390b0e9e956feee1c94ab7ea798ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 65/66] fix: reading a column specification leaves the array
 class alone

---
 plasTeX/Base/LaTeX/Arrays.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plasTeX/Base/LaTeX/Arrays.py b/plasTeX/Base/LaTeX/Arrays.py
index c464c43..2d8ae8b 100644
--- a/plasTeX/Base/LaTeX/Arrays.py
+++ b/plasTeX/Base/LaTeX/Arrays.py
@@ -520,11 +520,13 @@ class Array(Environment):
         before = None
         leftborder = None
 
-        tex.pushToken(Array)
+        # Mark the end with an object of our own; tokens are modified when read
+        end = Array()
+        tex.pushToken(end)
         tex.pushTokens(colspec)
 
         for tok in tex.itertokens():
-            if tok is Array:
+            if tok is end:
                 break
 
             if tok.isElementContentWhitespace:
-- 
2.43.0


From 93c021072a0f16c26583686f9cd20e28470830ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 66/66] fix: the beamer class changes macro arguments in its
 own document only

---
 plasTeX/Packages/beamer.py | 61 ++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/plasTeX/Packages/beamer.py b/plasTeX/Packages/beamer.py
index 716cd5e..fc1f02c 100644
--- a/plasTeX/Packages/beamer.py
+++ b/plasTeX/Packages/beamer.py
@@ -1,8 +1,8 @@
-from plasTeX import Command, Environment
+from plasTeX import Command, Environment, macroName
 from plasTeX.Base import textbf, textit, textsl, textrm, textsf
-from plasTeX.Base import List, label, newcommand, newenvironment
+from plasTeX.Base import label, newcommand, newenvironment
 from plasTeX.Base import renewcommand, renewenvironment
-from plasTeX.Base import itemize, enumerate_, description
+from plasTeX.Base import itemize, enumerate_, description, trivlist, ConfigurableList
 from plasTeX.Base import part, section, subsection, subsubsection
 from plasTeX.Base import tableofcontents, thebibliography
 from plasTeX.Base import abstract, verse, quotation, quote, footnote, footnotetext
@@ -22,6 +22,29 @@ def ProcessOptions(options, document):
 ''')
     document.userdata.setdefault('imager_preamble_extra', extras)
 
+    # The arguments of these macros differ in beamer documents
+    context = document.context
+    for macro in [textbf, textit, textsl, textrm, textsf, color, label,
+                  includegraphics, newcommand, renewcommand, newenvironment,
+                  renewenvironment, section, subsection, subsubsection, part,
+                  appendix, hypertarget, abstract, verse, quotation, quote]:
+        context.configure(macroName(macro), args='< overlay >' + macro.args)
+    context.configure('hyperlink', args='< overlay >' + hyperlink.args + '< overlay2 >')
+    context.configure('tableofcontents', args='[ options:dict ]' + tableofcontents.args)
+    for name in ['footnote', 'footnotetext']:
+        # modify options int -> dict
+        context.configure(name, args='< overlay > [ options:dict ] self')
+    for macro, args in [(trivlist, trivlist.args),
+                        (ConfigurableList, ConfigurableList.args),
+                        (itemize, '[ overlay ]'),
+                        (enumerate_, '[ overlay ] [ template ]'),
+                        (description, '[ overlay ] [ longtext ]')]:
+        item = type('item', (macro.item,), {'args': '< alert >' + macro.item.args + '< alert2 >'})
+        context.configure(macroName(macro), args=args, item=item)
+    bibitem = thebibliography.bibitem
+    context.configure('thebibliography',
+                      bibitem=type('bibitem', (bibitem,), {'args': '< overlay >' + bibitem.args}))
+
 class frame(Command):
     args = '< overlay > self'
     subtitle = None
@@ -138,38 +161,6 @@ class overlayarea(Environment):
 class overprint(Environment):
     args = 'width'
 
-List.item.args = '< alert >' + List.item.args + '< alert2 >'
-textbf.args = '< overlay >' + textbf.args
-textit.args = '< overlay >' + textit.args
-textsl.args = '< overlay >' + textsl.args
-textrm.args = '< overlay >' + textrm.args
-textsf.args = '< overlay >' + textsf.args
-color.args = '< overlay >' + color.args
-label.args = '< overlay >' + label.args
-includegraphics.args = '< overlay >' + includegraphics.args
-newcommand.args = '< overlay >' + newcommand.args
-renewcommand.args = '< overlay >' + renewcommand.args
-newenvironment.args = '< overlay >' + newenvironment.args
-renewenvironment.args = '< overlay >' + renewenvironment.args
-itemize.args = '[ overlay ]'
-enumerate_.args = '[ overlay ] [ template ]'
-description.args = '[ overlay ] [ longtext ]'
-section.args = '< overlay >' + section.args
-subsection.args = '< overlay >' + subsection.args
-subsubsection.args = '< overlay >' + subsubsection.args
-part.args = '< overlay >' + part.args
-thebibliography.bibitem.args = '< overlay >' + thebibliography.bibitem.args
-appendix.args = '< overlay >' + appendix.args
-hypertarget.args = '< overlay >' + hypertarget.args
-hyperlink.args = '< overlay >' + hyperlink.args + '< overlay2 >'
-tableofcontents.args = '[ options:dict ]' + tableofcontents.args
-abstract.args = '< overlay >' + abstract.args
-verse.args = '< overlay >' + verse.args
-quotation.args = '< overlay >' + quotation.args
-quote.args = '< overlay >' + quote.args
-footnote.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-footnotetext.args = '< overlay > [ options:dict ] self' # modify options int -> dict
-
 class resetcounteronoverlays(Command):
     args = 'counter'
 
-- 
2.43.0

