From 66db64e41822346fad9c0ad7df5f9452a26eadbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 01/38] fix: re-evaluate every node and accept falsy literals
 in Interpreter.evaluate

Cached TRUE/Symbol results of an earlier evaluation were reused for other
attribute values, and literals such as 0, "", FALSE or UNDEF raised
'invalid node type'. Warnings are now per evaluation.
---
 hgpl/interpreting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 4750adf..1a118c7 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -1,5 +1,5 @@
 from hgpl.parsing import Parser
-from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ASTResult, ASTNullVal
+from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ValNode, BoolValNode, ASTResult, ASTNullVal
 from hgpl.symbols import SymbolTable, Symbol, SymbolType
 from hgpl.errors import InterpreterError, InterpreterWarning
 
@@ -249,7 +249,7 @@ class Interpreter(object):
     def _evaluate_set_node(self, node):
         node.result = []
         for n in node.children():
-            if n.result and isinstance(n.result, (int, float, str, ASTNullVal)):
+            if isinstance(n.result, (int, float, str, ASTNullVal)):
                     node.result.append(n.result)
             else:
                 self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_set_node",
@@ -257,8 +257,7 @@ class Interpreter(object):
 
     def _evaluate_node(self, node):
         for n in node.children():
-            if not n.result:
-                self._evaluate_node(n)
+            self._evaluate_node(n)
 
         if isinstance(node, AttNode):
             self._evaluate_att_node(node)
@@ -270,7 +269,7 @@ class Interpreter(object):
             self._evaluate_bool_op_node(node)
         elif isinstance(node, OpNode):
             self._evaluate_op_node(node)
-        else:
+        elif not isinstance(node, (ValNode, BoolValNode)):
             self._error("Interpreter Error, invalid node type.", "evaluate_node", node)
 
     def get_warnings(self):
@@ -282,6 +281,7 @@ class Interpreter(object):
         else:
             self._symbols = SymbolTable()
 
+        self._warnings = []
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-- 
2.43.0


From 49ffaa2a2c83a9980acbf5f30ba29cfa08cc032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 02/38] fix: default min_warn_level=None of
 Interpreter.evaluate raised TypeError when there were warnings

---
 hgpl/interpreting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 1a118c7..71b513d 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -285,7 +285,7 @@ class Interpreter(object):
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-            if warn.type >= min_warn_level:
+            if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
         return self._ast.result
-- 
2.43.0


From d2286e4b292076c822aebd61b35e15dbe5f2580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 03/38] fix: make ASTNullVal hashable so NULL can be used in
 set operations

---
 hgpl/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index db09155..857582d 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -267,6 +267,9 @@ class ASTNullVal(object):
     def __ne__(self, other):
         return not isinstance(other, ASTNullVal)
 
+    def __hash__(self):
+        return hash(ASTNullVal)
+
 
 class NullValNode(ValNode):
     def __init__(self, token):
-- 
2.43.0


From 2618da571fc40c8c3b9f373f8c3747f01b1035d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 04/38] fix: '=' and '!=' between a set attribute and a set
 constant always gave UNDEF

---
 hgpl/interpreting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 71b513d..683d234 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -107,13 +107,17 @@ class Interpreter(object):
         if isinstance(rresult, Symbol):
             rresult = self._symbol_to_val(rresult, tmp, 0)
 
+        if isinstance(lresult, list):
+            lresult = set(lresult)
+
+        if isinstance(rresult, list):
+            rresult = set(rresult)
+
         if (isinstance(lresult, (int, float)) and isinstance(rresult, (int, float))) or \
            (isinstance(lresult, str) and isinstance(rresult, str)) or \
            (isinstance(lresult, set) and isinstance(rresult, set)) or \
            (isinstance(lresult, ASTNullVal) and isinstance(rresult, ASTNullVal)):
             return ASTResult.from_bool(lresult == rresult)
-        elif isinstance(lresult, list) and isinstance(rresult, list):
-            return ASTResult.from_bool(set(lresult) == set(rresult))
         else:
             self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", None, lresult,
                        rresult)
-- 
2.43.0


From e1bca67afd264aced98626601a33dbfd734a65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 05/38] fix: '!=' between two attributes of incomparable types
 evaluated to TRUE instead of UNDEF

---
 hgpl/interpreting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 683d234..c8f0b93 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -100,6 +100,12 @@ class Interpreter(object):
             return symbol.value
 
     def _eq_op(self, lresult, rresult):
+        if isinstance(lresult, Symbol) and isinstance(rresult, Symbol) and \
+           not isinstance(lresult.value, (set, list)) and not isinstance(rresult.value, (set, list)):
+            # Two atomic attributes are compared as atomic values (incomparable types are UNDEF, not FALSE).
+            lresult = lresult.value
+            rresult = rresult.value
+
         tmp = lresult
         if isinstance(lresult, Symbol):
             lresult = self._symbol_to_val(lresult, rresult, 0)
-- 
2.43.0


From 01de3b3c74c670d277784b63cf7f6384f712217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 06/38] fix: a policy consisting of a non-boolean attribute
 evaluated to a truthy Symbol instead of an error

---
 hgpl/interpreting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index c8f0b93..3304487 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -294,6 +294,9 @@ class Interpreter(object):
         self._warnings = []
         self._evaluate_node(self._ast)
 
+        if not isinstance(self._ast.result, ASTResult):
+            self._error("Interpreter Error, policy does not evaluate to a boolean result.", "evaluate", self._ast)
+
         for warn in self._warnings:
             if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
-- 
2.43.0


From fdd53fc5703a5b4e2b0fa150ba9e355cd4f0df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 07/38] fix: a policy ending in 'prefix.' raised AttributeError
 instead of LexerError

---
 hgpl/lexing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 957997a..26ead7c 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -229,7 +229,8 @@ class Lexer(object):
             if self._peek() == ".":
                 self._advance()
                 self._advance()
-                if self._current_char.isalpha() or self._current_char.isdigit() or self._current_char == "_":
+                if self._current_char and (self._current_char.isalpha() or self._current_char.isdigit() or
+                                           self._current_char == "_"):
                     ident = self._id()
                     if prefix.lower() == "user":
                         token_type = TokenType.USR_ATT
-- 
2.43.0


From fc1c0898a1a9c7ab3c532924d2bc28c53790dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 08/38] fix: digits that do not form a number raised ValueError
 instead of LexerError

---
 hgpl/lexing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hgpl/lexing.py b/hgpl/lexing.py
index 26ead7c..56d5a54 100644
--- a/hgpl/lexing.py
+++ b/hgpl/lexing.py
@@ -124,10 +124,14 @@ class Lexer(object):
                 raise LexerError("Syntax error encountered while reading floating point number. Found multiple '.'s in "
                                  "number.", self._policy_text, self._text_pos + 1, Token(TokenType.FLOAT, pos_at_start))
 
-        if ttype == TokenType.INT:
-            return Token(ttype, pos_at_start, int(numstring))
-        else:
-            return Token(ttype, pos_at_start, float(numstring))
+        try:
+            if ttype == TokenType.INT:
+                return Token(ttype, pos_at_start, int(numstring))
+            else:
+                return Token(ttype, pos_at_start, float(numstring))
+        except ValueError:
+            raise LexerError("Syntax error encountered while reading number. Not a valid number.", self._policy_text,
+                             pos_at_start, Token(ttype, pos_at_start))
 
     def _string(self):
         # TODO: Update to V2
-- 
2.43.0


From 86c650fa59f10c0fdac0ad50984c837824a26be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 09/38] fix: off by one in Parser look ahead raised IndexError
 on policies that end early

---
 hgpl/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index 9ee53e1..a34ce3e 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -24,7 +24,7 @@ class Parser(object):
         return self._policy
 
     def _peek(self, i=1):
-        if self._pos + i > len(self._token_list):
+        if self._pos + i >= len(self._token_list):
             return None
         return self._token_list[self._pos + i]
 
-- 
2.43.0


From 073e9d97b20f02e3b3e05d56f9b1af485eecc635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 10/38] fix: infer the type of an untyped attribute from the
 attribute it is compared with

---
 hgpl/semantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index e08d906..88dd380 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -53,10 +53,10 @@ class TypeChecker(object):
             right_symbol = self._symbols.lookup(right_name)
 
             if left_symbol and right_symbol:
-                if left_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
+                if left_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(left_symbol.name, right_symbol.type)
                     left_symbol.type = right_symbol.type
-                elif right_symbol.type == SymbolType.UNKNOWN and right_symbol.type != SymbolType.UNKNOWN:
+                elif right_symbol.type == SymbolType.UNKNOWN and left_symbol.type != SymbolType.UNKNOWN:
                     self._symbols.switch_type(right_symbol.name, left_symbol.type)
                     right_symbol.type = left_symbol.type
                 elif left_symbol.type != right_symbol.type \
-- 
2.43.0


From a4224299b53ab4379dc99a953ad9149b18c5878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 11/38] fix: str() of a non-empty SymbolTable raised
 AttributeError

---
 hgpl/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index a5ec588..9be879c 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -204,7 +204,7 @@ class SymbolTable(object):
 
     def __str__(self):
         string = "Name\t\tSymbol Type\t\tValue\t\tAtt Type\n"
-        for s in self._symbols:
+        for s in self._symbols.values():
                 string += s.name.lower() + "\t\t" + s.type.name + "\t\t" + str(s.value) + "\t\t" + s.att_type.name + \
                           "\n"
 
-- 
2.43.0


From 2a492f011c1b2a37ffa1ce737a53d48b0bf5c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 12/38] fix: attribute names given to SymbolTableBuilder are
 case insensitive like everywhere else

---
 hgpl/symbols.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index 9be879c..8276bd9 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -271,7 +271,7 @@ class SymbolTableBuilder(object):
              "admin": self.admin_atts, "connect": self.connect_atts}
 
         for full_att_name in mixed_att_vals:
-            att_dict = x.get(SymbolTableBuilder._to_att_type_name(full_att_name))
+            att_dict = x.get(SymbolTableBuilder._to_att_type_name(full_att_name).lower())
             if att_dict is not None:
                 att_dict[SymbolTableBuilder._to_att_name(full_att_name)] = mixed_att_vals.get(full_att_name)
             else:
@@ -282,10 +282,11 @@ class SymbolTableBuilder(object):
         st = SymbolTable()
         x = {TokenType.USR_ATT:self.user_atts, TokenType.OBJ_ATT:self.object_atts, TokenType.ENV_ATT:self.env_atts,
              TokenType.ADM_ATT:self.admin_atts, TokenType.CON_ATT:self.connect_atts}
+        types = {full_att_name.lower(): self.types.get(full_att_name) for full_att_name in self.types}
         for att_type in x:
             att_dict = x.get(att_type)
             for att_name in att_dict:
                 s = Symbol(att_name, att_type, None, att_dict.get(att_name))
-                s.type = self.types.get(s.name, SymbolType.UNKNOWN)
+                s.type = types.get(s.name, SymbolType.UNKNOWN)
                 st.define(s)
         return st
-- 
2.43.0


From 4637a5bc9659865eea76dba2fbc0c45dce41dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:23 +0000
Subject: [PATCH 13/38] fix: use tree local node ids in encoded ASTs

The process wide counter overflowed the 16 bit id field and ids of trees that
were decoded and combined with others collided.
---
 hgpl/ast.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 857582d..b06a617 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -333,7 +333,7 @@ class ASTEncoder(object):
     _encoding_body_head = struct.Struct("<HBBHHH")
 
     @staticmethod
-    def _encode_node(node):
+    def _encode_node(node, node_id=0):
         if node.ttype() == TokenType.INT:
             tval_format = 'i'
             tval_size = 4
@@ -361,39 +361,33 @@ class ASTEncoder(object):
                 # TODO: Custom exception
                 raise Exception()
 
-        node_header = ASTEncoder._encoding_body_head.pack(node.id, node.ntype().value, node.ttype().value, node.tpos(), tval_size,
+        node_header = ASTEncoder._encoding_body_head.pack(node_id, node.ntype().value, node.ttype().value, node.tpos(), tval_size,
                                               node.num_nodes())
         if tval_size > 0:
             tvalue = struct.pack('<' + tval_format, tval)
         else:
             tvalue = None
 
+        # Node ids are local to the encoded tree (position of the node in the encoding).
+        encoded_children = ()
+        child_ids = ()
+        for n in node.children():
+            child_id = node_id + 1 + len(encoded_children)
+            child_ids += (child_id,)
+            encoded_children += ASTEncoder._encode_node(n, child_id)
+
         if node.num_nodes() > 0:
-            child_ids = tuple(child.id for child in node._node_list)
             children = struct.pack('<' + str(node.num_nodes()) + 'H', *child_ids)
         else:
-            child_ids = None
             children = None
 
         encoded_node = b''.join((filter(None, (node_header, tvalue, children))))
-        encoded_nodes = (encoded_node,)
-
-        del children
-        del child_ids
-        del tvalue
-        del tval_size
-        del tval_format
-        del node_header
-
-        for n in node.children():
-            encoded_nodes += ASTEncoder._encode_node(n)
-
-        return encoded_nodes
+        return (encoded_node,) + encoded_children
 
     @staticmethod
     def encode(ast, encode_in_base64=False):
         encoded_nodes = ASTEncoder._encode_node(ast)
-        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ast.id)
+        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), 0)
         encoded = header + b''.join(encoded_nodes)
 
         if encode_in_base64:
-- 
2.43.0


From 05e94214b7be9d4a87df81620280eeb0a2bb79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:23 +0000
Subject: [PATCH 14/38] fix: encoded ASTs lost the precision of floats and
 could not hold integers over 32 bits

---
 hgpl/ast.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index b06a617..84f3b0e 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -335,12 +335,12 @@ class ASTEncoder(object):
     @staticmethod
     def _encode_node(node, node_id=0):
         if node.ttype() == TokenType.INT:
-            tval_format = 'i'
-            tval_size = 4
-            tval = node.tvalue()
+            tval_size = max(4, (node.tvalue().bit_length() + 8) // 8)
+            tval_format = str(tval_size) + 's'
+            tval = node.tvalue().to_bytes(tval_size, 'little', signed=True)
         elif node.ttype() == TokenType.FLOAT:
-            tval_format = 'f'
-            tval_size = 4
+            tval_format = 'd'
+            tval_size = 8
             tval = node.tvalue()
         #elif node.ttype() == TokenType.BOOL:
         #    tval_format = 'B'
@@ -415,11 +415,13 @@ class ASTEncoder(object):
 
             if token_val_size > 0:
                 str_flag = False
+                int_flag = False
 
                 if token_type == TokenType.INT.value:
-                    tval_format = 'i'
+                    int_flag = True
+                    tval_format = str(token_val_size) + 's'
                 elif token_type == TokenType.FLOAT.value:
-                    tval_format = 'f'
+                    tval_format = 'f' if token_val_size == 4 else 'd'
                 #elif token_type == TokenType.BOOL.value:
                 #    tval_format = 'B'
                 else:
@@ -430,6 +432,8 @@ class ASTEncoder(object):
 
                 if str_flag:
                     token_val = token_val.decode('utf-8')
+                elif int_flag:
+                    token_val = int.from_bytes(token_val, 'little', signed=True)
 
                 byte_count += token_val_size
             else:
-- 
2.43.0


From be843f3dc544dcabedceb3a16c7448129a4e7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:23 +0000
Subject: [PATCH 15/38] fix: encoded ASTs truncated non-ASCII names and turned
 empty strings into None

---
 hgpl/ast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index 84f3b0e..a57e5ce 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -352,9 +352,9 @@ class ASTEncoder(object):
                 tval_size = 0
                 tval = None
             elif isinstance(node.tvalue(), str):
-                tval_size = len(node.tvalue())
-                tval_format = str(tval_size) + 's'
                 tval = bytes(node.tvalue(), 'utf-8')
+                tval_size = len(tval)
+                tval_format = str(tval_size) + 's'
             else:
                 print(node.tvalue())
                 print(node.tvalue().__class__.__name__)
@@ -436,6 +436,8 @@ class ASTEncoder(object):
                     token_val = int.from_bytes(token_val, 'little', signed=True)
 
                 byte_count += token_val_size
+            elif token_type == TokenType.STRING.value:
+                token_val = ""
             else:
                 token_val = None
 
-- 
2.43.0


From 5a65552a49cc580f15236256ffbcff430c3daf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 16/38] fix: size fields of encoded certificates counted
 characters instead of UTF-8 bytes

---
 hgaa/attcert.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6b13e75..1144fc5 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -100,16 +100,16 @@ class ACIssuer(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
         if self.url is not None:
-            url_size = len(self.url)
+            url_size = len(self.url.encode('utf-8'))
         else:
             url_size = 0
 
@@ -166,11 +166,11 @@ class ACHolder(ACPart):
 
     def encode(self):
         pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
+        key_algo_size = len(self.key_algo.encode('utf-8'))
+        uid_size = len(self.uid.encode('utf-8'))
 
         if self.name is not None:
-            name_size = len(self.name)
+            name_size = len(self.name.encode('utf-8'))
         else:
             name_size = 0
 
@@ -232,9 +232,9 @@ class ACAttribute(ACPart):
         return output
 
     def encode(self):
-        att_id_size = len(self.att_id)
-        att_value_size = len(self.att_value) if self.att_value is not None else 0
-        att_name_size = len(self.att_name) if self.att_name is not None else 0
+        att_id_size = len(self.att_id.encode('utf-8'))
+        att_value_size = len(self.att_value.encode('utf-8')) if self.att_value is not None else 0
+        att_name_size = len(self.att_name.encode('utf-8')) if self.att_name is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         att_id = self.att_id.encode('utf-8')
         att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
@@ -307,7 +307,7 @@ class ACRevocationRules(ACPart):
         return output
 
     def encode(self):
-        url_size = len(self.url) if self.url is not None else 0
+        url_size = len(self.url.encode('utf-8')) if self.url is not None else 0
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         url = self.url.encode('utf-8') if self.url is not None else b''
 
@@ -386,7 +386,7 @@ class ACExtensions(ACPart):
         return output
 
     def encode(self):
-        eid_size = len(self.eid)
+        eid_size = len(self.eid.encode('utf-8'))
         extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         eid = self.eid.encode('utf-8')
 
@@ -430,7 +430,7 @@ class ACSignature(ACPart):
         return output
 
     def encode(self):
-        algo_size = len(self.sig_algo)
+        algo_size = len(self.sig_algo.encode('utf-8'))
         value_size = len(self.sig_value)
         algo = self.sig_algo.encode('utf-8')
 
-- 
2.43.0


From c55cabb3a261210bc13b15af4ee69d8db2afa419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 17/38] fix: certificates with repeated attribute/extension ids
 or an empty and a missing set compared wrongly

---
 hgaa/attcert.py | 49 ++++++++++++-------------------------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 1144fc5..af3c238 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -689,42 +689,17 @@ class AttributeCertificate(object):
                 else:
                     return False
 
-            # TODO: Refactor this (poorly coded)
-            if self.att_set is None and other.att_set is None:
-                pass
-            elif len(self.att_set) == len(other.att_set):
-                for self_att in self.att_set:
-                    ok = False
-                    for other_att in other.att_set:
-                        if self_att.att_id == other_att.att_id:
-                            if self_att == other_att:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            # TODO: Refactor this (poorly coded)
-            if self.extensions is None and other.extensions is None:
-                pass
-            elif len(self.extensions) == len(other.extensions):
-                for self_ext in self.extensions:
-                    ok = False
-                    for other_ext in other.extensions:
-                        if self_ext.eid == other_ext.eid:
-                            if self_ext == other_ext:
-                                ok = True
-                                break
-                            else:
-                                return False
-                    if not ok:
-                        return False
-            else:
-                return False
-
-            return True
+            return AttributeCertificate._same_parts(self.att_set, other.att_set) and \
+                AttributeCertificate._same_parts(self.extensions, other.extensions)
         else:
             return False
+
+    @staticmethod
+    def _same_parts(parts, other_parts):
+        # Order independent, None and empty are the same (they have the same encoding).
+        remaining = list(other_parts) if other_parts is not None else []
+        for part in parts if parts is not None else []:
+            if part not in remaining:
+                return False
+            remaining.remove(part)
+        return len(remaining) == 0
-- 
2.43.0


From fdecd5ef29571e141f455f7422fcd5a06ed510f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 18/38] fix: import_ac emptied the caller's BYTES buffer and
 rejected bytes input

---
 hgaa/attcert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index af3c238..fd76baf 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -528,7 +528,7 @@ class AttributeCertificate(object):
     @staticmethod
     def import_ac(input, format=ExportFormat.BYTES, verify=False):
         if format == ExportFormat.BYTES:
-            return AttributeCertificate.decode(input, verify)
+            return AttributeCertificate.decode(bytearray(input), verify)
         elif format == ExportFormat.BASE64:
             decode = base64.b64decode(input)
             return AttributeCertificate.decode(bytearray(decode), verify)
@@ -539,7 +539,7 @@ class AttributeCertificate(object):
             # TODO: Support TEXT format import.
             raise Exception('TEXT import not yet supported.')
         elif format == ExportFormat.BASE64FULL:
-            parts = input.split('\n')
+            parts = (input if isinstance(input, str) else input.decode('utf-8')).split('\n')
             # TODO: Check that all parts are valid/right version.
             return AttributeCertificate.import_ac(parts[3], ExportFormat.BASE64, verify)
         else:
-- 
2.43.0


From b36f7c9d107a0c3a6de19a4b2d69463309572bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:59 +0000
Subject: [PATCH 19/38] fix: a certificate cut short within its signature was
 decoded as if complete

---
 hgaa/attcert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index fd76baf..4929d37 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -445,6 +445,10 @@ class ACSignature(ACPart):
         sig.sig_algo = byte_array[4:4 + algo_size].decode('utf-8') if algo_size > 0 else None
         sig.sig_value = byte_array[4 + algo_size:4 + algo_size + value_size] if value_size > 0 else None
 
+        if len(byte_array) < 4 + algo_size + value_size:
+            # TODO: Custom exception.
+            raise Exception('Signature is missing bytes.')
+
         byte_array[:] = byte_array[4 + algo_size + value_size:]
         return sig
 
-- 
2.43.0


From d3741ce7c3f4ed984578e2560a9aac84c3d6876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 20/38] fix: week day name connection attribute reused the id
 of the week day and names were in local time

---
 hgaa/services/aauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index d352664..2bf8104 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -260,14 +260,14 @@ class AttributeAuthority(object):
                                    'id': '/attribute/connection/con_time',
                                    'type': AttributeType.INT,
                                    'value': int(t)}
-        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekday',
-                                           'id': '/attribute/connection/con_time_weekday',
+        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
+                                           'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
-                                           'value': time.strftime('%A')}
+                                           'value': time.strftime('%A', st)}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
                                              'id': '/attribute/connection/con_time_monthname',
                                              'type': AttributeType.STRING,
-                                             'value': time.strftime('%B')}
+                                             'value': time.strftime('%B', st)}
         con_att_set['con_time_month'] = {'name': 'con_time_month',
                                              'id': '/attribute/connection/con_time_month',
                                              'type': AttributeType.INT,
-- 
2.43.0


From 8273647f3e9e372c09910fbb6a77667996576a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 21/38] fix: an attribute assigned without a value was
 certified with the value 'None'

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 2bf8104..69ed051 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -380,7 +380,7 @@ class AttributeAuthority(object):
                         att_id=att.id,
                         att_type=att.type,
                         att_name=att.name,
-                        att_value=str(att.value)
+                        att_value=str(att.value) if att.value is not None else None
                     )
                 )
 
-- 
2.43.0


From 61d9de6aa202de257d466db822940f5a30c2815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 22/38] fix: attribute requests from compressed or IPv4 mapped
 IPv6 addresses failed

---
 hgaa/services/aauth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 69ed051..40f6c33 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -8,6 +8,7 @@ from Crypto.PublicKey import RSA
 import bcrypt
 import base64
 from logging import DEBUG
+import ipaddress
 import time
 import os
 
@@ -198,7 +199,7 @@ class AttributeAuthority(object):
 
         if 'REMOTE_ADDR' in exports:
             i = 0
-            if '.' in exports['REMOTE_ADDR']:
+            if '.' in exports['REMOTE_ADDR'] and ':' not in exports['REMOTE_ADDR']:
                 con_att_set['ip_v4'] = {'name': 'ip_v4',
                                         'id': '/attribute/connection/ip_v4',
                                         'type': AttributeType.BOOL,
@@ -225,7 +226,8 @@ class AttributeAuthority(object):
                                         'type': AttributeType.BOOL,
                                         'value': True}
 
-                hextets = exports['REMOTE_ADDR'].split(':')
+                address = ipaddress.IPv6Address(exports['REMOTE_ADDR'].split('%')[0])
+                hextets = address.exploded.split(':')
                 for hex in hextets:
                     con_att_set['remote_addr_v6_hex%d' % i] = {'name': 'remote_addr_v6_hex%d' % i,
                                                           'id': '/attribute/connection/remote_addr_v6_hex%d' % i,
-- 
2.43.0


From 728338a11be2b9a6609c0510b3958fccab4baca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 23/38] fix: the configured REV_URL of the attribute authority
 was ignored

---
 hgaa/services/aauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 40f6c33..10209b9 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -93,7 +93,7 @@ class AttributeAuthority(object):
         self.aauth_id = get_conf('AAUTH_ID', True, 'AAUTH')
         # TODO: a_uri should be renamed to uid
         self.a_uri = get_conf('A_URI', True, 'AAUTH')
-        self.rev_url = get_conf('REV_URI', True, 'AAUTH')
+        self.rev_url = get_conf('REV_URL', True, 'AAUTH')
 
         # TODO: Make sure these URLs are being generated correctly in all environments
         host = get_conf('SERVICE_HOST', True, 'LADON')
-- 
2.43.0


From 5c6311d544e0d2e8a9b21372199db20e448681b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 24/38] fix: requested attribute ids and names were never
 stripped and lower cased and a missing list failed

---
 hgaa/services/aauth.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 10209b9..c6326c6 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -183,6 +183,10 @@ class AttributeAuthority(object):
 
         return aa_info
 
+    @staticmethod
+    def _normalize(requested):
+        return [r.strip().lower() for r in requested or [] if r is not None]
+
     def _make_con_att_set(self, credentials, user_public_key, exports, ac_serial, length):
         # TODO: Better and more automated way of collecting connection atts.
         export_vars = ['REMOTE_ADDR', 'REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER']
@@ -458,14 +462,10 @@ class AttributeAuthority(object):
                 AttributeAuthority.LOG.info('Time to get atts: %s seconds.' % str(t2 - t1));
 
 
-                map(str.strip, attributes.attribute_ids)
-                map(str.lower, attributes.attribute_ids)
-                map(str.strip, attributes.attribute_names)
-                map(str.lower, attributes.attribute_names)
-                while None in attributes.attribute_ids: attributes.attribute_ids.remove(None)
+                attributes.attribute_ids = AttributeAuthority._normalize(attributes.attribute_ids)
+                attributes.attribute_names = AttributeAuthority._normalize(attributes.attribute_names)
                 while '*' in attributes.attribute_ids: attributes.attribute_ids.remove('*')
                 while '' in attributes.attribute_ids: attributes.attribute_ids.remove('')
-                while None in attributes.attribute_names: attributes.attribute_names.remove(None)
                 while '*' in attributes.attribute_names: attributes.attribute_names.remove('*')
                 while '' in attributes.attribute_names: attributes.attribute_names.remove('')
 
@@ -482,8 +482,8 @@ class AttributeAuthority(object):
                     att_list_by_id = {}
                     for att, att_value in user_attributes:
                         att.value = att_value
-                        att_list_by_name[att.name] = att
-                        att_list_by_id[att.id] = att
+                        att_list_by_name[att.name.strip().lower()] = att
+                        att_list_by_id[att.id.strip().lower()] = att
 
                     for att_id in attributes.attribute_ids:
                         att = att_list_by_id.get(att_id, None)
-- 
2.43.0


From 0a5c95e7d822f3ec7cca67f3567ebb10e5092ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 25/38] fix: PolicyAuthority accepted certificates signed with
 a key that is not the trusted authority's

---
 hgaa/services/pauth.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 3cde23a..98fde17 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -5,6 +5,7 @@ from ladon.types.attachment import attachment
 from ladon.exceptions.service import ClientFault, ServerFault
 from Crypto.Random.random import getrandbits
 from Crypto.Hash import SHA256
+from Crypto.PublicKey import RSA
 import time
 import base64
 
@@ -198,6 +199,12 @@ class PolicyAuthority(object):
                     % exports['REMOTE_ADDR'])
                 raise ClientFault('An attribute authority in an attribute certificate in your certificate '
                                   'set is not trusted.')
+            elif RSA.import_key(cert.issuer.pub_key).publickey() != RSA.import_key(aauth.pub_key).publickey():
+                PolicyAuthority.LOG.error(
+                    'ClientFault: public key in ac is not the public key of the aauth in request from %s'
+                    % exports['REMOTE_ADDR'])
+                raise ClientFault('The public key in an attribute certificate in your certificate set is not the '
+                                  'public key of its attribute authority.')
             elif not cert.verify_time():
                 PolicyAuthority.LOG.error(
                     'ClientFault: ac is expired in evaluate from %s'
-- 
2.43.0


From 57cb6276cc37db49cb09d3f52558b93f1c94e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 26/38] fix: PolicyAuthority used the attribute authority's
 database configuration

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 98fde17..59191ab 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -126,7 +126,7 @@ class PolicyAuthority(object):
                                      'url': self.url})
 
         PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
-        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?
+        self._db_session = get_session('PAUTH') # TODO: Need new session for each request?
 
     @ladonize(rtype=int)
     def simp(self):
-- 
2.43.0


From b3a3339320b79f1c836d7d3365d9bb6e9543d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 27/38] fix: a second Parser.parse (e.g. TypeChecker and
 Interpreter on one parser) raised AttributeError

---
 hgpl/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/parsing.py b/hgpl/parsing.py
index a34ce3e..476717f 100644
--- a/hgpl/parsing.py
+++ b/hgpl/parsing.py
@@ -192,7 +192,8 @@ class Parser(object):
         return node
 
     def parse(self):
-        # TODO: Reset if called 2nd time.
+        self._pos = 0
+        self._current_token = self._token_list[self._pos]
         self._eat(TokenType.START, "parse", "Syntax error, missing START token at beginning of token list.")
         result = self._policy_rule()
         self._eat(TokenType.END, "parse", "Syntax error, expected END token marking end of policy.")
-- 
2.43.0


From 11e6e75f1c9768329758042f1929f6b55137b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 28/38] fix: a second TypeChecker.check reported every issue
 again and more warnings than the first

---
 hgpl/semantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgpl/semantics.py b/hgpl/semantics.py
index 88dd380..ea0dd79 100644
--- a/hgpl/semantics.py
+++ b/hgpl/semantics.py
@@ -229,7 +229,8 @@ class TypeChecker(object):
         return self._symbols
 
     def check(self, min_error_level=ErrorType.CRIT):
-        # TODO: Reset if called 2nd time.
+        self._symbols = SymbolTable()
+        self._issues = []
         self._scan_tree(self._ast)
         self._checked = True
 
-- 
2.43.0


From 21f6eda11586e9370caca0b04c8428bce9eac424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:36 +0000
Subject: [PATCH 29/38] fix: requests kept their database connection until the
 connection pool was exhausted

---
 hgaa/services/aauth.py |  8 +++++++-
 hgaa/services/pauth.py | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index c6326c6..e39d465 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -433,11 +433,17 @@ class AttributeAuthority(object):
 
     @ladonize(Credentials, PublicKey, AttributeList, rtype=AttributeCertificateType)
     def attribute_request(self, credentials, user_public_key, attributes, **exports):
+        s = self._db_session()
+        try:
+            return self._attribute_request(s, credentials, user_public_key, attributes, exports)
+        finally:
+            s.close()
+
+    def _attribute_request(self, s, credentials, user_public_key, attributes, exports):
         t0 = time.time()
         AttributeAuthority.LOG.info('Attribute request on AttributeAuthority from %s.' % exports['REMOTE_ADDR'])
 
         if credentials.type == CredentialType.USER_PASS.value:
-            s = self._db_session()
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
             if user is None:
                 AttributeAuthority.LOG.info(
diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 59191ab..2f861ac 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -140,7 +140,10 @@ class PolicyAuthority(object):
         auth_list.attribute_authorities = []
 
         s = self._db_session()
-        aauths = s.query(AttributeAuthority).all()
+        try:
+            aauths = s.query(AttributeAuthority).all()
+        finally:
+            s.close()
 
         for aauth in aauths:
             aauth_info = AttributeAuthorityInfo()
@@ -223,7 +226,12 @@ class PolicyAuthority(object):
         # TODO: Some check on service_uid and authentication of service
 
         s = self._db_session()
+        try:
+            return self._start_session(s, service_uid, att_cert_set, exports)
+        finally:
+            s.close()
 
+    def _start_session(self, s, service_uid, att_cert_set, exports):
         aauths = s.query(AttributeAuthority).all()
         aauth_dict = {}
         for aauth in aauths:
-- 
2.43.0


From 63cb3bb501920783dcaa68c156ab5cfef1ba008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:53 +0000
Subject: [PATCH 30/38] fix: missing or overlong credentials are invalid
 credentials, not a server error

---
 hgaa/services/aauth.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index e39d465..e8d06b1 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -85,6 +85,7 @@ class AttributeAuthority(object):
     KEY_CIPHER = 'RSA'  # Only RSA supported right now.
     SIG_ALGO = 'RSASSA-PKCS1-v1_5'  # Only RSASSA-PKCS1-v1_5 supported right now.
     HASH_ALGO = 'SHA256'  # Only SHA256 supported right now.
+    MAX_PASS_LENGTH = 72  # Bytes (with pepper), bcrypt refuses longer passwords.
     LOG = make_logger('AAUTH', True, SERVICE_LOG)
     AC_DIR = os.path.dirname(os.path.abspath(__file__)) + '/attribute_certificates/'
 
@@ -444,6 +445,11 @@ class AttributeAuthority(object):
         AttributeAuthority.LOG.info('Attribute request on AttributeAuthority from %s.' % exports['REMOTE_ADDR'])
 
         if credentials.type == CredentialType.USER_PASS.value:
+            if credentials.username is None or credentials.password is None:
+                AttributeAuthority.LOG.info('ClientFault: Missing username or password in attribute_request from %s' %
+                                            exports['REMOTE_ADDR'])
+                raise ClientFault('Invalid credentials.')
+
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
             if user is None:
                 AttributeAuthority.LOG.info(
@@ -451,12 +457,14 @@ class AttributeAuthority(object):
                                                                                                exports['REMOTE_ADDR']))
                 raise ClientFault('Invalid credentials.')
 
-            if AttributeAuthority.LOG.isEnabledFor(DEBUG):
+            peppered = ('%s%s' % (credentials.password, self.pass_pepper)).encode('utf-8', 'surrogatepass')
+            hashable = len(peppered) <= AttributeAuthority.MAX_PASS_LENGTH
+
+            if hashable and AttributeAuthority.LOG.isEnabledFor(DEBUG):
                 AttributeAuthority.LOG.debug('Hash for request is: %s' %
-                                             bcrypt.hashpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(),
-                                                           user.password.encode()))
+                                             bcrypt.hashpw(peppered, user.password.encode()))
 
-            if bcrypt.checkpw(('%s%s' % (credentials.password, self.pass_pepper)).encode(), user.password.encode()):
+            if hashable and bcrypt.checkpw(peppered, user.password.encode()):
                 AttributeAuthority.LOG.info('Successful login by %s from %s.' % (credentials.username,
                                                                                  exports['REMOTE_ADDR']))
                 t1 = time.time()
-- 
2.43.0


From 886a3f081ccb4612990e8d3fd13af7ca80e7181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:14 +0000
Subject: [PATCH 31/38] fix: an attribute whose name starts with a capital
 sigma is found under its name

---
 hgpl/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgpl/symbols.py b/hgpl/symbols.py
index 8276bd9..ccda7cc 100644
--- a/hgpl/symbols.py
+++ b/hgpl/symbols.py
@@ -42,7 +42,7 @@ class Symbol(object):
         self._value = None
         self.value = value
         self.att_name = att_name.lower()
-        self.name = Symbol._att_type_to_policy_var_prefix(att_type) + att_name.lower()
+        self.name = (Symbol._att_type_to_policy_var_prefix(att_type) + att_name).lower()
 
     @property
     def value(self):
-- 
2.43.0


From 870122bde1e85efd7055706c231fa5a061943198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 32/38] fix: database names and passwords may hold any
 characters

The connection string was put together as text, so that a password with an
'@', ':' or '%' or a database name with a '?' led to another host, password or
database than the configured one.
---
 hgaa/database.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index 4e10770..d9d8f83 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -1,4 +1,5 @@
 from sqlalchemy import create_engine
+from sqlalchemy.engine import URL
 from sqlalchemy.orm import sessionmaker
 
 from hgaa.config import get_conf
@@ -67,18 +68,17 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
         log.info('Creating %s database engine for %s', dbtype, hgaa_name)
 
         if dbtype.upper() == 'MYSQL':
-            connect = 'mysql+mysqlconnector://{user}:{password}@{host}:{port}/{dbname}'.format(user=dbuser, password=dbpass,
-                                                                                     host=dbhost, dbname=dbname,
-                                                                                     port=dbport)
+            connect = URL.create('mysql+mysqlconnector', username=dbuser, password=dbpass, host=dbhost,
+                                 port=int(dbport), database=dbname)
         elif dbtype.upper() == 'SQLITE':
-            connect = 'sqlite:///{dbname}.db'.format(dbname=dbname)
+            connect = URL.create('sqlite', database='{dbname}.db'.format(dbname=dbname))
         elif dbtype.upper() == 'MEMORY':
-            connect = 'sqlite://'
+            connect = URL.create('sqlite')
         else:
             log.error('Database type ' + dbtype + ' is not supported.')
             return None
 
-        log.debug('Connection string: %s', connect)
+        log.debug('Connection string: %s', connect.render_as_string(hide_password=False))
         engine = create_engine(connect, echo=False, logging_name=log.name, pool_logging_name=log.name)
         ACTIVE_ENGINES[hgaa_name] = engine
     return engine
-- 
2.43.0


From bc908524fc79fe63fb549fa23909a3cda1dbac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:46 +0000
Subject: [PATCH 33/38] fix: the password of the database is not written to the
 log

---
 hgaa/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/database.py b/hgaa/database.py
index d9d8f83..d8afc80 100644
--- a/hgaa/database.py
+++ b/hgaa/database.py
@@ -78,7 +78,7 @@ def get_engine(hgaa_name, parent_log=SERVICE_LOG):
             log.error('Database type ' + dbtype + ' is not supported.')
             return None
 
-        log.debug('Connection string: %s', connect.render_as_string(hide_password=False))
+        log.debug('Connection string: %s', connect.render_as_string())
         engine = create_engine(connect, echo=False, logging_name=log.name, pool_logging_name=log.name)
         ACTIVE_ENGINES[hgaa_name] = engine
     return engine
-- 
2.43.0


From 9e1c73785f65a7e2edab28b97d81c99b305ea122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:27 +0000
Subject: [PATCH 34/38] fix: evaluate read the policy from the pair instead of
 its declared policy member

---
 hgaa/services/pauth.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 2f861ac..fec9d7f 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -320,14 +320,15 @@ class PolicyAuthority(object):
     def evaluate(self, session_id, policy_objatt_pair, **exports):
         s = self._db_session()
 
-        if policy_objatt_pair.policy_uid is None and policy_objatt_pair.policy_string is None:
+        policy_ref = policy_objatt_pair.policy
+        if policy_ref.policy_uid is None and policy_ref.policy_string is None:
             PolicyAuthority.LOG.error(
                 'ClientFault: Need to give policy uid or policy string in evaluate request from %s'
                 % exports['REMOTE_ADDR'])
             raise ClientFault('Need to give policy uid or policy string.')
-        elif policy_objatt_pair.policy_uid is not None:
+        elif policy_ref.policy_uid is not None:
             # TODO: Support for relative policy uids and names
-            p = s.query(Session).filter(P.uid == policy_objatt_pair.policy_uid).first()
+            p = s.query(Session).filter(P.uid == policy_ref.policy_uid).first()
             if p is None:
                 PolicyAuthority.LOG.error(
                     'ClientFault: Unknown policy uid in evaluate request from %s'
@@ -335,7 +336,7 @@ class PolicyAuthority(object):
                 raise ClientFault('Unknown policy uid.')
             policy = p.policy
         else:
-            policy = policy_objatt_pair.policy_string
+            policy = policy_ref.policy_string
 
         try:
             # TODO: Cache ast
-- 
2.43.0


From 5f22bce03059100c22ccc99bd0ec087a9a75387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:27 +0000
Subject: [PATCH 35/38] fix: evaluate looked stored policies up in the session
 table

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index fec9d7f..1064f14 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -328,7 +328,7 @@ class PolicyAuthority(object):
             raise ClientFault('Need to give policy uid or policy string.')
         elif policy_ref.policy_uid is not None:
             # TODO: Support for relative policy uids and names
-            p = s.query(Session).filter(P.uid == policy_ref.policy_uid).first()
+            p = s.query(P).filter(P.uid == policy_ref.policy_uid).first()
             if p is None:
                 PolicyAuthority.LOG.error(
                     'ClientFault: Unknown policy uid in evaluate request from %s'
-- 
2.43.0


From 865f4608614e80ff196ae544c581c8e236cceca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:27 +0000
Subject: [PATCH 36/38] fix: evaluate looked sessions up by the integer id and
 a missing column

---
 hgaa/services/pauth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 1064f14..2593962 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -371,13 +371,14 @@ class PolicyAuthority(object):
 
         cert_dict = {}
 
-        session = s.query(Session).filter(Session.id == session_id).first()
+        b64_session = self._int_to_b64(session_id, PolicyAuthority.SESSION_ID_SIZE)
+        session = s.query(Session).filter(Session.id == b64_session).first()
         if session is None:
             PolicyAuthority.LOG.error(
                 'ClientFault: Unknown session_id in evaluate request from %s'
                 % exports['REMOTE_ADDR'])
             raise ClientFault('Unknown session_id.')
-        elif int(time.time()) > session.valid_till:
+        elif int(time.time()) > session.session_valid_till:
             PolicyAuthority.LOG.error(
                 'ClientFault: Expired session in evaluate request from %s'
                 % exports['REMOTE_ADDR'])
-- 
2.43.0


From 5d7286b5fc11546d08381e125fa8778c012f42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:27 +0000
Subject: [PATCH 37/38] fix: evaluate failed on every session with certificates
 when querying and rechecking them

---
 hgaa/services/pauth.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 2593962..04011c9 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -384,25 +384,26 @@ class PolicyAuthority(object):
                 % exports['REMOTE_ADDR'])
             raise ClientFault('Session has expired.')
 
-        certs = s.query(AC).join(AC.sessions).filter_by(ACA.session_id == session_id).all()
+        certs = s.query(AC).join(AC.sessions).filter(ACA.session_id == b64_session).all()
         for cert in certs:
             if PolicyAuthority.RECHECK_CERT_EACH_EVAL:
                 act = AttributeCertificateType()
-                act.format = cert.format
+                act.format = ExportFormat(cert.format)
                 act.version = cert.version
-                act.data = cert.certificate
-                cert_hash = SHA256.new(cert.certificate)
+                act.data_raw = bytearray(cert.certificate)
+                cert_hash = base64.b64encode(SHA256.new(cert.certificate).digest()).decode('utf-8')
 
                 ac = self._check_cert(act, aauth_dict, exports, 'evaluate')
 
-                if ac.info.serial != cert.serial or ac.info.version != cert.version or cert_hash != cert.hash or \
-                   ac.rev_rules.valid_till != cert.valid_till:
+                if self._int_to_b64(ac.info.serial, ACInformation.SERIAL_SIZE) != cert.serial or \
+                   ac.info.version != cert.version or cert_hash != cert.hash or \
+                   ac.rev_rules.valid_before != cert.valid_till:
                     PolicyAuthority.LOG.error(
                         'ServerFault: Unknown session_id in evaluate request from %s'
                         % exports['REMOTE_ADDR'])
                     raise ServerFault('Mismatch certificate information in database and raw data.')
             else:
-                ac = AttributeCertificate.import_ac(cert.certificate, format=cert.format, verify=False)
+                ac = AttributeCertificate.import_ac(cert.certificate, format=ExportFormat(cert.format), verify=False)
 
             cert_dict[ac.info.serial] = ac
 
-- 
2.43.0


From 71fa0605c87a7872d9322f9b9d16c992910d60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:27 +0000
Subject: [PATCH 38/38] fix: evaluate never returned its database connection

---
 hgaa/services/pauth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 04011c9..06f8dd7 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -319,7 +319,12 @@ class PolicyAuthority(object):
     @ladonize(int, PolicyObjectAttPair, rtype=EvaluationResult)
     def evaluate(self, session_id, policy_objatt_pair, **exports):
         s = self._db_session()
+        try:
+            return self._evaluate(s, session_id, policy_objatt_pair, exports)
+        finally:
+            s.close()
 
+    def _evaluate(self, s, session_id, policy_objatt_pair, exports):
         policy_ref = policy_objatt_pair.policy
         if policy_ref.policy_uid is None and policy_ref.policy_string is None:
             PolicyAuthority.LOG.error(
-- 
2.43.0

