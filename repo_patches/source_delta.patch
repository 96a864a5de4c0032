From 2d56ca054d20895b0531577438ee2eacd70cd6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 01/80] fix: Seq.Prev with a condition must not return the
 cached unconditional value

---
 veriloggen/seq/seq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ef84fbb..46aad94 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -167,13 +167,14 @@ class Seq(vtypes.VeriloggenNode):
         else:
             name_prefix = _tmp_name(prefix)
 
+        cond = make_condition(cond)
+
         key = '_'.join([name_prefix, str(delay)])
-        if key in self.prev_dict:
+        if cond is None and key in self.prev_dict:
             return self.prev_dict[key]
 
         p = var
         for i in range(delay):
-            cond = make_condition(cond)
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
                 self._add_statement([tmp(p)], cond=cond)
-- 
2.43.0


From 716605e857ec14cc285e8394bb904980502de894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 02/80] fix: Else/Elif of a Seq chain must exclude every
 earlier arm, also after delayed or attributed arms

---
 veriloggen/seq/seq.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 46aad94..1c75c23 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -92,6 +92,7 @@ class Seq(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
         self.elif_cond = None
+        self.separated = False
         self.next_kwargs = {}
 
         self.as_module = as_module
@@ -126,6 +127,11 @@ class Seq(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # Elif with attributes is not a part of the previous If object.
+        if self.elif_cond is not None:
+            self.separated = True
+
+        self._clear_elif_cond()
         self._clear_last_if_statement()
         return self._add_statement(statement, **kwargs)
 
@@ -177,7 +183,9 @@ class Seq(vtypes.VeriloggenNode):
         for i in range(delay):
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
+                last_if_statement = self.last_if_statement
                 self._add_statement([tmp(p)], cond=cond)
+                self.last_if_statement = last_if_statement
                 p = tmp
 
             else:
@@ -202,6 +210,9 @@ class Seq(vtypes.VeriloggenNode):
         if cond is None:
             return self
 
+        self.separated = False
+        self._clear_last_if_statement()
+
         if 'cond' not in self.next_kwargs:
             self.next_kwargs['cond'] = cond
         else:
@@ -224,10 +235,12 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -252,10 +265,12 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
-- 
2.43.0


From 98ed8761cb90d98510a6996cc3d78d55fdca13ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 03/80] fix: Else/Elif of an FSM chain must exclude every
 earlier arm, also after delayed arms and jumps

---
 veriloggen/fsm/fsm.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f7617e3..1632c8f 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -77,6 +77,7 @@ class FSM(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
         self.elif_cond = None
+        self.separated = False
         self.next_kwargs = {}
 
         self.as_module = as_module
@@ -95,6 +96,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
+        self._clear_jump_cond()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
         # self._clear_elif_cond()
@@ -117,6 +119,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
+        self._clear_jump_cond()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
         # self._clear_elif_cond()
@@ -140,6 +143,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
+        self._clear_jump_cond()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
         # self._clear_elif_cond()
@@ -159,6 +163,7 @@ class FSM(vtypes.VeriloggenNode):
             cond = self.next_kwargs['cond']
 
         self._clear_next_kwargs()
+        self._clear_jump_cond()
         # self._clear_last_if_statement()
         # self._clear_last_cond()
         # self._clear_elif_cond()
@@ -199,6 +204,11 @@ class FSM(vtypes.VeriloggenNode):
             self._clear_elif_cond()
             return self
 
+        # Elif with attributes is not a part of the previous If object.
+        if self.elif_cond is not None:
+            self.separated = True
+
+        self._clear_elif_cond()
         self._clear_last_if_statement()
         return self._add_statement(statement, **kwargs)
 
@@ -219,6 +229,9 @@ class FSM(vtypes.VeriloggenNode):
         if cond is None:
             return self
 
+        self.separated = False
+        self._clear_last_if_statement()
+
         if 'cond' not in self.next_kwargs:
             self.next_kwargs['cond'] = cond
         else:
@@ -241,10 +254,12 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -272,10 +287,12 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0)):
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -285,6 +302,8 @@ class FSM(vtypes.VeriloggenNode):
 
         if isinstance(self.last_if_statement, vtypes.If):
             self.elif_cond = cond
+        else:
+            self.separated = True
 
         cond = self._make_cond(self.last_cond)
         self.next_kwargs['cond'] = cond
@@ -880,6 +899,13 @@ class FSM(vtypes.VeriloggenNode):
     def _clear_elif_cond(self):
         self.elif_cond = None
 
+    def _clear_jump_cond(self):
+        """ Elif and Else used for a jump are not a part of the last If object. """
+        if self.elif_cond is not None:
+            self.separated = True
+        self._clear_elif_cond()
+        self.next_else = False
+
     def _make_cond(self, condlist):
         ret = None
         for cond in condlist:
-- 
2.43.0


From eb8e60fb15ca1041e3165ef0cbc0d4a817467fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 04/80] fix: delayed FSM statements added with When(index) must
 be delayed in that state

---
 veriloggen/fsm/fsm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 1632c8f..833ad9e 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -856,7 +856,7 @@ class FSM(vtypes.VeriloggenNode):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
             self.delayed_cond[tmp_name] = tmp
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return prev
 
@@ -881,7 +881,7 @@ class FSM(vtypes.VeriloggenNode):
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return left(prev)
 
-- 
2.43.0


From 366ca97e201e7f6728ded107641b4ca37abca9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 05/80] fix: FSM.State() without an index must mean the current
 state

---
 veriloggen/fsm/fsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 833ad9e..7032dc4 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -338,7 +338,7 @@ class FSM(vtypes.VeriloggenNode):
 
     def State(self, index=None):
         if index is None:
-            index = fsm.current
+            index = self.current
         return State(self, index)
 
     def Clear(self):
-- 
2.43.0


From 0e2bf06c17b414f6be481e9c0c929c1a59048a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 06/80] fix: Int must keep the width of signed literal strings
 such as 4'sb1010

---
 veriloggen/core/vtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 490d63b..3d27e75 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -106,16 +106,16 @@ def str_to_value(s):
 
 def str_to_width(s):
     targ = s.replace('_', '')
-    match = re.search(r'(.+)\'h.+', targ)
+    match = re.search(r'(.+)\'s?h.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'d.+', targ)
+    match = re.search(r'(.+)\'s?d.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'o.+', targ)
+    match = re.search(r'(.+)\'s?o.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'b.+', targ)
+    match = re.search(r'(.+)\'s?b.+', targ)
     if match is not None:
         return int(match.group(1), 10)
     return None
-- 
2.43.0


From fb5dab4747bc6a3b2cb6009e7dbbe046bab2efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 07/80] fix: a unary operator applied to a negative literal
 must emit legal Verilog

---
 veriloggen/verilog/to_verilog.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 6e415c1..ac62dad 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -326,44 +326,51 @@ class VerilogCommonVisitor(object):
         return vast.Lor(left, right)
 
     # -------------------------------------------------------------------------
+    def _visit_unary_operand(self, node):
+        right = self.visit(node)
+        # a negative literal is itself a unary expression: '--5' is not Verilog
+        if isinstance(right, vast.IntConst) and right.value.startswith('-'):
+            return vast.Uminus(vast.IntConst(right.value[1:]))
+        return right
+
     def visit_Uplus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uplus(right)
 
     def visit_Uminus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uminus(right)
 
     def visit_Ulnot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Ulnot(right)
 
     def visit_Unot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unot(right)
 
     def visit_Uand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uand(right)
 
     def visit_Unand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unand(right)
 
     def visit_Uor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uor(right)
 
     def visit_Unor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unor(right)
 
     def visit_Uxor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uxor(right)
 
     def visit_Uxnor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uxnor(right)
 
    # ---------------------------------------------------------------------------
-- 
2.43.0


From cd7058e60dedb6a6e9934092a9914ee78194bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 08/80] fix: the optimizer must keep the width, sign and
 one-bit results of folded expressions

---
 veriloggen/optimizer/optimizer.py | 76 +++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/veriloggen/optimizer/optimizer.py b/veriloggen/optimizer/optimizer.py
index efbc516..2d7cd8c 100644
--- a/veriloggen/optimizer/optimizer.py
+++ b/veriloggen/optimizer/optimizer.py
@@ -50,6 +50,9 @@ def makeDFTree(node):
         return DFStringConst(node)
 
     if isinstance(node, vtypes.Int):
+        if node.width is not None or node.base is not None:
+            # folding would lose the width and the sign of the literal
+            return makeOpaque(node)
         return DFIntConst(str(node.value))
 
     if isinstance(node, vtypes.Float):
@@ -68,13 +71,27 @@ def makeDFTree(node):
 
     if isinstance(node, vtypes._UnaryOperator):
         right_df = makeDFTree(node.right)
+        if isinstance(node, vtypes.Unot) and isConstTree(right_df):
+            # ~x == -x - 1, which does not depend on a width
+            return DFOperator((DFOperator((right_df,), 'Uminus'), DFIntConst('1')), 'Minus')
         if isinstance(right_df, DFBranch):
             return reorder.insertUnaryOp(right_df, node.__class__.__name__)
         return DFOperator((right_df,), node.__class__.__name__)
 
+    if isinstance(node, (vtypes.Land, vtypes.Lor)):
+        return makeLogicalDFTree(node)
+
     if isinstance(node, vtypes._BinaryOperator):
         left_df = makeDFTree(node.left)
         right_df = makeDFTree(node.right)
+        if isinstance(node, (vtypes.Times, vtypes.Divide, vtypes.Or)):
+            left_const = isConstTree(left_df)
+            right_const = isConstTree(right_df)
+            if ((left_const and not right_const and not isWide(node.right)) or
+                    (right_const and not left_const and not isWide(node.left))):
+                # 'x * 4' is as wide as the literal, 'x << 2' only as wide as x
+                return makeOpaque(node.__class__(try_optimize(node.left),
+                                                 try_optimize(node.right)))
         if isinstance(left_df, DFBranch) or isinstance(right_df, DFBranch):
             return reorder.insertOp(left_df, right_df, node.__class__.__name__)
         return DFOperator((left_df, right_df,), node.__class__.__name__)
@@ -85,6 +102,65 @@ def makeDFTree(node):
     raise TypeError("unsupported type: %s %s" % (str(type(node)), str(node)))
 
 
+def makeOpaque(node):
+    v = DFTerminal(str(node))
+    v.original = node
+    return v
+
+
+def isConstTree(df):
+    if isinstance(df, DFConstant):
+        return True
+    if isinstance(df, DFOperator):
+        return all([isConstTree(n) for n in df.nextnodes])
+    return False
+
+
+def isWide(node):
+    # True if the node is at least as wide as an unsized literal (32-bit)
+    if isinstance(node, vtypes.Int):
+        return node.width is None or node.width >= 32
+    if isinstance(node, (bool, int)):
+        return True
+    if isinstance(node, (vtypes._Variable, vtypes.Pointer)):
+        width = vtypes.raw_value(node.get_width())
+        return isinstance(width, int) and width >= 32
+    if isinstance(node, (vtypes.Sll, vtypes.Srl, vtypes.Sra, vtypes.Power)):
+        return isWide(node.left)
+    if isinstance(node, (vtypes.Plus, vtypes.Minus, vtypes.Times, vtypes.Divide, vtypes.Mod,
+                         vtypes.And, vtypes.Or, vtypes.Xor, vtypes.Xnor)):
+        return isWide(node.left) or isWide(node.right)
+    if isinstance(node, (vtypes.Uplus, vtypes.Uminus, vtypes.Unot)):
+        return isWide(node.right)
+    return False
+
+
+def isBoolean(node):
+    return isinstance(node, (vtypes.Land, vtypes.Lor, vtypes.Ulnot,
+                             vtypes.Eq, vtypes.NotEq, vtypes.LessThan, vtypes.LessEq,
+                             vtypes.GreaterThan, vtypes.GreaterEq))
+
+
+def makeLogicalDFTree(node):
+    # the result is always one bit, also when one operand is folded away
+    left = try_optimize(node.left)
+    right = try_optimize(node.right)
+    is_land = isinstance(node, vtypes.Land)
+
+    for const, other in ((left, right), (right, left)):
+        const = vtypes.raw_value(const)
+        if not isinstance(const, (bool, int)):
+            continue
+        if bool(const) != is_land:
+            return DFIntConst('0' if is_land else '1')
+        value = vtypes.raw_value(other)
+        if isinstance(value, (bool, int)):
+            return DFIntConst('1' if value else '0')
+        return makeOpaque(other if isBoolean(other) else vtypes.NotEq(other, 0))
+
+    return makeOpaque(node.__class__(left, right))
+
+
 operators = {
     'Plus': vtypes.Plus,
     'Minus': vtypes.Minus,
-- 
2.43.0


From 2d705274443222c3c8f6fc0af9c060d85e061a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 09/80] fix: break/continue of an outer loop must not be taken
 over by a following inner loop

---
 veriloggen/thread/compiler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 5bdd1b2..24fc3e0 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -270,8 +270,6 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node.body:
             self.visit(b)
 
-        self.popScope()
-
         body_end_count = self.getFsmCount()
         self.incFsmCount()
         loop_exit_count = self.getFsmCount()
@@ -290,6 +288,9 @@ class CompileVisitor(ast.NodeVisitor):
         self.clearBreak()
         self.clearContinue()
 
+        # jumps of the enclosing loop must not be resolved here
+        self.popScope()
+
         self.setFsmLoop(begin_count, body_end_count)
 
     def visit_For(self, node):
@@ -362,8 +363,6 @@ class CompileVisitor(ast.NodeVisitor):
         for b in node_body:
             self.visit(b)
 
-        self.popScope()
-
         body_end_count = self.getFsmCount()
 
         # update
@@ -386,6 +385,9 @@ class CompileVisitor(ast.NodeVisitor):
         self.clearBreak()
         self.clearContinue()
 
+        # jumps of the enclosing loop must not be resolved here
+        self.popScope()
+
         self.setFsmLoop(check_count, body_end_count, iter_node, step_node)
 
     def _for_list(self, node):
-- 
2.43.0


From f4acc92357b2ddf9398c39f93eea9e7374939679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 10/80] fix: a function call in a while condition must be
 evaluated before every iteration

---
 veriloggen/thread/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 24fc3e0..2cb8a80 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -258,10 +258,12 @@ class CompileVisitor(ast.NodeVisitor):
         if self.skip():
             return
 
+        begin_count = self.getFsmCount()
+
         # loop condition
         test = self.visit(node.test)
 
-        begin_count = self.getFsmCount()
+        check_count = self.getFsmCount()
         self.incFsmCount()
         body_begin_count = self.getFsmCount()
 
@@ -274,7 +276,7 @@ class CompileVisitor(ast.NodeVisitor):
         self.incFsmCount()
         loop_exit_count = self.getFsmCount()
 
-        self.setFsm(begin_count, body_begin_count, test, loop_exit_count)
+        self.setFsm(check_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
         unresolved_break = self.getUnresolvedBreak()
-- 
2.43.0


From a49250f24af805bff06e1eb442de3c955a6c2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 11/80] fix: for over range() with a negative step must count
 down

---
 veriloggen/thread/compiler.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 2cb8a80..6aed85e 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -330,7 +330,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         iter_name = self.visit(node.target)
         iter_node = self.getVariable(iter_name, store=True)
-        cond_node = vtypes.LessThan(iter_node, end_node)
+        cond_node = self._range_condition(iter_node, end_node, step_node)
         update_node = vtypes.Plus(iter_node, step_node)
 
         node_body = node.body
@@ -338,6 +338,22 @@ class CompileVisitor(ast.NodeVisitor):
         return self._for_range_fsm(begin_node, end_node, step_node,
                                    iter_node, cond_node, update_node, node_body)
 
+    def _range_condition(self, iter_node, end_node, step_node):
+        step = vtypes.raw_value(optimize(step_node))
+
+        if not isinstance(step, int):
+            return vtypes.Mux(vtypes.LessThan(step_node, 0),
+                              vtypes.GreaterThan(iter_node, end_node),
+                              vtypes.LessThan(iter_node, end_node))
+
+        if step == 0:
+            raise ValueError('range() arg 3 must not be zero')
+
+        if step < 0:
+            return vtypes.GreaterThan(iter_node, end_node)
+
+        return vtypes.LessThan(iter_node, end_node)
+
     def _for_range_fsm(self, begin_node, end_node, step_node,
                        iter_node, cond_node, update_node, node_body,
                        target_update=None):
-- 
2.43.0


From e820428f397f5c5692542128bf3f6566d88ebea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 12/80] fix: the else part of for and while in a thread must
 not be dropped

---
 veriloggen/thread/compiler.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 6aed85e..22e6cf2 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -280,9 +280,6 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(body_end_count, begin_count)
 
         unresolved_break = self.getUnresolvedBreak()
-        for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
-
         unresolved_continue = self.getUnresolvedContinue()
         for c in unresolved_continue:
             self.setFsm(c, begin_count)
@@ -293,6 +290,8 @@ class CompileVisitor(ast.NodeVisitor):
         # jumps of the enclosing loop must not be resolved here
         self.popScope()
 
+        self._loop_else(node.orelse, unresolved_break)
+
         self.setFsmLoop(begin_count, body_end_count)
 
     def visit_For(self, node):
@@ -336,7 +335,8 @@ class CompileVisitor(ast.NodeVisitor):
         node_body = node.body
 
         return self._for_range_fsm(begin_node, end_node, step_node,
-                                   iter_node, cond_node, update_node, node_body)
+                                   iter_node, cond_node, update_node, node_body,
+                                   orelse=node.orelse)
 
     def _range_condition(self, iter_node, end_node, step_node):
         step = vtypes.raw_value(optimize(step_node))
@@ -356,7 +356,7 @@ class CompileVisitor(ast.NodeVisitor):
 
     def _for_range_fsm(self, begin_node, end_node, step_node,
                        iter_node, cond_node, update_node, node_body,
-                       target_update=None):
+                       target_update=None, orelse=()):
 
         self.pushScope()
 
@@ -393,9 +393,6 @@ class CompileVisitor(ast.NodeVisitor):
                     cond_node, loop_exit_count)
 
         unresolved_break = self.getUnresolvedBreak()
-        for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
-
         unresolved_continue = self.getUnresolvedContinue()
         for c in unresolved_continue:
             self.setFsm(c, body_end_count)
@@ -406,8 +403,24 @@ class CompileVisitor(ast.NodeVisitor):
         # jumps of the enclosing loop must not be resolved here
         self.popScope()
 
+        self._loop_else(orelse, unresolved_break)
+
         self.setFsmLoop(check_count, body_end_count, iter_node, step_node)
 
+    def _loop_else(self, orelse, unresolved_break):
+        # the else part is executed unless the loop is left by break
+        if orelse:
+            self.pushScope()
+
+            for b in orelse:
+                self.visit(b)
+
+            self.popScope()
+
+        end_count = self.getFsmCount()
+        for b in unresolved_break:
+            self.setFsm(b, end_count)
+
     def _for_list(self, node):
         target_name = self.visit(node.target)
         target = self.getVariable(target_name, store=True)
@@ -434,7 +447,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         return self._for_range_fsm(begin_node, end_node, step_node,
                                    iter_node, cond_node, update_node, node_body,
-                                   target_update)
+                                   target_update, node.orelse)
 
     # --------------------------------------------------------------------------
     def visit_Call(self, node):
-- 
2.43.0


From 6f9b9cad0e7bb8e822ef114b826779b2a1f16733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 13/80] fix: a false constant in a comparison chain must not be
 dropped

---
 veriloggen/thread/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 22e6cf2..05dc328 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -1000,7 +1000,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         ret = None
         for r in rslts:
-            if ret:
+            if ret is not None:
                 ret = vtypes.Land(ret, r)
             else:
                 ret = r
-- 
2.43.0


From d24dcb69791d308f81f0b8790556b5a5b67e5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 14/80] fix: a thread function with variable arguments can be
 called without any

---
 veriloggen/thread/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 05dc328..75cd003 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -684,7 +684,7 @@ class CompileVisitor(ast.NodeVisitor):
                                 (len(tree.args.args), len(args)))
 
         # variable length args
-        if rest_args:
+        if tree.args.vararg is not None:
             baseobj = tree.args.vararg
             argname = (baseobj.id
                        if isinstance(baseobj, ast.Name)  # python 2
-- 
2.43.0


From 6819fb8b4fd324de0b02c51224bc33dfc520e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 15/80] fix: len() in a thread must return the length

---
 veriloggen/thread/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 75cd003..72e12ef 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -627,7 +627,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         ln = getattr(value, '_len', None)
         if ln is not None:
-            return ln
+            return ln()
 
         return vtypes.get_width(value)
 
-- 
2.43.0


From 26b812b467f558993b4e2bcbbef1a85f88c8d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 16/80] fix: for over an empty list in a thread must skip the
 body

---
 veriloggen/thread/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 72e12ef..9f7b51b 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -426,6 +426,9 @@ class CompileVisitor(ast.NodeVisitor):
         target = self.getVariable(target_name, store=True)
         iterobj = self.visit(node.iter)
 
+        if len(iterobj) == 0:
+            return self._loop_else(node.orelse, ())
+
         begin_node = vtypes.Int(0)
         end_node = vtypes.Int(len(iterobj))
         step_node = vtypes.Int(1)
-- 
2.43.0


From 493f62d39531886f003e7f287ce63e10ef029794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:58 +0000
Subject: [PATCH 17/80] fix: a child thread can be run with keyword arguments

---
 veriloggen/thread/thread.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index eafdcf2..6b5be3c 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -416,7 +416,9 @@ class Thread(vtypes.VeriloggenNode):
                     raise ValueError(
                         'same object must be passed for non-numeric argument')
 
-            kwargs_code.append('{}={}'.format(key, key))
+            # regular arguments have been already passed by position
+            if argname not in args_code:
+                kwargs_code.append('{}={}'.format(argname, argname))
 
         # defaults
         defaults_size = len(tree.args.defaults)
-- 
2.43.0


From 040904093ed3fd8a53e7b7b1f05ead5d9ea25513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 18/80] fix: run, join and done right after reset must see its
 effect

---
 veriloggen/thread/pool.py   | 11 +++++++++++
 veriloggen/thread/thread.py | 15 +++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/veriloggen/thread/pool.py b/veriloggen/thread/pool.py
index 4739ed0..2feb38a 100644
--- a/veriloggen/thread/pool.py
+++ b/veriloggen/thread/pool.py
@@ -65,6 +65,8 @@ class ThreadPool(vtypes.VeriloggenNode):
     def run(self, fsm, tid, *args, **kwargs):
         """ start as a child thread """
 
+        self._leave_reset_point(fsm)
+
         fsm(
             self.start[tid](1)
         )
@@ -109,6 +111,8 @@ class ThreadPool(vtypes.VeriloggenNode):
     def join(self, fsm, tid):
         """ wait for the completion """
 
+        self._leave_reset_point(fsm)
+
         patterns = []
         for thread in self.threads:
             if thread.end_state is None:
@@ -125,6 +129,8 @@ class ThreadPool(vtypes.VeriloggenNode):
     def done(self, fsm, tid):
         """ check whethe the thread is running """
 
+        self._leave_reset_point(fsm)
+
         patterns = []
         for thread in self.threads:
             if thread.end_state is None:
@@ -148,6 +154,7 @@ class ThreadPool(vtypes.VeriloggenNode):
             reset_flag = vtypes.Land(
                 (fsm.state == fsm.current), (tid == thread.tid))
 
+            thread.reset_point = (id(fsm), fsm.current)
             thread.fsm._set_index(thread.end_state)
 
             if thread.called is not None:
@@ -161,6 +168,10 @@ class ThreadPool(vtypes.VeriloggenNode):
 
         return 0
 
+    def _leave_reset_point(self, fsm):
+        for thread in self.threads:
+            thread._leave_reset_point(fsm)
+
     def ret(self, fsm, tid):
         """ return value """
 
diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index 6b5be3c..eaf7c59 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -60,6 +60,7 @@ class Thread(vtypes.VeriloggenNode):
         self.vararg_regs = []
         self.vararg_set = False
         self.called = None
+        self.reset_point = None
 
     def start(self, *args, **kwargs):
         """ build up a new FSM based on the arguments """
@@ -108,6 +109,8 @@ class Thread(vtypes.VeriloggenNode):
         if not self.is_child and self.end_state is not None:
             raise ValueError('already started')
 
+        self._leave_reset_point(fsm)
+
         if self.fsm is None:
             self.fsm = FSM(self.m, self.name, self.clk, self.rst,
                            as_module=self.fsm_as_module)
@@ -134,6 +137,8 @@ class Thread(vtypes.VeriloggenNode):
         if self.end_state is None:
             raise ValueError('not started')
 
+        self._leave_reset_point(fsm)
+
         end_flag = (self.fsm.state == self.end_state)
         fsm.If(end_flag).goto_next()
 
@@ -145,6 +150,8 @@ class Thread(vtypes.VeriloggenNode):
         if self.end_state is None:
             raise ValueError('not started')
 
+        self._leave_reset_point(fsm)
+
         end_flag = (self.fsm.state == self.end_state)
 
         return end_flag
@@ -155,6 +162,8 @@ class Thread(vtypes.VeriloggenNode):
         if self.end_state is None:
             raise ValueError('not started')
 
+        self.reset_point = (id(fsm), fsm.current)
+
         reset_flag = (fsm.state == fsm.current)
         self.fsm._set_index(self.end_state)
 
@@ -169,6 +178,12 @@ class Thread(vtypes.VeriloggenNode):
 
         return 0
 
+    def _leave_reset_point(self, fsm):
+        """ the effect of reset() is not visible in the same state """
+
+        if self.reset_point == (id(fsm), fsm.current):
+            fsm.goto_next()
+
     def ret(self, fsm):
         """ return value """
 
-- 
2.43.0


From cfb8d47cc46585481c73ad06c70440706de7880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 19/80] fix: a conditional branch that consumes no state must
 not be executed unconditionally

---
 veriloggen/thread/compiler.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 9f7b51b..50a5171 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -234,6 +234,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.popScope()
 
+        self._ensureBranchState(node.body, true_count)
         mid_count = self.getFsmCount()
 
         if len(node.orelse) == 0:
@@ -250,10 +251,21 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.popScope()
 
+        self._ensureBranchState(node.orelse, false_count)
         end_count = self.getFsmCount()
         self.setFsm(cur_count, true_count, test, false_count)
         self.setFsm(mid_count, end_count)
 
+    def _ensureBranchState(self, body, begin_count):
+        # a branch whose statements consume no state must not share its state
+        # with the statement after the branch
+        if self.getFsmCount() != begin_count:
+            return
+        if all(isinstance(b, ast.Pass) for b in body):
+            return
+        self.setFsm()
+        self.incFsmCount()
+
     def visit_While(self, node):
         if self.skip():
             return
-- 
2.43.0


From 6d51b6c2b67cbd7f5d34b6a6315bc4dc63c22133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 20/80] fix: ThreadPool.start() must not be hidden by the start
 register

---
 veriloggen/thread/pool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/thread/pool.py b/veriloggen/thread/pool.py
index 2feb38a..0ea73c4 100644
--- a/veriloggen/thread/pool.py
+++ b/veriloggen/thread/pool.py
@@ -53,7 +53,7 @@ class ThreadPool(vtypes.VeriloggenNode):
         else:
             raise ValueError('threads or other options must be specified.')
 
-        self.start = self.m.Reg(
+        self.start_reg = self.m.Reg(
             '_'.join(['', name, 'start']), self.numthreads, initval=0)
 
     def start(self, tid, *args, **kwargs):
@@ -68,12 +68,12 @@ class ThreadPool(vtypes.VeriloggenNode):
         self._leave_reset_point(fsm)
 
         fsm(
-            self.start[tid](1)
+            self.start_reg[tid](1)
         )
         fsm.goto_next()
 
         for thread in self.threads:
-            start_cond = self.start[thread.tid]
+            start_cond = self.start_reg[thread.tid]
 
             if not thread.is_child and thread.end_state is not None:
                 raise ValueError('thread %d already started' % thread.tid)
@@ -92,7 +92,7 @@ class ThreadPool(vtypes.VeriloggenNode):
         fsm_start = fsm.current
 
         for thread in self.threads:
-            start_cond = self.start[thread.tid]
+            start_cond = self.start_reg[thread.tid]
 
             fsm._set_index(fsm_start)
 
@@ -102,7 +102,7 @@ class ThreadPool(vtypes.VeriloggenNode):
                 thread.end_state = thread.fsm.current
 
         fsm(
-            self.start[tid](0)
+            self.start_reg[tid](0)
         )
         fsm.goto_next()
 
-- 
2.43.0


From 1e849852af847a58e44cb8d1217a5a298fe21641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 21/80] fix: FixedFIFO passes external_write/external_read in
 the right order

---
 veriloggen/thread/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 1bfa4f2..472346d 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -283,7 +283,7 @@ class FixedFIFO(FIFO):
 
         FIFO.__init__(self, m, name, clk, rst,
                       datawidth, addrwidth, sync,
-                      external_read, external_write,
+                      external_write, external_read,
                       itype, otype,
                       ext_itype, ext_otype)
 
-- 
2.43.0


From cebe4a47e7d47952e3859842b8223c0c5079d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 22/80] fix: generated delay registers avoid names already in
 use

---
 veriloggen/fsm/fsm.py | 12 +++++++++---
 veriloggen/seq/seq.py | 18 ++++++++++++++----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 7032dc4..95d8e94 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -854,8 +854,11 @@ class FSM(vtypes.VeriloggenNode):
         prev = statement
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
-            tmp = self.m.Reg(tmp_name, initval=0)
-            self.delayed_cond[tmp_name] = tmp
+            if self.m.find_identifier(tmp_name) is None:
+                tmp = self.m.Reg(tmp_name, initval=0)
+            else:
+                tmp = self.m.TmpReg(initval=0)
+            self.delayed_cond[tmp.name] = tmp
             self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return prev
@@ -880,7 +883,10 @@ class FSM(vtypes.VeriloggenNode):
 
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
-            tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
+            if self.m.find_identifier(tmp_name) is None:
+                tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
+            else:
+                tmp = self.m.TmpReg(width, initval=0, signed=signed)
             self._add_statement([tmp(prev)], index=index, delay=i, no_delay_cond=True)
             prev = tmp
         return left(prev)
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 1c75c23..fe5ea46 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -193,8 +193,12 @@ class Seq(vtypes.VeriloggenNode):
                 if tmp_name in self.prev_dict:
                     p = self.prev_dict[tmp_name]
                     continue
-                tmp = self.m.Reg(
-                    tmp_name, width, initval=initval, signed=signed)
+                if self.m.find_identifier(tmp_name) is None:
+                    tmp = self.m.Reg(
+                        tmp_name, width, initval=initval, signed=signed)
+                else:
+                    tmp = self.m.TmpReg(
+                        width, initval=initval, signed=signed)
                 self.prev_dict[tmp_name] = tmp
                 self._add_statement([tmp(p)])
                 p = tmp
@@ -699,7 +703,10 @@ class Seq(vtypes.VeriloggenNode):
         prev = statement
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
-            tmp = self.m.Reg(tmp_name, initval=0)
+            if self.m.find_identifier(tmp_name) is None:
+                tmp = self.m.Reg(tmp_name, initval=0)
+            else:
+                tmp = self.m.TmpReg(initval=0)
             self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
             prev = tmp
         return prev
@@ -724,7 +731,10 @@ class Seq(vtypes.VeriloggenNode):
 
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
-            tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
+            if self.m.find_identifier(tmp_name) is None:
+                tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
+            else:
+                tmp = self.m.TmpReg(width, initval=0, signed=signed)
             self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
             prev = tmp
         return left(prev)
-- 
2.43.0


From 028e23bd01362ed66b27c815fcf537e29d0cda2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 23/80] fix: AsyncRAM honours with_enable

---
 veriloggen/types/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/types/ram.py b/veriloggen/types/ram.py
index dc0c534..6ef6b3d 100644
--- a/veriloggen/types/ram.py
+++ b/veriloggen/types/ram.py
@@ -225,4 +225,4 @@ class AsyncRAM(_RAM_RTL):
 
         _RAM_RTL.__init__(self, m, name, clk,
                           datawidth, addrwidth, numports,
-                          initvals, sync=False)
+                          initvals, sync=False, with_enable=with_enable)
-- 
2.43.0


From 675a801ab0ced027f1ba16a43eb035d768a9a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 24/80] fix: MultibankRAM.write_rtl without a condition

---
 veriloggen/thread/ram.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/ram.py b/veriloggen/thread/ram.py
index feafe52..a1a6bf6 100644
--- a/veriloggen/thread/ram.py
+++ b/veriloggen/thread/ram.py
@@ -525,12 +525,14 @@ class MultibankRAM(RAM):
         if math.log(self.numbanks, 2) % 1.0 != 0.0:
             raise ValueError('numbanks must be power-of-2')
 
+        cond = make_condition(cond)
+
         bank = self.m.TmpWire(self.shift, prefix='write_rtl_bank')
         bank.assign(addr)
         addr = addr >> self.shift
 
         for i, ram in enumerate(self.rams):
-            bank_cond = vtypes.Ands(cond, bank == i)
+            bank_cond = bank == i if cond is None else vtypes.Ands(cond, bank == i)
             ram.write_rtl(addr, wdata, port, bank_cond)
 
         return 0
-- 
2.43.0


From e40f1824894d668f74b72f82223b21372f4392cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 25/80] fix: AxiSerialMemoryModel passes clock and reset to its
 channels

---
 veriloggen/types/axi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bcb720b..9e172c0 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3897,16 +3897,16 @@ class AxiSerialMemoryModel(AxiSlave):
         itype = util.t_Reg
         otype = util.t_Wire
 
-        self.waddr = AxiSlaveWriteAddress(m, name, datawidth, addrwidth,
+        self.waddr = AxiSlaveWriteAddress(m, name, clk, rst, datawidth, addrwidth,
                                           waddr_id_width, waddr_user_width, itype, otype)
-        self.wdata = AxiSlaveWriteData(m, name, datawidth, addrwidth,
+        self.wdata = AxiSlaveWriteData(m, name, clk, rst, datawidth, addrwidth,
                                        wdata_id_width, wdata_user_width, itype, otype)
-        self.wresp = AxiSlaveWriteResponse(m, name, datawidth, addrwidth,
+        self.wresp = AxiSlaveWriteResponse(m, name, clk, rst, datawidth, addrwidth,
                                            wresp_id_width, wresp_user_width, wresp_user_mode,
                                            itype, otype)
-        self.raddr = AxiSlaveReadAddress(m, name, datawidth, addrwidth,
+        self.raddr = AxiSlaveReadAddress(m, name, clk, rst, datawidth, addrwidth,
                                          raddr_id_width, raddr_user_width, itype, otype)
-        self.rdata = AxiSlaveReadData(m, name, datawidth, addrwidth,
+        self.rdata = AxiSlaveReadData(m, name, clk, rst, datawidth, addrwidth,
                                       rdata_id_width, rdata_user_width, rdata_user_mode,
                                       itype, otype)
 
-- 
2.43.0


From ab7acc428658bdef2fcd951e085abf966322a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 26/80] fix: serial AXI memory models accept a write address
 before its data

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 9e172c0..3185150 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -4042,7 +4042,7 @@ class AxiSerialMemoryModel(AxiSlave):
             self.waddr.awready(0)
         )
         self.fsm.If(vtypes.Not(self.waddr.awvalid)).goto_init()
-        self.fsm.If(self.waddr.awvalid).goto_next()
+        self.fsm.If(self.waddr.awvalid, vtypes.Not(self.wresp.bvalid)).goto_next()
 
         # delay
         for _ in range(write_delay):
@@ -4416,7 +4416,7 @@ class AxiSerialMultiportMemoryModel(AxiSerialMemoryModel):
                 waddr.awready(0)
             )
             fsm.If(vtypes.Not(waddr.awvalid)).goto_init()
-            fsm.If(waddr.awvalid).goto_next()
+            fsm.If(waddr.awvalid, vtypes.Not(wresp.bvalid)).goto_next()
 
             # delay
             for _ in range(write_delay):
-- 
2.43.0


From 53a7c9f7f8eb21b5a9e8bc53f644fe09f8b37993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 27/80] fix: AXI memory models size the read request queue for
 the read id

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 3185150..040ca9f 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2972,7 +2972,7 @@ class AxiMemoryModel(AxiSlave):
                               sync=False)
         self.rreq_fifo = FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo']),
                               clk, rst,
-                              datawidth=addrwidth + 9 + waddr_id_width,
+                              datawidth=addrwidth + 9 + raddr_id_width,
                               addrwidth=req_fifo_addrwidth,
                               sync=False)
 
@@ -3562,7 +3562,7 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
                            for i in range(numports)]
         self.rreq_fifos = [FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo_%d' % i]),
                                 clk, rst,
-                                datawidth=addrwidth + 9 + waddr_id_width,
+                                datawidth=addrwidth + 9 + raddr_id_width,
                                 addrwidth=req_fifo_addrwidth,
                                 sync=False)
                            for i in range(numports)]
-- 
2.43.0


From aa29eaf07933fb6862a277a272fb5d59b5b5f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 28/80] fix: AXI memory model words that cross a byte boundary
 are read and written whole

---
 veriloggen/types/axi.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 040ca9f..e0b4651 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3303,7 +3303,8 @@ class AxiMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        # a word starts at a multiple of gcd(bits, 8) in its first byte
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
@@ -3323,7 +3324,8 @@ class AxiMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        # a word starts at a multiple of gcd(bits, 8) in its first byte
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
@@ -4182,7 +4184,8 @@ class AxiSerialMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        # a word starts at a multiple of gcd(bits, 8) in its first byte
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
@@ -4202,7 +4205,8 @@ class AxiSerialMemoryModel(AxiSlave):
 
         cond = fsm.state == fsm.current
         rdata = self.m.TmpReg(bits, initval=0, signed=True, prefix='rdata')
-        num_bytes = int(math.ceil(bits / 8))
+        # a word starts at a multiple of gcd(bits, 8) in its first byte
+        num_bytes = int(math.ceil((bits + 8 - math.gcd(bits, 8)) / 8))
         addr = vtypes.Add(byte_offset,
                           vtypes.Div(vtypes.Mul(word_index, bits), 8))
         shift = word_index * bits % 8
-- 
2.43.0


From 92523996a6a3ec2328c89c0ca3503c4b1adaca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 29/80] fix: multi-port AXI memory model holds a write response
 until it is accepted

---
 veriloggen/types/axi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index e0b4651..2bec711 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3702,21 +3702,24 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
             # waiting a request
             _waddr, _size, _wid = self.unpack_write_req(wreq_fifo.rdata,
                                                         waddr.id_width)
-            deq_cond = vtypes.Ands(wdata_fsm.here, vtypes.Not(wreq_fifo.empty))
+            # the previous response is held until it is accepted
+            _start = vtypes.Ands(vtypes.Not(wreq_fifo.empty),
+                                 vtypes.Ors(wresp.bready, vtypes.Not(wresp.bvalid)))
+            deq_cond = vtypes.Ands(wdata_fsm.here, _start)
             _ = wreq_fifo.deq_rtl(cond=deq_cond)
-            wdata_fsm(
+            wdata_fsm.If(wresp.bready)(
                 wresp.bvalid(0)
             )
-            wdata_fsm.If(vtypes.Not(wreq_fifo.empty))(
+            wdata_fsm.If(_start)(
                 write_addr(_waddr),
                 write_count(_size),
             )
             if wresp.bid is not None:
-                wdata_fsm.If(vtypes.Not(wreq_fifo.empty))(
+                wdata_fsm.If(_start)(
                     wresp.bid(_wid)
                 )
 
-            wdata_fsm.If(vtypes.Not(wreq_fifo.empty)).goto_next()
+            wdata_fsm.If(_start).goto_next()
 
             # write
             _wdata, _wstrb, _wlast = self.unpack_write_data(wdata_fifo.rdata)
-- 
2.43.0


From e9e1a74f8896302f472200ed905ddc90013fccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:57 +0000
Subject: [PATCH 30/80] fix: narrow DMA counts bus words when the width ratio
 is not a power of two

---
 veriloggen/thread/axim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 41c6c16..21c78ef 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -944,7 +944,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_read_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.read_ops:
             """ already synthesized op """
@@ -1370,7 +1370,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         op_id = self._get_write_op_id(ram, port, ram_method)
         port = vtypes.to_int(port)
         pack_size = ram_datawidth // self.datawidth
-        log_pack_size = int(math.log(pack_size, 2))
+        log_pack_size = (pack_size - 1).bit_length()
 
         if op_id in self.write_ops:
             """ already synthesized op """
-- 
2.43.0


From 0f2d178b85d0a0b6f6fecdc4975ea0c1bb4fff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:57 +0000
Subject: [PATCH 31/80] fix: AXIMLite global base address

---
 veriloggen/thread/axim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 21c78ef..9595539 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -1824,6 +1824,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
 
         self.mutex = None
 
+        if self.use_global_base_addr:
+            self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
+                                               self.addrwidth, initval=0)
+        else:
+            self.global_base_addr = None
+
     def read(self, fsm, global_addr):
         if self.use_global_base_addr:
             global_addr = self.global_base_addr + global_addr
@@ -1894,6 +1900,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
         self.seq.If(flag)(
             self.global_base_addr(addr)
         )
+        fsm.goto_next()
+
+    def _set_flag(self, fsm, prefix='axim_flag'):
+        flag = self.m.TmpWire(prefix=prefix)
+        flag.assign(fsm.here)
+        return flag
 
 
 class AXIMLiteVerify(AXIMLite):
-- 
2.43.0


From 5e5f75fe980d852104d433051f9ee82bd77b9558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:40 +0000
Subject: [PATCH 32/80] fix: waiting for a bus direction the design never uses

---
 veriloggen/thread/axim.py | 14 ++++++++++++++
 veriloggen/types/axi.py   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 9595539..c4ae12f 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -697,17 +697,29 @@ class AXIM(axi.AxiMaster, _MutexFunction):
                        local_bank_stride, local_blocksize, port, ram_method)
 
     # wait
+    def _add_read_reset(self):
+        """ registers of a direction that is waited for but never used """
+        self.seq.add_reset(self.read_req_busy)
+        self.seq.add_reset(self.read_data_busy)
+
+    def _add_write_reset(self):
+        self.seq.add_reset(self.write_req_busy)
+        self.seq.add_reset(self.write_data_busy)
+
     def dma_wait_read(self, fsm):
 
+        self._add_read_reset()
         fsm.If(self.read_idle).goto_next()
 
     def dma_wait_write(self, fsm):
 
+        self._add_write_reset()
         res = self.write_completed()
         fsm.If(self.write_idle, res).goto_next()
 
     def dma_wait_write_idle(self, fsm):
 
+        self._add_write_reset()
         fsm.If(self.write_idle).goto_next()
 
     def dma_wait_write_response(self, fsm):
@@ -717,6 +729,8 @@ class AXIM(axi.AxiMaster, _MutexFunction):
 
     def dma_wait(self, fsm):
 
+        self._add_read_reset()
+        self._add_write_reset()
         res = self.write_completed()
         fsm.If(self.read_idle, self.write_idle, res).goto_next()
 
diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 2bec711..20aff56 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2144,6 +2144,7 @@ class AxiMaster(object):
         return ack
 
     def write_completed(self):
+        self.waddr.seq.add_reset(self.waddr.awvalid)
         return vtypes.Not(self.has_outstanding_write)
 
     def read_request(self, addr, length=1, cond=None):
-- 
2.43.0


From 6070ea11fc932cb404d4629dbda52d70db480d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:41 +0000
Subject: [PATCH 33/80] fix: wide DMA writes of different width ratios do not
 disturb each other

---
 veriloggen/thread/axim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index c4ae12f..e1d6bfb 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -1559,7 +1559,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         # Data state 2
         cond = vtypes.Ands(vtypes.Not(self.write_req_fifo.empty),
                            self.write_size_buf == 0)
-        self.seq.If(data_fsm.here, cond)(
+        self.seq.If(data_fsm.here, cond, self.write_op_sel_buf == op_id)(
             # global_size -> local_size
             self.write_size_buf(self.write_size_fifo << log_pack_size),
         )
-- 
2.43.0


From f3bd9d88162771a468b7525f0affb8133b60c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 34/80] fix: AXISRegister read bursts end at the requested beat

---
 veriloggen/thread/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 345bbe8..11ad9ef 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -137,7 +137,7 @@ class AXISRegister(AXIS):
         fsm.If(ack)(
             maskaddr.inc(),
             rcount.dec(),
-            rlast(rcount <= 1)
+            rlast(rcount <= 2)
         )
 
         # flag reset
-- 
2.43.0


From a5c2f4de316898d445240c77432dac1b3ca04074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 35/80] fix: AXI slave register files with a single register

---
 veriloggen/thread/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 11ad9ef..cbcfbe4 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -79,7 +79,7 @@ class AXISRegister(AXIS):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
@@ -267,7 +267,7 @@ class AXISLiteRegister(AXISLite):
                          for i in range(length)]
         self.length = length
         self.maskwidth = self.m.Localparam('_'.join(['', self.name, 'maskwidth']),
-                                           util.log2(length))
+                                           max(util.log2(length), 1))
         self.mask = self.m.Localparam('_'.join(['', self.name, 'mask']),
                                       vtypes.Repeat(vtypes.Int(1, 1), self.maskwidth))
         self.shift = self.m.Localparam('_'.join(['', self.name, 'shift']),
-- 
2.43.0


From 118820dca1c0f17142fc0482ea2f3a2f7c6e2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:25 +0000
Subject: [PATCH 36/80] fix: AXI slave keeps RID until the read data is
 accepted

---
 veriloggen/types/axi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 20aff56..e444f99 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2405,6 +2405,9 @@ class AxiSlave(object):
         self.rdata.disable_read()
         self._read_disabled = True
 
+    def _read_data_accepted(self):
+        return vtypes.Ors(vtypes.Not(self.rdata.rvalid), self.rdata.rready)
+
     def pull_request(self, cond):
         """
         @return addr, length, readvalid, writevalid
@@ -2439,6 +2442,9 @@ class AxiSlave(object):
                               prev_arvalid, vtypes.Not(prev_awvalid))
         if ready is not None:
             readval = vtypes.Ands(ready, readval)
+        if self.rdata.rid is not None:
+            # RID of the waiting read data must be kept
+            readval = vtypes.Ands(readval, self._read_data_accepted())
 
         _connect_ready(self.waddr.awready._get_module(),
                        self.waddr.awready, writeval)
@@ -2522,6 +2528,9 @@ class AxiSlave(object):
 
         val = (vtypes.Ands(vtypes.Not(valid), prev_arvalid) if ready is None else
                vtypes.Ands(ready, vtypes.Not(valid), prev_arvalid))
+        if self.rdata.rid is not None:
+            # RID of the waiting read data must be kept
+            val = vtypes.Ands(val, self._read_data_accepted())
 
         _connect_ready(self.raddr.arready._get_module(),
                        self.raddr.arready, val)
-- 
2.43.0


From 3c7df08ef192cb74044cd850f75082b0b4f2bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:54 +0000
Subject: [PATCH 37/80] fix: UART transmitters and receivers can be locked by
 threads

---
 veriloggen/thread/uart.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index c85f715..3a86336 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -38,6 +38,9 @@ class UartTx(Submodule, _MutexFunction):
         self.tx_enable.initval = 0
         self.tx_ready = self['ready']
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def send(self, fsm, value):
@@ -78,6 +81,9 @@ class UartRx(Submodule, _MutexFunction):
         self.rx_dout = self['dout']
         self.rx_valid = self['valid']
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def recv(self, fsm):
-- 
2.43.0


From cfbd347e3b1e33b23eeaf45aeae431d6bf113ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 38/80] fix: temporary names skip the names already defined in
 the module

---
 veriloggen/core/module.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a43a4f5..f685720 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -99,7 +99,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Wire(name, width, dims, signed, value)
 
     def Reg(self, name, width=None, dims=None, signed=False, value=None,
@@ -117,7 +117,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Reg(name, width, dims, signed, value, initval)
 
     def Integer(self, name, width=None, dims=None, signed=False, value=None,
@@ -135,7 +135,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Integer(name, width, dims, signed, value, initval)
 
     def Real(self, name, width=None, dims=None, signed=False, value=None,
@@ -153,7 +153,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Real(name, width, dims, signed, value, initval)
 
     def Genvar(self, name, width=None, dims=None, signed=False, value=None):
@@ -169,7 +169,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Genvar(name, width, dims, signed, value)
 
     def Parameter(self, name, value, width=None, signed=False, dims=None):
@@ -193,7 +193,7 @@ class Module(vtypes.VeriloggenNode):
 
         if prefix is None:
             prefix = self.tmp_prefix
-        name = '_'.join([prefix, str(self.get_tmp())])
+        name = self.get_tmp_name(prefix)
         return self.Localparam(name, value, width, signed, dims)
 
     # -------------------------------------------------------------------------
@@ -1168,6 +1168,12 @@ class Module(vtypes.VeriloggenNode):
         self.tmp_count += 1
         return ret
 
+    def get_tmp_name(self, prefix):
+        while True:
+            name = '_'.join([prefix, str(self.get_tmp())])
+            if self.find_identifier(name) is None:
+                return name
+
     # -------------------------------------------------------------------------
     def is_input(self, name):
         if name not in self.io_variable:
-- 
2.43.0


From 855359f59a99c67956ca0e42de8b90419d889b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 39/80] fix: a port and at most one variable share a name

---
 veriloggen/core/module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index f685720..9bd05fc 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1293,7 +1293,11 @@ class Module(vtypes.VeriloggenNode):
             return
         if isinstance(s, vtypes.AnyType):
             return
-        if len(types) == 0:
+        # only one port and one variable of this module can share a name
+        port = self.io_variable.get(name)
+        var = self.variable.get(name)
+        if ((s is not port and s is not var) or
+                (port is not None and var is not None)):
             raise ValueError("Object '%s' is already defined." % name)
         if not isinstance(s, types):
             raise ValueError("Object '%s' is already defined." % name)
-- 
2.43.0


From 6f2e2f91b32ae54d9b49b8ae1e85d57e8bd2b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:28 +0000
Subject: [PATCH 40/80] fix: added and copied objects do not take a name
 already in use

---
 veriloggen/core/module.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 9bd05fc..f27838a 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1027,6 +1027,7 @@ class Module(vtypes.VeriloggenNode):
         if isinstance(obj, vtypes._Variable) and obj.name is None:
             raise ValueError("Object must have a name.")
 
+        self._check_object_name(obj)
         self.items.append(obj)
 
         if isinstance(obj, vtypes.AnyType):
@@ -1113,12 +1114,34 @@ class Module(vtypes.VeriloggenNode):
 
         raise TypeError("Object type '%s' is not supported." % str(type(obj)))
 
+    def _check_object_name(self, obj):
+        # ports and parameters can be declared again by a copy
+        if (isinstance(obj, (vtypes.Input, vtypes.Output, vtypes.Inout,
+                             vtypes.Parameter)) and
+                type(self.find_identifier(obj.name)) is type(obj)):
+            return
+
+        if isinstance(obj, (vtypes.Input, vtypes.Inout)):
+            self.check_existing_identifier(obj.name, vtypes.Wire)
+        elif isinstance(obj, vtypes.Output):
+            self.check_existing_identifier(obj.name, vtypes.Wire, vtypes.Reg)
+        elif isinstance(obj, vtypes.Wire):
+            self.check_existing_identifier(obj.name, vtypes.Input,
+                                           vtypes.Output, vtypes.Inout)
+        elif isinstance(obj, vtypes.Reg):
+            self.check_existing_identifier(obj.name, vtypes.Output)
+        elif isinstance(obj, (vtypes._Variable, function.Function, task.Task)):
+            self.check_existing_identifier(obj.name)
+        elif isinstance(obj, Instance):
+            self.check_existing_identifier(obj.instname)
+
     # -------------------------------------------------------------------------
     def add_function(self, t):
         if not isinstance(t, function.Function):
             raise TypeError(
                 "add_function requires a Function, not %s" % type(t))
         name = t.name
+        self.check_existing_identifier(name)
         self.function[name] = t
         self.items.append(t)
         return t
@@ -1127,6 +1150,7 @@ class Module(vtypes.VeriloggenNode):
         if not isinstance(t, task.Task):
             raise TypeError("add_task requires a Task, not %s" % type(t))
         name = t.name
+        self.check_existing_identifier(name)
         self.task[name] = t
         self.items.append(t)
         return t
-- 
2.43.0


From 8f904587c3c2fbd83875c2b694054dbad13f2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:24 +0000
Subject: [PATCH 41/80] fix: scopes of generate-else branches do not take a
 name already in use

---
 veriloggen/core/module.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index f27838a..b5f7b4f 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1184,6 +1184,12 @@ class Module(vtypes.VeriloggenNode):
             return self.instance[name]
         if name in self.generate:
             return self.generate[name]
+        if name is not None:
+            for gen in self.generate.values():
+                for g in gen if isinstance(gen, (tuple, list)) else (gen,):
+                    if (isinstance(g, GenerateIf) and
+                            g.Else.false_scope == name):
+                        return g.Else
         return None
 
     # -------------------------------------------------------------------------
@@ -1532,6 +1538,12 @@ class GenerateIfElse(Generate):
         self._type_check_scope(false_scope)
 
     def __call__(self, false_scope):
+        self._type_check_scope(false_scope)
+        s = (self.m.find_identifier(false_scope)
+             if false_scope is not None else None)
+        # both branches can have the same name
+        if s is not None and s is not self and getattr(s, 'Else', None) is not self:
+            raise ValueError("Object '%s' is already defined." % false_scope)
         self.false_scope = false_scope
         return self
 
-- 
2.43.0


From 67c1429f3f0505dc274884be5f69124366b6fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:56 +0000
Subject: [PATCH 42/80] fix: modules and deferred logic inside generate scopes
 are emitted

---
 veriloggen/core/module.py | 54 +++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index b5f7b4f..98c0fde 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -1185,11 +1185,10 @@ class Module(vtypes.VeriloggenNode):
         if name in self.generate:
             return self.generate[name]
         if name is not None:
-            for gen in self.generate.values():
-                for g in gen if isinstance(gen, (tuple, list)) else (gen,):
-                    if (isinstance(g, GenerateIf) and
-                            g.Else.false_scope == name):
-                        return g.Else
+            for gen in self.get_generates():
+                if (isinstance(gen, GenerateIfElse) and
+                        gen.false_scope == name):
+                    return gen
         return None
 
     # -------------------------------------------------------------------------
@@ -1273,31 +1272,40 @@ class Module(vtypes.VeriloggenNode):
                 kwargs = {}
             method(*args, **kwargs)
 
+        for gen in self.get_generates():
+            gen.resolve_hook()
+
         for sub in self.submodule.values():
             sub.resolve_hook()
 
     def has_hook(self):
         if self.hook:
             return True
+        for gen in self.get_generates():
+            if gen.has_hook():
+                return True
         for sub in self.submodule.values():
             if sub.has_hook():
                 return True
         return False
 
+    def get_generates(self):
+        ret = []
+        for gen in self.generate.values():
+            for g in gen if isinstance(gen, (tuple, list)) else (gen,):
+                ret.append(g)
+                if isinstance(g, GenerateIf):
+                    ret.append(g.Else)
+        return ret
+
     # -------------------------------------------------------------------------
     def find_module(self, name):
         if name in self.submodule:
             return self.submodule[name]
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    r = g.find_module(name)
-                    if r is not None:
-                        return r
-            else:
-                r = gen.find_module(name)
-                if r is not None:
-                    return r
+        for gen in self.get_generates():
+            r = gen.find_module(name)
+            if r is not None:
+                return r
         for sub in self.submodule.values():
             r = sub.find_module(name)
             if r is not None:
@@ -1307,12 +1315,8 @@ class Module(vtypes.VeriloggenNode):
     def get_modules(self):
         modules = collections.OrderedDict()
         modules[self.name] = self
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self.get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
@@ -1489,12 +1493,8 @@ class Generate(Module):
 
     def get_modules(self):
         modules = collections.OrderedDict()
-        for gen in self.generate.values():
-            if isinstance(gen, (tuple, list)):
-                for g in gen:
-                    modules.update(g.get_modules())
-            else:
-                modules.update(gen.get_modules())
+        for gen in self.get_generates():
+            modules.update(gen.get_modules())
         for sub in self.submodule.values():
             modules.update(sub.get_modules())
         return modules
-- 
2.43.0


From 012fe80aeebf58ac822df16be1724a2572b60a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 43/80] fix: a wire of a port is not declared twice, fixed
 point ports check their names first

---
 veriloggen/types/fixed.py        | 4 ++++
 veriloggen/verilog/to_verilog.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/veriloggen/types/fixed.py b/veriloggen/types/fixed.py
index c6f7de4..e03d01b 100644
--- a/veriloggen/types/fixed.py
+++ b/veriloggen/types/fixed.py
@@ -22,6 +22,7 @@ def _tmp_name(prefix='_tmp_fixed'):
 
 def FixedInput(m, name, width=32, point=0,
                dims=None, signed=True):
+    m.check_existing_identifier(name, vtypes.Wire)
     obj = _FixedInput(width=width, dims=dims, signed=signed,
                       name=name, module=m, point=point)
     m.add_object(obj)
@@ -30,6 +31,7 @@ def FixedInput(m, name, width=32, point=0,
 
 def FixedOutput(m, name, width=32, point=0,
                 dims=None, signed=True):
+    m.check_existing_identifier(name, vtypes.Wire, vtypes.Reg)
     obj = _FixedOutput(width=width, dims=dims, signed=signed,
                        name=name, module=m, point=point)
     m.add_object(obj)
@@ -38,6 +40,7 @@ def FixedOutput(m, name, width=32, point=0,
 
 def FixedOutputReg(m, name, width=32, point=0,
                    dims=None, signed=True, initval=None):
+    m.check_existing_identifier(name)
     obj = _FixedOutput(width=width, dims=dims, signed=signed,
                        name=name, module=m, point=point)
     m.add_object(obj)
@@ -49,6 +52,7 @@ def FixedOutputReg(m, name, width=32, point=0,
 
 def FixedInout(m, name, width=32, point=0,
                dims=None, signed=True):
+    m.check_existing_identifier(name, vtypes.Wire)
     obj = _FixedInout(width=width, dims=dims, signed=signed,
                       name=name, module=m, point=point)
     m.add_object(obj)
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index ac62dad..b76910d 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -676,6 +676,9 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
 
     def visit_Wire(self, node):
         name = node.name
+        # a port is a net already
+        if name in self.module.io_variable:
+            return None
         width = self.make_width(node)
         dims = self.make_dims(node)
         signed = node.signed
-- 
2.43.0


From d54fc916332c4ede6ad06aaa4dd089e8397df457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:22 +0000
Subject: [PATCH 44/80] fix: reset restarts the numbering of multiply-adders

---
 veriloggen/stream/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index 26dbfca..b831f96 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -15,6 +15,7 @@ from veriloggen.seq.seq import Seq
 from . import visitor
 from . import stypes
 from . import mul
+from . import madd
 from . import scheduler
 from . import allocator
 from . import graph
@@ -29,6 +30,7 @@ def reset():
     _stream_counter = 0
     stypes._object_counter = 0
     mul.reset()
+    madd.reset()
 
 
 def StreamManager(module, clock, reset,
-- 
2.43.0


From cc99ff364137647e5bbce1d95fe390005a689006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:22 +0000
Subject: [PATCH 45/80] fix: RAM copy streams are kept per pair of RAMs

---
 veriloggen/thread/util.py | 53 ++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/veriloggen/thread/util.py b/veriloggen/thread/util.py
index 6f57555..6045bc9 100644
--- a/veriloggen/thread/util.py
+++ b/veriloggen/thread/util.py
@@ -6,27 +6,35 @@ from . import stream
 __intrinsics__ = ('copy', 'copy_pattern')
 
 copy_stream_cache = {}
-copy_pattern_stream_cache = {}
 
 
-def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
-         src_stride=1, dst_stride=1,
-         src_port=0, dst_port=0):
+def _get_copy_stream(src_ram, dst_ram):
+    """ stream that copies between a pair of RAMs, shared by all copies """
+
+    key = (src_ram, dst_ram)
+
+    if key in copy_stream_cache:
+        return copy_stream_cache[key]
 
     name = '_'.join(['copy', src_ram.name, dst_ram.name])
 
-    if name in copy_stream_cache:
-        strm = copy_stream_cache[name]
+    m = src_ram.m
+    clk = src_ram.clk
+    rst = src_ram.rst
+    strm = stream.Stream(m, name, clk, rst)
+    src = strm.source('src')
+    dst = src
+    strm.sink(dst, 'dst')
+    copy_stream_cache[key] = strm
+
+    return strm
 
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_stream_cache[name] = strm
+
+def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
+         src_stride=1, dst_stride=1,
+         src_port=0, dst_port=0):
+
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source(fsm, 'src', src_ram, src_addr, size,
                     stride=src_stride, port=src_port)
@@ -40,20 +48,7 @@ def copy_pattern(fsm, src_ram, dst_ram, src_addr, dst_addr,
                  src_pattern, dst_pattern,
                  src_port=0, dst_port=0):
 
-    name = '_'.join(['copy', src_ram.name, dst_ram.name])
-
-    if name in copy_pattern_stream_cache:
-        strm = copy_pattern_stream_cache[name]
-
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_pattern_stream_cache[name] = strm
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source_pattern(fsm, 'src', src_ram, src_addr, src_pattern,
                             port=src_port)
-- 
2.43.0


From 920796d580d47ce03d27d5f281de77e4614988f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:11 +0000
Subject: [PATCH 46/80] fix: a module emitted again keeps the numbers of its
 deferred objects

---
 veriloggen/core/module.py     |  5 +++-
 veriloggen/core/numbering.py  | 43 +++++++++++++++++++++++++++++++++++
 veriloggen/dataflow/dtypes.py |  5 ++--
 veriloggen/dataflow/mul.py    |  5 ++--
 veriloggen/stream/madd.py     |  5 ++--
 veriloggen/stream/mul.py      |  5 ++--
 veriloggen/stream/stypes.py   |  5 ++--
 7 files changed, 62 insertions(+), 11 deletions(-)
 create mode 100644 veriloggen/core/numbering.py

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 98c0fde..f4e4993 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -7,6 +7,7 @@ import copy
 import re
 
 import veriloggen.core.vtypes as vtypes
+import veriloggen.core.numbering as numbering
 import veriloggen.core.function as function
 import veriloggen.core.task as task
 import veriloggen.core.rename_visitor as rename_visitor
@@ -42,6 +43,7 @@ class Module(vtypes.VeriloggenNode):
         self.tmp_prefix = tmp_prefix
         self.tmp_count = 0
         self.hook = []
+        self.hook_numbers = {}
         self.used = False
 
     # -------------------------------------------------------------------------
@@ -1261,7 +1263,8 @@ class Module(vtypes.VeriloggenNode):
         if not self.has_hook():
             return self
         copied = copy.deepcopy(self)
-        copied.resolve_hook()
+        with numbering.Replay(self.hook_numbers):
+            copied.resolve_hook()
         return copied
 
     def resolve_hook(self):
diff --git a/veriloggen/core/numbering.py b/veriloggen/core/numbering.py
new file mode 100644
index 0000000..0bb2977
--- /dev/null
+++ b/veriloggen/core/numbering.py
@@ -0,0 +1,43 @@
+from __future__ import absolute_import
+from __future__ import print_function
+
+# numbers given to the module that is being emitted: key -> list
+_given = None
+_used = None
+
+
+def take(key, count):
+    """ return a number of a global counter and the next count
+
+    When hooks of a module are resolved, the numbers are recorded.
+    A module that is emitted again gets the same numbers again. """
+
+    if _given is None:
+        return count, count + 1
+
+    numbers = _given.setdefault(key, [])
+    index = _used.get(key, 0)
+    _used[key] = index + 1
+
+    if index < len(numbers):
+        return numbers[index], count
+
+    numbers.append(count)
+    return count, count + 1
+
+
+class Replay(object):
+    """ context manager to give the recorded numbers """
+
+    def __init__(self, given):
+        self.given = given
+        self.saved = None
+
+    def __enter__(self):
+        global _given, _used
+        self.saved = (_given, _used)
+        _given, _used = self.given, {}
+
+    def __exit__(self, *args):
+        global _given, _used
+        _given, _used = self.saved
diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index f66d2a4..55b03b1 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -6,6 +6,7 @@ from collections import OrderedDict
 from math import log
 
 import veriloggen.core.vtypes as vtypes
+import veriloggen.core.numbering as numbering
 import veriloggen.types.fixed as fx
 import veriloggen.types.rom as rom
 from veriloggen.seq.seq import make_condition as _make_condition
@@ -62,8 +63,8 @@ class _Node(object):
 
     def __init__(self):
         global _object_counter
-        self.object_id = _object_counter
-        _object_counter += 1
+        self.object_id, _object_counter = numbering.take(
+            __name__, _object_counter)
 
     def __hash__(self):
         object_id = self.object_id if hasattr(self, 'object_id') else None
diff --git a/veriloggen/dataflow/mul.py b/veriloggen/dataflow/mul.py
index e91d77c..a39187b 100644
--- a/veriloggen/dataflow/mul.py
+++ b/veriloggen/dataflow/mul.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 
 import veriloggen.core.vtypes as vtypes
+import veriloggen.core.numbering as numbering
 import veriloggen.core.module as module
 
 
@@ -104,8 +105,8 @@ index_count = 0
 
 def get_mul(lwidth=32, rwidth=32, lsigned=True, rsigned=True, depth=6):
     global index_count
-    mul = mkMultiplier(index_count, lwidth, rwidth, lsigned, rsigned, depth)
-    index_count += 1
+    index, index_count = numbering.take(__name__, index_count)
+    mul = mkMultiplier(index, lwidth, rwidth, lsigned, rsigned, depth)
     return mul
 
 
diff --git a/veriloggen/stream/madd.py b/veriloggen/stream/madd.py
index 01cd678..5824df0 100644
--- a/veriloggen/stream/madd.py
+++ b/veriloggen/stream/madd.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 
 import veriloggen.core.vtypes as vtypes
+import veriloggen.core.numbering as numbering
 import veriloggen.core.module as module
 
 
@@ -98,9 +99,9 @@ def get_madd(awidth=32, bwidth=32, cwidth=32,
              asigned=True, bsigned=True, csigned=True, depth=6):
 
     global index_count
-    madd = mkMadd(index_count, awidth, bwidth, cwidth,
+    index, index_count = numbering.take(__name__, index_count)
+    madd = mkMadd(index, awidth, bwidth, cwidth,
                   asigned, bsigned, csigned, depth)
-    index_count += 1
     return madd
 
 
diff --git a/veriloggen/stream/mul.py b/veriloggen/stream/mul.py
index d05b852..cd7ad01 100644
--- a/veriloggen/stream/mul.py
+++ b/veriloggen/stream/mul.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 
 import veriloggen.core.vtypes as vtypes
+import veriloggen.core.numbering as numbering
 import veriloggen.core.module as module
 
 
@@ -78,8 +79,8 @@ index_count = 0
 
 def get_mul(lwidth=32, rwidth=32, lsigned=True, rsigned=True, depth=6):
     global index_count
-    mul = mkMultiplier(index_count, lwidth, rwidth, lsigned, rsigned, depth)
-    index_count += 1
+    index, index_count = numbering.take(__name__, index_count)
+    mul = mkMultiplier(index, lwidth, rwidth, lsigned, rsigned, depth)
     return mul
 
 
diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index aadec00..f087433 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -7,6 +7,7 @@ from collections import OrderedDict
 from math import log, ceil
 
 import veriloggen.core.vtypes as vtypes
+import veriloggen.core.numbering as numbering
 import veriloggen.types.fixed as fx
 import veriloggen.types.util as util
 import veriloggen.types.rom as rom
@@ -66,8 +67,8 @@ class _Node(object):
 
     def __init__(self):
         global _object_counter
-        self.object_id = _object_counter
-        _object_counter += 1
+        self.object_id, _object_counter = numbering.take(
+            __name__, _object_counter)
 
         # for graph visualizer
         self.graph_label = None
-- 
2.43.0


From 8bc595995c556c56b1f50fee4808455474f6c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:02 +0000
Subject: [PATCH 47/80] fix: a parameter defined by another parameter of the
 module follows it

---
 veriloggen/core/vtypes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 3d27e75..8d1d839 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -751,13 +751,22 @@ class _ParameterVariable(_Variable):
 
     def __init__(self, value, width=None, signed=False, name=None,
                  raw_width=None, module=None):
-        if isinstance(value, _ParameterVariable):
+        if (isinstance(value, _ParameterVariable) and
+                not self._is_accessible(value, module)):
             value = value.value
         if value is None:
             raise ValueError('value must not be None.')
         _Variable.__init__(self, width=width, signed=signed, value=value, name=name,
                            raw_width=raw_width, module=module)
 
+    def _is_accessible(self, value, module):
+        """ whether the parameter belongs to the module or its outer scope """
+        while module is not None:
+            if value.module is module:
+                return True
+            module = getattr(module, 'm', None)
+        return False
+
     def get_width(self):
         if self.width is None:
             return 32
-- 
2.43.0


From 86668f97c38c5c39e16c0fea9f2ed7c3b7caec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:02 +0000
Subject: [PATCH 48/80] fix: renaming an instantiated module must not replace
 another submodule

---
 veriloggen/core/module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index f4e4993..0199492 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -577,8 +577,9 @@ class Module(vtypes.VeriloggenNode):
             if mod == module:
                 break
             module.name = module.name + '_'
-            self.submodule[module.name] = module
             mod = self.find_module(module.name)
+            if mod is None:
+                self.submodule[module.name] = module
 
         return t
 
-- 
2.43.0


From 777db2e7128318debf22201d73df62ab1b5959ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:03 +0000
Subject: [PATCH 49/80] fix: calls of tasks are emitted and resolved as
 statements

---
 veriloggen/resolver/resolver.py  | 1 -
 veriloggen/verilog/to_verilog.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/veriloggen/resolver/resolver.py b/veriloggen/resolver/resolver.py
index b9c516d..710820a 100644
--- a/veriloggen/resolver/resolver.py
+++ b/veriloggen/resolver/resolver.py
@@ -481,7 +481,6 @@ class ReplaceVisitor(ConstantVisitor):
         return node
 
     def visit_TaskCall(self, node):
-        self.visit(node.func)
         args = [self.visit(a) for a in node.args]
         node.args = args
         return node
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index b76910d..e5bb7fc 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -532,7 +532,7 @@ class VerilogCommonVisitor(object):
     def visit_TaskCall(self, node):
         name = vast.Identifier(node.name)
         args = tuple([self.visit(a) for a in node.args])
-        return vast.TaskCall(name, args)
+        return vast.SingleStatement(vast.FunctionCall(name, args))
 
     # -------------------------------------------------------------------------
     def visit_Instance(self, node):
-- 
2.43.0


From 9caa0a4917ee4ac577c4876503148798f99ca37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:03 +0000
Subject: [PATCH 50/80] fix: different modules of the same name are emitted
 with different names

---
 veriloggen/verilog/to_verilog.py | 84 +++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 6 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index e5bb7fc..db0f713 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -17,8 +17,14 @@ def write_verilog(node, filename=None, for_verilator=False):
     visitor = VerilogModuleVisitor(for_verilator)
     modules = tuple(node.get_modules().values())
 
-    module_ast_list = [visitor.visit(mod) for mod in modules
-                       if not isinstance(mod, module.StubModule)]
+    if len(_get_all_modules(node)) == len(modules):
+        module_ast_list = [visitor.visit(mod) for mod in modules
+                           if not isinstance(mod, module.StubModule)]
+    else:
+        # different modules of the same name
+        modules = _get_all_modules(node)
+        module_ast_list = _visit_modules_uniquely(visitor, modules)
+
     description = vast.Description(module_ast_list)
     source = vast.Source(filename, description)
 
@@ -36,6 +42,70 @@ def write_verilog(node, filename=None, for_verilator=False):
     return code
 
 
+# -------------------------------------------------------------------------
+def _get_all_modules(node, modules=None):
+    """ all module objects in a hierarchy, parents first """
+    if modules is None:
+        modules = []
+
+    if not isinstance(node, module.Generate):
+        if any(mod is node for mod in modules):
+            return modules
+        if isinstance(node, module.StubModule):
+            if not any(mod == node for mod in modules
+                       if isinstance(mod, module.StubModule)):
+                modules.append(node)
+            return modules
+        modules.append(node)
+
+    for gen in node.get_generates():
+        _get_all_modules(gen, modules)
+    for sub in node.submodule.values():
+        _get_all_modules(sub, modules)
+
+    return modules
+
+
+def _visit_modules_uniquely(visitor, modules):
+    """ visit modules so that different definitions have different names """
+    root = modules[0]
+    codegen = ASTCodeGenerator()
+    reserved = [mod.name for mod in modules
+                if mod is root or (isinstance(mod, module.StubModule) and mod.code)]
+    defined = {}
+    visited = []
+
+    def visit(mod):
+        if isinstance(mod, module.StubModule) or any(mod is v for v in visited):
+            return
+
+        # names of the submodules are required to define the module
+        visited.append(mod)
+        for sub in _get_all_modules(mod)[1:]:
+            visit(sub)
+
+        name = mod.name
+        module_ast = visitor.visit(mod)
+
+        while True:
+            module_ast.name = name
+            code = codegen.visit(module_ast)
+            if mod is root or (name not in reserved and
+                               defined.get(name, (code,))[0] == code):
+                break
+            name = name + '_'
+
+        visitor.module_names[mod] = name
+        defined.setdefault(name, (code, module_ast))
+
+    visit(root)
+
+    names = collections.OrderedDict([(visitor.module_names[mod], None)
+                                     for mod in modules
+                                     if not isinstance(mod, module.StubModule)])
+    return [defined[name][1] for name in names]
+
+
 # -------------------------------------------------------------------------
 class VerilogCommonVisitor(object):
 
@@ -555,6 +625,7 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
         self.always_visitor = VerilogAlwaysVisitor(for_verilator)
         self.blocking_visitor = VerilogBlockingVisitor(for_verilator)
         self.module = None
+        self.module_names = {}
 
     # -------------------------------------------------------------------------
     def make_width(self, node):
@@ -774,14 +845,15 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
 
     # -------------------------------------------------------------------------
     def visit_Instance(self, node):
-        module = node.module.name
+        name = node.module.name
+        if not isinstance(node.module, module.StubModule):
+            name = self.module_names.get(node.module, name)
         parameterlist = [vast.ParamArg(
             p, self.bind_visitor.visit(a)) for p, a in node.params]
         portlist = [vast.PortArg(p, self.bind_visitor.visit(a))
                     for p, a in node.ports]
-        name = node.instname
-        instance = vast.Instance(module, name, portlist, parameterlist)
-        return vast.InstanceList(module, parameterlist, (instance,))
+        instance = vast.Instance(name, node.instname, portlist, parameterlist)
+        return vast.InstanceList(name, parameterlist, (instance,))
 
     # -------------------------------------------------------------------------
     def _visit_Generate(self, node):
-- 
2.43.0


From dc20b72a86856cdf96cd4a86c954da80dab98be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:03 +0000
Subject: [PATCH 51/80] fix: parameters read from Verilog or copied as
 localparams follow their parameters

---
 veriloggen/core/module.py          | 1 +
 veriloggen/verilog/from_verilog.py | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 0199492..435924c 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -719,6 +719,7 @@ class Module(vtypes.VeriloggenNode):
             width = visitor.visit(obj.width)
             signed = obj.signed
             copy_obj = vtypes.Localparam(value, width, signed, name)
+            copy_obj.value = value
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 283ba86..f4a98fb 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -380,7 +380,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Parameter(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Parameter(value, width, signed, name=name,
+                                 raw_width=raw_width, module=self.m)
         self.add_object(param)
         return param
 
@@ -390,7 +391,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Localparam(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Localparam(value, width, signed, name=name,
+                                  raw_width=raw_width, module=self.m)
         self.add_object(param)
         return param
 
@@ -400,7 +402,8 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Supply(value, width, signed, name=name, raw_width=raw_width)
+        param = vtypes.Supply(value, width, signed, name=name,
+                              raw_width=raw_width, module=self.m)
         self.add_object(param)
         return param
 
-- 
2.43.0


From 80dd856a6cc64537eed177517ba939736eadab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:00 +0000
Subject: [PATCH 52/80] fix: pipeline: unary operators of a stage expression
 were dropped

---
 veriloggen/pipeline/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index e62d544..aca733a 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -613,7 +613,9 @@ class DataVisitor(_PipelineVisitor):
         return stage, cls(*data), valid, ready
 
     def visit__UnaryOperator(self, node):
-        return self.visit(node.right)
+        stage, data, valid, ready = self.pack(node.right)
+        cls = type(node)
+        return stage, cls(*data), valid, ready
 
     def visit_Pointer(self, node):
         stage, data, valid, ready = self.pack(node.var, node.pos)
-- 
2.43.0


From ff12089d82aaa5e771590b9234fb6952cd0aee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:00 +0000
Subject: [PATCH 53/80] fix: pipeline: outputs were not aligned with
 accumulator stages

---
 veriloggen/pipeline/pipeline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index aca733a..081939e 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -195,6 +195,9 @@ class Pipeline(vtypes.VeriloggenNode):
 
         self.vars.append(ret)
 
+        if next_stage_id is not None and next_stage_id > self.max_stage_id:
+            self.max_stage_id = next_stage_id
+
         return ret
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From b8343f600dfef244585536e81f62ea410a9da64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:48 +0000
Subject: [PATCH 54/80] fix: pipeline: delayed and previous-value registers
 lost the sign and width of their source

---
 veriloggen/pipeline/pipeline.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index 081939e..0b37575 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -80,8 +80,10 @@ class Pipeline(vtypes.VeriloggenNode):
             width = self.width
         stage_id, raw_data, raw_valid, raw_ready = self.data_visitor.visit(
             data)
+        # a delayed register keeps the signedness of its source
+        signed = preg is not None and vtypes.get_signed(raw_data)
         tmp_data, tmp_valid, tmp_ready = self._make_tmp(raw_data, raw_valid, raw_ready,
-                                                        width, initval)
+                                                        width, initval, signed=signed)
         next_stage_id = stage_id + 1 if stage_id is not None else None
 
         ret = _PipelineVariable(self, next_stage_id,
@@ -201,9 +203,9 @@ class Pipeline(vtypes.VeriloggenNode):
         return ret
 
     # -------------------------------------------------------------------------
-    def _add_reg(self, prefix, count, width=None, initval=0):
+    def _add_reg(self, prefix, count, width=None, initval=0, signed=False):
         tmp_name = '_'.join(['', self.name, prefix, str(count)])
-        tmp = self.m.Reg(tmp_name, width, initval=initval)
+        tmp = self.m.Reg(tmp_name, width, initval=initval, signed=signed)
         return tmp
 
     def _add_wire(self, prefix, count, width=None):
@@ -212,9 +214,9 @@ class Pipeline(vtypes.VeriloggenNode):
         return tmp
 
     # -------------------------------------------------------------------------
-    def _make_tmp(self, data, valid, ready, width=None, initval=0, acc_ops=()):
+    def _make_tmp(self, data, valid, ready, width=None, initval=0, acc_ops=(), signed=False):
         tmp_data = self._add_reg(
-            'data', self.tmp_count, width=width, initval=initval)
+            'data', self.tmp_count, width=width, initval=initval, signed=signed)
 
         if valid is not None:
             tmp_valid = self._add_reg('valid', self.tmp_count, initval=0)
@@ -304,7 +306,8 @@ class Pipeline(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def _make_prev(self, data, valid, ready, width=None, initval=0):
         tmp_data = self._add_reg(
-            'data', self.tmp_count, width=width, initval=initval)
+            'data', self.tmp_count, width=width, initval=initval,
+            signed=vtypes.get_signed(data))
         tmp_valid = valid
         tmp_ready = ready
 
@@ -408,7 +411,7 @@ class _PipelineVariable(_PipelineNumeric):
         ovar = self
         if self.stage_id is not None:
             for i in range(self.stage_id, self.df.max_stage_id):
-                ovar = self.df.stage(ovar, preg=ovar)
+                ovar = self.df.stage(ovar, width=ovar.get_width(), preg=ovar)
 
         if not isinstance(data, (vtypes.Wire, vtypes.Output)):
             raise TypeError('Data signal must be Wire, not %s' %
-- 
2.43.0


From 863bb6cd6ae83f9eeb910c533de8c5493fed45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:54 +0000
Subject: [PATCH 55/80] fix: stream: previous values advanced on invalid
 elements

---
 veriloggen/stream/stypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index f087433..8d5bc93 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2371,7 +2371,8 @@ class _Prev(_UnaryOperator):
         data = m.Reg(self.name('data'), width, initval=0, signed=signed)
         self.sig_data = data
 
-        seq(data(rdata), cond=senable)
+        enable_cond = _and_vars(svalid, senable)
+        seq(data(rdata), cond=enable_cond)
 
 
 class Alias(_UnaryOperator):
-- 
2.43.0


From 0d30585047b4dc7d16bcb7f93d5c2edeb2b41e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:54 +0000
Subject: [PATCH 56/80] fix: stream: handshake ports without an output ready

---
 veriloggen/stream/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stream.py b/veriloggen/stream/stream.py
index b831f96..afbfb24 100644
--- a/veriloggen/stream/stream.py
+++ b/veriloggen/stream/stream.py
@@ -564,6 +564,8 @@ class Stream(object):
 
         if self.ivalid is None:
             self.senable = self.oready
+            if self.ovalid is not None:
+                self.ovalid.assign(1)
             if self.iready is not None:
                 self.iready.assign(self.senable)
             return
@@ -575,7 +577,7 @@ class Stream(object):
 
         self._make_valid_chain(seq, self.senable)
         if self.iready is not None:
-            self.iready.assign(self.senable)
+            self.iready.assign(1 if self.senable is None else self.senable)
 
     def _make_valid_chain(self, seq, cond=None):
         self.valid_list = []
-- 
2.43.0


From b70be9163ae7b87a48ca7233d4f18f5edc28ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:46 +0000
Subject: [PATCH 57/80] fix: dataflow, stream: shift amounts and bit positions
 that are not constant expressions

---
 veriloggen/dataflow/dtypes.py | 12 ++++++++++--
 veriloggen/stream/stypes.py   | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index 55b03b1..ba191aa 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -1180,6 +1180,14 @@ class NotEq(_BinaryOperator):
         return self.left.eval() != self.right.eval()
 
 
+def _const_eval(value):
+    """ value of a constant expression, otherwise None """
+    try:
+        return value.eval()
+    except (TypeError, AttributeError, NotImplementedError):
+        return None
+
+
 class _BinaryShiftOperator(_BinaryOperator):
 
     def _implement(self, m, seq):
@@ -1235,7 +1243,7 @@ class Sll(_BinaryShiftOperator):
     max_width = 1024
 
     def _set_attributes(self):
-        v = self.right.eval()
+        v = _const_eval(self.right)
         if isinstance(v, int):
             width = self.left.get_width() + v
         else:
@@ -1811,7 +1819,7 @@ class Repeat(_SpecialOperator):
         var = self.var.eval()
         times = self.times.eval()
         ret = 0
-        for i in times:
+        for i in range(times):
             ret = (ret << var.get_width()) | var
         return ret
 
diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 8d5bc93..8b89b31 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -1024,11 +1024,19 @@ class NotEq(_BinaryOperator):
         return self.left.eval() != self.right.eval()
 
 
+def _const_eval(value):
+    """ value of a constant expression, otherwise None """
+    try:
+        return value.eval()
+    except (TypeError, AttributeError, NotImplementedError):
+        return None
+
+
 class _BinaryShiftOperator(_BinaryOperator):
 
     def __init__(self, left, right):
         _BinaryOperator.__init__(self, left, right)
-        s = self.right.eval()
+        s = _const_eval(self.right)
         if isinstance(s, int):
             self.latency = 0
 
@@ -1072,7 +1080,7 @@ class Sll(_BinaryShiftOperator):
     max_width = 1024
 
     def _set_attributes(self):
-        v = self.right.eval()
+        v = _const_eval(self.right)
         if isinstance(v, int):
             width = self.left.get_width() + v
         else:
@@ -1584,7 +1592,7 @@ class Pointer(_SpecialOperator):
         _SpecialOperator.__init__(self, var, pos)
         self.op = vtypes.Pointer
 
-        p = self.args[1].eval()
+        p = _const_eval(self.args[1])
         if isinstance(p, int):
             self.latency = 0
 
@@ -1822,7 +1830,7 @@ class Repeat(_SpecialOperator):
         var = self.var.eval()
         times = self.times.eval()
         ret = 0
-        for i in times:
+        for i in range(times):
             ret = (ret << var.get_width()) | var
         return ret
 
-- 
2.43.0


From 792df4aa7089a258e2cc73774853e4c4a1f1dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:46 +0000
Subject: [PATCH 58/80] fix: dataflow, stream: lookup tables whose length is
 not a power of two

---
 veriloggen/dataflow/dtypes.py | 4 ++--
 veriloggen/stream/stypes.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index ba191aa..9cdabbf 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -3,7 +3,7 @@ from __future__ import print_function
 
 from functools import partial
 from collections import OrderedDict
-from math import log
+from math import log, ceil
 
 import veriloggen.core.vtypes as vtypes
 import veriloggen.core.numbering as numbering
@@ -1968,7 +1968,7 @@ class LUT(_SpecialOperator):
         data_cond = _and_vars(valid_cond, all_valid)
         ready_cond = _and_vars(accept, all_valid)
 
-        size = int(log(len(self.patterns), 2))
+        size = max(int(ceil(log(len(self.patterns), 2))), 1)
 
         inst = rom.mkROMDefinition(self.name('LUT_ROM'), self.patterns,
                                    size, width, sync=True, with_enable=True)
diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 8b89b31..6516d0c 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2160,7 +2160,7 @@ class LUT(_SpecialOperator):
 
         arg_data = self.address.sig_data
 
-        size = int(log(len(self.patterns), 2))
+        size = max(int(ceil(log(len(self.patterns), 2))), 1)
         address = m.Wire(self.name('lut_address'), width=size)
         address.assign(arg_data)
 
-- 
2.43.0


From 0c9912cac3b4ea111401d914f602bf0d230f5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:17 +0000
Subject: [PATCH 59/80] fix: thread stream: each pattern of a multi-pattern
 source or sink uses its own sizes, a multi-pattern sink skips elements its
 condition does not select

---
 veriloggen/thread/stream.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 39b7654..0ca45ca 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2269,7 +2269,7 @@ class Stream(BaseStream):
                                            for j in range(self.max_multipattern_length)]
 
     def _synthesize_set_source_multipattern(self, var, name):
-        if var.source_pat_fsm is not None:
+        if var.source_multipat_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2394,6 +2394,14 @@ class Stream(BaseStream):
                 )
             prev_strides = multipat_strides
 
+        # the next pattern starts with its own sizes
+        if self.max_multipattern_length > 1:
+            for count, next_size in zip(var.source_multipat_counts[0],
+                                        var.source_multipat_size_bufs[1]):
+                self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
+                    count(next_size - 1)
+                )
+
         self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
             var.source_multipat_num_patterns.dec()
         )
@@ -3054,19 +3062,19 @@ class Stream(BaseStream):
                  var.sink_multipat_cur_offsets, var.sink_multipat_size_bufs[0],
                  var.sink_multipat_stride_bufs[0], var.sink_multipat_counts[0]):
 
-            self.seq.If(var.sink_multipat_fsm.here, upcond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, self.oready)(
                 sink_multipat_cur_offset.add(sink_multipat_stride_buf),
                 sink_multipat_count.dec()
             )
 
             reset_cond = sink_multipat_count == 0
-            self.seq.If(var.sink_multipat_fsm.here, upcond, reset_cond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, reset_cond, self.oready)(
                 sink_multipat_cur_offset(0),
                 sink_multipat_count(sink_multipat_size_buf - 1)
             )
             upcond = make_condition(upcond, reset_cond)
 
-        fin_cond = upcond
+        fin_cond = make_condition(wcond, upcond)
 
         prev_offset = var.sink_multipat_offset_bufs[0]
         for multipat_offset_buf in var.sink_multipat_offset_bufs[1:]:
@@ -3091,6 +3099,14 @@ class Stream(BaseStream):
                 )
             prev_strides = multipat_strides
 
+        # the next pattern starts with its own sizes
+        if self.max_multipattern_length > 1:
+            for count, next_size in zip(var.sink_multipat_counts[0],
+                                        var.sink_multipat_size_bufs[1]):
+                self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                    count(next_size - 1)
+                )
+
         self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
             var.sink_multipat_num_patterns.dec()
         )
-- 
2.43.0


From 9ec54ede0169df088ceaeba85b407f1a6fff1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:41 +0000
Subject: [PATCH 60/80] fix: thread stream: one source or sink used with RAM,
 FIFO, immediate and empty settings in different runs

---
 veriloggen/thread/stream.py | 96 +++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 37 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 0ca45ca..0769620 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -29,6 +29,7 @@ mode_ram_pattern = vtypes.Int(1 << 1, mode_width, base=2)
 mode_ram_multipattern = vtypes.Int(1 << 2, mode_width, base=2)
 mode_ram_generator = vtypes.Int(1 << 3, mode_width, base=2)
 mode_fifo = vtypes.Int(1 << 4, mode_width, base=2)
+mode_ram = vtypes.Int((1 << 4) - 1, mode_width, base=2)
 
 generator_id_width = 16
 
@@ -200,6 +201,8 @@ class Stream(BaseStream):
         var.source_pat_fsm = None
         var.source_multipat_fsm = None
         var.source_generator_fsms = []
+        var.source_fifo_fsm = None
+        var.source_kinds = []
 
         var.source_idle = self.module.Reg('_%s_idle' % prefix, initval=1)
         self.source_idle_map[name] = var.source_idle
@@ -323,6 +326,8 @@ class Stream(BaseStream):
         data.sink_pat_fsm = None
         data.sink_multipat_fsm = None
         data.sink_generator_fsms = []
+        data.sink_fifo_fsm = None
+        data.sink_immediate_fsm = None
 
         data.sink_count = self.module.Reg('_%s_sink_count' % prefix,
                                           self.addrwidth + 1, initval=0)
@@ -1011,7 +1016,7 @@ class Stream(BaseStream):
             return
 
         source_start = vtypes.Ands(self.source_start, self.oready,
-                                   vtypes.Not(vtypes.Uor(vtypes.And(var.source_mode, mode_idle))))
+                                   var.source_mode == mode_idle)
 
         self.seq.If(source_start)(
             var.source_idle(1)
@@ -1021,8 +1026,30 @@ class Stream(BaseStream):
         wenable = vtypes.Ands(source_start, self.is_root)
         var.write(wdata, wenable)
 
+        if var.source_kinds:
+            # RAM or FIFO is also used in the other runs
+            self._write_source(var, wdata, 'empty')
+        else:
+            var.source_kinds.append('empty')
+
         var.has_source_empty = True
 
+    def _write_source(self, var, wdata, kind):
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+
+        if [k for k in var.source_kinds if k != kind]:
+            # the other kinds are used in the other runs
+            if kind == 'empty':
+                mode = (var.source_mode == mode_idle)
+            elif kind == 'fifo':
+                mode = vtypes.Uor(vtypes.And(var.source_mode, mode_fifo))
+            else:
+                mode = vtypes.Uor(vtypes.And(var.source_mode, mode_ram))
+            wenable = vtypes.Ands(wenable, mode)
+
+        var.source_kinds.append(kind)
+        var.write(wdata, wenable)
+
     def set_sink(self, fsm, name, ram, offset, size, stride=1, port=0):
         """ intrinsic method to assign RAM property to a sink stream """
         self._set_sink(fsm, name, ram, offset, size, stride, port)
@@ -2049,8 +2076,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, 'ram')
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
@@ -2154,8 +2180,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, 'ram')
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
@@ -2322,8 +2347,7 @@ class Stream(BaseStream):
                 )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, 'ram')
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
@@ -2450,8 +2474,7 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, 'ram')
 
         fsm_name = '_%s_source_generator_fsm_%d' % (prefix, generator_id)
         fsm = FSM(self.module, fsm_name, self.clock, self.reset,
@@ -2606,7 +2629,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_source_fifo(self, var, name):
-        if var.source_fsm is not None:
+        if var.source_fifo_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2618,8 +2641,7 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_fifo_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
-        var.write(wdata, wenable)
+        self._write_source(var, wdata, 'fifo')
 
         fsm_id = self.fsm_id_count
         self.fsm_id_count += 1
@@ -2627,34 +2649,34 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_source_fsm_%d' % (prefix, fsm_id)
-        var.source_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.source_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                              as_module=self.fsm_as_module)
 
-        var.source_fsm.If(source_start, self.oready).goto_next()
+        var.source_fifo_fsm.If(source_start, self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count(var.source_size_buf)
         )
 
-        var.source_fsm.If(self.oready).goto_next()
+        var.source_fifo_fsm.If(self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count.dec()
         )
-        self.seq.If(var.source_fsm.here, var.source_count == 1, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, var.source_count == 1, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(var.source_count == 1, self.oready).goto_init()
+        var.source_fifo_fsm.If(var.source_count == 1, self.oready).goto_init()
 
         # force flush
-        self.seq.If(var.source_fsm.here, self.source_stop, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.source_stop, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(self.source_stop, self.oready).goto_init()
+        var.source_fifo_fsm.If(self.source_stop, self.oready).goto_init()
 
     def _setup_sink_ram(self, ram, var, port, set_cond):
         if ram._id() in var.sink_id_map:
@@ -3276,7 +3298,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_sink_fifo(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_fifo_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3292,16 +3314,16 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_fifo_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, self.oready)(
             var.sink_count(var.sink_size),
             var.sink_size_buf(var.sink_size),
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_fifo_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3311,17 +3333,17 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, wcond, self.oready)(
             var.sink_fifo_wdata(rdata),
             var.sink_fifo_enq(1),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_fifo_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_fifo_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _synthesize_set_sink_immediate(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_immediate_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3337,15 +3359,15 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_immediate_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_immediate_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, self.oready)(
             var.sink_count(var.sink_size_buf)
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_immediate_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3355,13 +3377,13 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, wcond, self.oready)(
             var.sink_immediate(rdata),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_immediate_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_immediate_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _setup_read_ram(self, ram, var, port, set_cond):
         if ram._id() in var.read_ram_id_map:
-- 
2.43.0


From f8b742ed52d52811270f9ae3fea98ef913329b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:38 +0000
Subject: [PATCH 61/80] fix: thread stream: sink condition is ignored behind
 the last element of a run

---
 veriloggen/thread/stream.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 0769620..cc4abae 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2807,7 +2807,8 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            # the condition has no meaning behind the last element
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -2899,7 +2900,8 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            # the condition has no meaning behind the last element
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -3055,7 +3057,8 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            # the condition has no meaning behind the last element
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -3180,7 +3183,8 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            # the condition has no meaning behind the last element
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -3371,7 +3375,8 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            # the condition has no meaning behind the last element
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
-- 
2.43.0


From d0d96338bb41e1192e2e93981c2a83ede07794a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:39 +0000
Subject: [PATCH 62/80] fix: thread stream: join and run when the preceding run
 is still in the pipeline

---
 veriloggen/thread/stream.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index cc4abae..6246494 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -109,6 +109,10 @@ class Stream(BaseStream):
         self.stream_synthesized = False
         self.fsm_synthesized = False
 
+        self.overlap = False
+        self.overlap_synthesized = False
+        self.sink_busy_chain = []
+
         self.fsm = FSM(self.module, '_%s_fsm' %
                        self.name, self.clock, self.reset,
                        as_module=self.fsm_as_module)
@@ -1657,7 +1661,7 @@ class Stream(BaseStream):
         self._run(cond)
         fsm.goto_next()
 
-        fsm.If(self.busy).goto_next()
+        fsm.If(self._started()).goto_next()
 
         return 0
 
@@ -1674,6 +1678,9 @@ class Stream(BaseStream):
             self._synthesize_run()
             self.fsm_synthesized = True
 
+            if self.overlap:
+                self._enable_overlap()
+
         return 0
 
     def _synthesize_run(self):
@@ -1839,11 +1846,29 @@ class Stream(BaseStream):
         return vtypes.Not(self.busy)
 
     def source_join(self, fsm):
-        fsm.If(vtypes.Not(self.source_busy)).goto_next()
+        self._enable_overlap()
+        fsm.If(vtypes.Not(vtypes.Ors(self.source_busy, self.source_start))).goto_next()
         return 0
 
     def source_done(self, fsm):
-        return vtypes.Not(self.source_busy)
+        self._enable_overlap()
+        return vtypes.Not(vtypes.Ors(self.source_busy, self.source_start))
+
+    def _started(self):
+        # when the preceding run is still in the pipeline, 'busy' does not tell
+        if self.overlap:
+            return vtypes.Ands(self.busy, vtypes.Not(self.source_start))
+        return self.busy
+
+    def _enable_overlap(self):
+        """ a run can start before the preceding run is completed """
+        self.overlap = True
+
+        if self.sink_busy_chain and not self.overlap_synthesized:
+            self.overlap_synthesized = True
+            self.seq.If(vtypes.Ors(*self.sink_busy_chain))(
+                self.busy_reg(1)
+            )
 
     def sink_join(self, fsm):
         fsm.If(vtypes.Not(self.sink_busy)).goto_next()
@@ -1856,9 +1881,10 @@ class Stream(BaseStream):
         cond = self._set_flag(fsm)
 
         self._run(cond)
+        self._enable_overlap()
         fsm.If(vtypes.Not(self.source_busy)).goto_next()
 
-        fsm.If(self.busy).goto_next()
+        fsm.If(self._started()).goto_next()
 
         return 0
 
@@ -1916,6 +1942,7 @@ class Stream(BaseStream):
                 self.seq.If(self.oready, term)(
                     n(0)
                 )
+            self.sink_busy_chain.append(n)
             v = n
         return v
 
-- 
2.43.0


From 8cf5adb86f70001af0ae1257399604b94580e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:36 +0000
Subject: [PATCH 63/80] fix: stream: accumulators and counters with enable or
 interval: a reset restarts the counts, the interval goes on behind a
 completed window

---
 veriloggen/stream/stypes.py | 60 +++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 6516d0c..eb796f7 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3056,7 +3056,8 @@ class _Accumulator(_Operator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, interval_data.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3079,7 +3080,11 @@ class _Accumulator(_Operator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                # the interval goes on behind a completed window
+                if self.reset is not None:
+                    current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count))
+                else:
+                    current_interval_count.assign(interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3126,6 +3131,15 @@ class _Accumulator(_Operator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # elements without enable are also the beginning of a window
+            if self.enable is not None or self.interval is not None:
+                reset_count_cond = _and_vars(enable_cond, resetdata)
+                if self.size is not None:
+                    seq(count(0), cond=reset_count_cond)
+                    seq(prev_count_max(0), cond=reset_count_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=reset_count_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3239,7 +3253,8 @@ class ReduceMul(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, interval_data.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3262,7 +3277,11 @@ class ReduceMul(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                # the interval goes on behind a completed window
+                if self.reset is not None:
+                    current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count))
+                else:
+                    current_interval_count.assign(interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3292,6 +3311,15 @@ class ReduceMul(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # elements without enable are also the beginning of a window
+            if self.enable is not None or self.interval is not None:
+                reset_count_cond = _and_vars(enable_cond, resetdata)
+                if self.size is not None:
+                    seq(count(0), cond=reset_count_cond)
+                    seq(prev_count_max(0), cond=reset_count_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=reset_count_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3404,7 +3432,8 @@ class ReduceDiv(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, interval_data.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3427,7 +3456,11 @@ class ReduceDiv(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                # the interval goes on behind a completed window
+                if self.reset is not None:
+                    current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count))
+                else:
+                    current_interval_count.assign(interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3457,6 +3490,15 @@ class ReduceDiv(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # elements without enable are also the beginning of a window
+            if self.enable is not None or self.interval is not None:
+                reset_count_cond = _and_vars(enable_cond, resetdata)
+                if self.size is not None:
+                    seq(count(0), cond=reset_count_cond)
+                    seq(prev_count_max(0), cond=reset_count_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=reset_count_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3628,6 +3670,12 @@ class Counter(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # elements without enable also reset the count
+            if self.enable is not None or self.interval is not None:
+                seq(count(initval_data), cond=enable_reset_cond)
+                if self.interval is not None:
+                    seq(interval_count(0), cond=enable_reset_cond)
+
         seq(data(current_count), cond=enable_cond)
 
         if self.enable is not None:
-- 
2.43.0


From 34f14afd09424033cde18ec896b715f830776a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:36 +0000
Subject: [PATCH 64/80] fix: stream: the valid signal of an accumulator with an
 interval

---
 veriloggen/stream/stypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index eb796f7..5ec3427 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3770,7 +3770,7 @@ def _ReduceValid(cls, right, size, interval=None, initval=0,
 
     data = cls(right, size, interval, initval,
                enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=right, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=right, enable=enable, reset=reset)
 
     return data, valid
 
@@ -3828,7 +3828,7 @@ def ReduceCustomValid(ops, right, size, interval=None, initval=0,
 
     data = ReduceCustom(ops, right, size, interval, initval,
                         enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=right, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=right, enable=enable, reset=reset)
 
     return data, valid
 
@@ -3838,7 +3838,7 @@ def CounterValid(size, step=1, interval=None, initval=0, offset=None,
 
     data = Counter(size, step, interval, initval, offset,
                    dependency, enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=dependency, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=dependency, enable=enable, reset=reset)
 
     return data, valid
 
-- 
2.43.0


From ed747ecaa26649f3ce73ee448e01185b44182749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:36 +0000
Subject: [PATCH 65/80] fix: stream: ring buffers and scratchpads have the type
 of their data, not of the address

---
 veriloggen/stream/stypes.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 5ec3427..3a57aa8 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4225,6 +4225,12 @@ class RingBuffer(_SpecialOperator):
         self.graph_label = 'RingBufferIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # addresses and conditions do not determine the type of the value
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def read(self, offset, enable=None):
         var = _RingBufferOutput(self, offset, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4281,6 +4287,12 @@ class _RingBufferOutput(_SpecialOperator):
         self.graph_label = 'RingBufferOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # addresses and conditions do not determine the type of the value
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -4333,6 +4345,12 @@ class Scratchpad(_SpecialOperator):
         self.graph_label = 'ScratchpadIn'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # addresses and conditions do not determine the type of the value
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def read(self, addr, enable=None):
         var = _ScratchpadOutput(self, addr, self.num_ports, enable)
         self.read_vars.append(var)
@@ -4386,6 +4404,12 @@ class _ScratchpadOutput(_SpecialOperator):
         self.graph_label = 'ScratchpadOut'
         self.graph_shape = 'box'
 
+    def _set_attributes(self):
+        # addresses and conditions do not determine the type of the value
+        self.width = self.args[0].get_width()
+        self.point = self.args[0].get_point()
+        self.signed = self.args[0].get_signed()
+
     def _implement(self, m, seq, svalid=None, senable=None):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
-- 
2.43.0


From 63e82f2d4a3d037a1644f3b579467b5b5a7bd454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:36 +0000
Subject: [PATCH 66/80] fix: stream: ring buffer read position with bubbles
 between elements

---
 veriloggen/stream/stypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 3a57aa8..e69b963 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4307,7 +4307,7 @@ class _RingBufferOutput(_SpecialOperator):
         renable_base = _and_vars(svalid, senable)
         diff_latency = self.start_stage - self.buf.start_stage
 
-        raddr_base = seq.Prev(self.buf.waddr, diff_latency, cond=renable_base)
+        raddr_base = seq.Prev(self.buf.waddr, diff_latency, cond=senable)
         raddr_value = raddr_base + self.args[1].sig_data
         raddr_value = vtypes.Mux(raddr_value >= self.buf.length,
                                  raddr_value - self.buf.length, raddr_value)
-- 
2.43.0


From 73fe03fe59dd646e7858ddaee5e04eafd0714bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:11 +0000
Subject: [PATCH 67/80] fix: stream: ReduceArgMax and ReduceArgMin select the
 first element of a window that does not change the value, and follow the
 interval

---
 veriloggen/stream/stypes.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index e69b963..e81f550 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -5125,14 +5125,24 @@ class WriteFIFO(_SpecialOperator):
         return self.wdata
 
 
+def _arg_update(value, counter):
+    # the first element of a window is selected, even if the value does not change
+    changed = NotEq(value, value.prev(1))
+    changed.latency = 0
+    first = Eq(counter, 0)
+    first.latency = 0
+    update = Lor(changed, first)
+    update.latency = 0
+    return update
+
+
 def ReduceArgMax(right, size=None, interval=None, initval=0,
                  enable=None, reset=None, reg_initval=None, width=32, signed=True):
 
     _max = ReduceMax(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
+    counter = Counter(size, interval=interval, dependency=right, enable=enable, reset=reset)
+    update = _arg_update(_max, counter)
     index = Predicate(counter, update)
     return index, _max
 
@@ -5142,9 +5152,8 @@ def ReduceArgMin(right, size=None, interval=None, initval=0,
 
     _min = ReduceMin(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
+    counter = Counter(size, interval=interval, dependency=right, enable=enable, reset=reset)
+    update = _arg_update(_min, counter)
     index = Predicate(counter, update)
     return index, _min
 
@@ -5154,9 +5163,8 @@ def ReduceArgMaxValid(right, size=None, interval=None, initval=0,
 
     _max, valid = ReduceMaxValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
+    counter = Counter(size, interval=interval, dependency=right, enable=enable, reset=reset)
+    update = _arg_update(_max, counter)
     index = Predicate(counter, update)
     return index, _max, valid
 
@@ -5166,9 +5174,8 @@ def ReduceArgMinValid(right, size=None, interval=None, initval=0,
 
     _min, valid = ReduceMinValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
+    counter = Counter(size, interval=interval, dependency=right, enable=enable, reset=reset)
+    update = _arg_update(_min, counter)
     index = Predicate(counter, update)
     return index, _min, valid
 
-- 
2.43.0


From 5159564bfa7994b5987bb0e8d358393356543218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 68/80] fix: from_verilog: continuous assignments with a delay
 can be read

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index f4a98fb..5418756 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -596,9 +596,9 @@ class VerilogReadVisitor(object):
         left = self.visit(node.left)
         right = self.visit(node.right)
         ldelay = self.visit(
-            node.ldelay.value) if node.ldelay is not None else None
+            node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
-            node.rdelay.value) if node.rdelay is not None else None
+            node.rdelay.delay) if node.rdelay is not None else None
         subst = vtypes.Subst(left, right, ldelay=ldelay, rdelay=rdelay)
         assign = vtypes.Assign(subst)
         self.add_object(assign)
-- 
2.43.0


From e63a1e7c20e07d05f5902c1945ad1f1f67c3f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 69/80] fix: from_verilog: the default item of a case statement
 can be anywhere

---
 veriloggen/verilog/from_verilog.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 5418756..ce6482a 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -690,18 +690,24 @@ class VerilogReadVisitor(object):
 
     def visit_CaseStatement(self, node):
         comp = self.visit(node.comp)
-        statement = tuple([self.visit(case) for case in node.caselist])
+        statement = self._visit_caselist(node.caselist)
         case = vtypes.Case(comp)
         case = case(*statement)
         return case
 
     def visit_CasexStatement(self, node):
         comp = self.visit(node.comp)
-        statement = tuple([self.visit(case) for case in node.caselist])
+        statement = self._visit_caselist(node.caselist)
         case = vtypes.Casex(comp)
         case = case(*statement)
         return case
 
+    def _visit_caselist(self, caselist):
+        statement = [self.visit(case) for case in caselist]
+        # the default item can be anywhere, while When() without condition must be last
+        statement.sort(key=lambda when: when.condition is None)
+        return tuple(statement)
+
     def visit_Case(self, node):
         condition = tuple([self.visit(c)
                            for c in node.cond]) if node.cond else [None]
-- 
2.43.0


From 164e40167b6de2ab04cf1d58fe83edd099b4ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 70/80] fix: from_verilog: the statements of a function or task
 are not repeated

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index ce6482a..cd8fa31 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -803,7 +803,7 @@ class VerilogReadVisitor(object):
                         t.raw_width = d.raw_width
                         t.raw_dims = d.raw_dims
                     else:
-                        body.append(s)
+                        body.append(d)
             else:
                 body.append(s)
 
@@ -846,7 +846,7 @@ class VerilogReadVisitor(object):
                         t.raw_width = d.raw_width
                         t.raw_dims = d.raw_dims
                     else:
-                        body.append(s)
+                        body.append(d)
             else:
                 body.append(s)
 
-- 
2.43.0


From 04069baf9273bd0d33913d70b564d6a22e034c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 71/80] fix: from_verilog: generate-if and generate-for in the
 else part of a generate-if

---
 veriloggen/verilog/from_verilog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index cd8fa31..864f3dc 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -655,7 +655,7 @@ class VerilogReadVisitor(object):
         return vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
 
     def visit_IfStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateIf(node)
         condition = self.visit(node.cond)
         true_statement = self.visit(node.true_statement)
@@ -671,7 +671,7 @@ class VerilogReadVisitor(object):
         return _if
 
     def visit_ForStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateFor(node)
         pre = self.visit(node.pre)
         condition = self.visit(node.cond)
-- 
2.43.0


From a015330d680d4cdadc91a9eada1a744695ca9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 72/80] fix: from_verilog: both branches of a generate-if can
 assign the same variable

---
 veriloggen/verilog/from_verilog.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 864f3dc..480e604 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -599,8 +599,16 @@ class VerilogReadVisitor(object):
             node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
             node.rdelay.delay) if node.rdelay is not None else None
+        others = None
+        if isinstance(self.m, module.Generate) and isinstance(left, vtypes._Variable):
+            # only one branch of a generate-if exists: every branch can assign it
+            others = (left.subst, left.assign_value)
+            left.subst, left.assign_value = [], None
         subst = vtypes.Subst(left, right, ldelay=ldelay, rdelay=rdelay)
         assign = vtypes.Assign(subst)
+        if others is not None and others[0]:
+            left.subst = others[0] + left.subst
+            left.assign_value = others[1]
         self.add_object(assign)
         return assign
 
-- 
2.43.0


From fbdf18bceada453ae7dbd9f4a4156d26e671c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 73/80] fix: to_verilog: delays of assignments in always blocks

---
 veriloggen/verilog/to_verilog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index db0f713..fcf2afd 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -908,8 +908,10 @@ class VerilogAlwaysVisitor(VerilogCommonVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
-        ldelay = self.visit(node.ldelay) if node.ldelay else None
-        rdelay = self.visit(node.rdelay) if node.rdelay else None
+        ldelay = vast.DelayStatement(self.visit(
+            node.ldelay)) if node.ldelay else None
+        rdelay = vast.DelayStatement(self.visit(
+            node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
         if node.blk:
-- 
2.43.0


From d67df16920b41b2517c7c3e60e9c5941311c217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 74/80] fix: to_verilog: unconnected ports of instances

---
 veriloggen/verilog/to_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index fcf2afd..bef0229 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -850,7 +850,7 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
             name = self.module_names.get(node.module, name)
         parameterlist = [vast.ParamArg(
             p, self.bind_visitor.visit(a)) for p, a in node.params]
-        portlist = [vast.PortArg(p, self.bind_visitor.visit(a))
+        portlist = [vast.PortArg(p, self.bind_visitor.visit(a) if a is not None else None)
                     for p, a in node.ports]
         instance = vast.Instance(name, node.instname, portlist, parameterlist)
         return vast.InstanceList(name, parameterlist, (instance,))
-- 
2.43.0


From bcc5c841e3b9ad8ad8245b13f235bf0beea0e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:55 +0000
Subject: [PATCH 75/80] fix: from_verilog: real constants can be read

---
 veriloggen/verilog/from_verilog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 480e604..e935ed3 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -260,7 +260,7 @@ class VerilogReadVisitor(object):
         return vtypes.Int(node.value)
 
     def visit_FloatConst(self, node):
-        return vtypes.Float(node.value)
+        return vtypes.Float(float(node.value))
 
     def visit_StringConst(self, node):
         return vtypes.Str(node.value)
-- 
2.43.0


From 122c9f2db3d9a8580e33710dd78e47edb462b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:55 +0000
Subject: [PATCH 76/80] fix: from_verilog: event controls and null statements
 can be read

---
 veriloggen/verilog/from_verilog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index e935ed3..b45c1da 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -735,7 +735,10 @@ class VerilogReadVisitor(object):
         return initial
 
     def visit_EventStatement(self, node):
-        sensitivity = self.visit(node.sens_list)
+        sensitivity = self.visit(node.senslist)
+        if all([isinstance(sens, vtypes.SensitiveAll) for sens in sensitivity]):
+            # the parser represents the null statement as an event of everything
+            return []
         event = vtypes.Event(*sensitivity)
         return event
 
-- 
2.43.0


From d897672227edddbefee954865ee395f32ececdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:55 +0000
Subject: [PATCH 77/80] fix: from_verilog: the initial value of a declared
 variable is not a continuous assignment

---
 veriloggen/verilog/from_verilog.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index b45c1da..6562753 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -408,7 +408,18 @@ class VerilogReadVisitor(object):
         return param
 
     def visit_Decl(self, node):
-        decl = [self.visit(d) for d in node.list]
+        decl = []
+        for d in node.list:
+            if (isinstance(d, vast.Assign) and decl and
+                    isinstance(decl[-1], (vtypes.Reg, vtypes.Integer))):
+                # the initial value of a variable
+                left = self.visit(d.left)
+                right = self.visit(d.right)
+                d = vtypes.Initial(vtypes.Subst(left, right, blk=True))
+                self.add_object(d)
+                decl.append(d)
+                continue
+            decl.append(self.visit(d))
         return decl
 
     def visit_Concat(self, node):
-- 
2.43.0


From ca75d55af19289967d53e66f97ed055854666c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:19 +0000
Subject: [PATCH 78/80] fix: from_verilog: hierarchical names through
 instances, and in functions

---
 veriloggen/verilog/from_verilog.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 6562753..90a084f 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -227,16 +227,18 @@ class VerilogReadVisitor(object):
         if node.scope is not None:
             labels = self.visit(node.scope)
 
-            if not isinstance(self.m, (module.Module, ReadOnlyModule)):
-                lables.append(vtypes.AnyType(name=node.name))
-                return vtypes.Scope(*labels)
-
-            m = self.m
+            m = self.m if isinstance(self.m, (module.Module, ReadOnlyModule)) else None
             for label in labels:
+                if m is None:
+                    break
                 name = label.name if isinstance(label, vtypes.ScopeIndex) else label
                 m = m.find_identifier(name)
+                if isinstance(m, module.Instance):
+                    m = m.module
+                if not isinstance(m, module.Module):
+                    m = None
 
-            v = m.find_identifier(node.name)
+            v = m.find_identifier(node.name) if m is not None else None
             if v is None:
                 labels.append(vtypes.AnyType(name=node.name))
             elif v.name in m.variable:
-- 
2.43.0


From 8aab7073c6d2dfdab52f94350f01199e9d99f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 79/80] fix: thread: a part of a shared value given as (msb,
 lsb) can be written

---
 veriloggen/thread/ttypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ttypes.py b/veriloggen/thread/ttypes.py
index 2226820..9b3097e 100644
--- a/veriloggen/thread/ttypes.py
+++ b/veriloggen/thread/ttypes.py
@@ -319,7 +319,7 @@ class Shared(_MutexFunction):
 
         def getval(v, p):
             if isinstance(p, (tuple, list)):
-                return v[p[0], p[1]]
+                return vtypes.Slice(v, p[0], p[1])
             return v[p]
 
         if len(part) == 0:
-- 
2.43.0


From 098330a82e7243e6bfdd717ff0c85ee2a64fed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:06 +0000
Subject: [PATCH 80/80] fix: copied ports and variables are not driven by the
 driver of the original

---
 veriloggen/core/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index 435924c..798c374 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -811,6 +811,8 @@ class Module(vtypes.VeriloggenNode):
             if skip:
                 continue
             copy_obj = copy.deepcopy(obj)
+            copy_obj.subst = []  # a copy is not driven yet
+            copy_obj.assign_value = None
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.signed = obj.signed
@@ -908,6 +910,8 @@ class Module(vtypes.VeriloggenNode):
             if skip:
                 continue
             copy_obj = copy.deepcopy(obj)
+            copy_obj.subst = []  # a copy is not driven yet
+            copy_obj.assign_value = None
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.signed = obj.signed
-- 
2.43.0

