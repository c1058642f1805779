From 64d9a53fdc9ce7a4503495fcf35758b7c7232f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:13 +0000
Subject: [PATCH 01/77] fix: keep the jump of a negated block that only
 contains a jump

The headers of a negated block jump over it, so they must not be
retargeted to the jump inside of it.
---
 .../ssb_converting/compiler/compile_handlers/abstract.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..7986091 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -149,8 +149,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         This processes the sub-block and returns the generated sub-block opcodes.
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
-            - If the sub-block only has one single label jump, it's removed and the target
-              of the headers is changed to the target of that jump
+            - If the sub-block only has one single label jump and all headers jump into the block (are not
+              negated), it's removed and the target of the headers is changed to the target of that jump
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -174,6 +174,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
         ):
             # Just has a jump, insert that into the headers instead
             for hjb in self._header_jump_blueprints:
-- 
2.43.0


From 3331985cc2ef06b451f589b895f3c3711583ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:06 +0000
Subject: [PATCH 02/77] fix: emit an op for labels at the end of a routine that
 need one

strip_last_label replaced branches, cases and calls to the end of a routine
with an unconditional Return, ignored jumps from other routines and crashed
for routines that only contain labels. Such routines now end with a Return.
---
 .../compiler/compile_handlers/abstract.py     | 19 ++++++++--
 .../compile_handlers/functions/coro_def.py    |  2 +-
 .../functions/for_target_def.py               |  2 +-
 .../compile_handlers/functions/simple_def.py  |  2 +-
 .../ssb_converting/compiler/utils.py          | 35 +++++++++++++++----
 5 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 7986091..37b90e5 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -33,9 +33,14 @@ else:
 
 from antlr4 import ParserRuleContext
 
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
+from explorerscript.ssb_converting.compiler.utils import (
+    CompilerCtx,
+    SsbLabelJumpBlueprint,
+    does_op_end_control_flow,
+    last_label_needs_op,
+)
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_DUMMY_END, OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
@@ -262,6 +267,16 @@ class AbstractFuncdefCompileHandler(AbstractCompileHandler[CTX, AbstractCompileH
             ops += ops_of_h
         return ops
 
+    def collect_routine_ops(self) -> list[SsbOperation]:
+        """
+        Collects all operations in a routine. If the routine ends with a label which needs an operation to point to
+        (because not only simple jumps in this routine use it), the routine is closed with an OP_DUMMY_END.
+        """
+        ops = self.collect_ops()
+        if last_label_needs_op(ops):
+            ops.append(self._generate_operation(OP_DUMMY_END, []))
+        return ops
+
     @abstractmethod
     def get_new_routine_id(self, old_id: int) -> int:
         pass
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
index 60a6641..680b405 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/coro_def.py
@@ -32,7 +32,7 @@ from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRout
 class CoroDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Coro_defContext]):
     def collect(self) -> Any:
         """Collects name of the coroutine, routine info and operations."""
-        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_ops()
+        return str(self.ctx.IDENTIFIER()), SsbRoutineInfo(SsbRoutineType.COROUTINE, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return old_id + 1
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index f8cf6c0..42a5366 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -67,7 +67,7 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         else:
             raise SsbCompilerError("A targeted routine must be 'for' an 'actor', 'object' or 'performer'.")
 
-        return routine_info, self.collect_ops()
+        return routine_info, self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
index adc1168..a0d1ac5 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/simple_def.py
@@ -33,7 +33,7 @@ from explorerscript.util import exps_int
 class SimpleDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.Simple_defContext]):
     def collect(self) -> Any:
         """Collects routine info and operations."""
-        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_ops()
+        return SsbRoutineInfo(SsbRoutineType.GENERIC, 0), self.collect_routine_ops()
 
     def get_new_routine_id(self, old_id: int) -> int:
         return exps_int(str(self.ctx.INTEGER()))
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..0c3490f 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -38,6 +38,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
     OPS_THAT_END_CONTROL_FLOW,
     OP_DUMMY_END,
+    OP_JUMP,
     OPS_CTX,
 )
 from explorerscript.util import f, _
@@ -252,6 +253,28 @@ def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> boo
     return True
 
 
+def last_label_needs_op(routine: list[SsbOperation]) -> bool:
+    """
+    Whether or not any of the labels at the end of the routine has to be followed by an operation. This is not
+    the case if they are only used by simple jumps in the same routine (these are replaced in strip_last_label).
+    """
+    first_label = len(routine)
+    while first_label > 0 and isinstance(routine[first_label - 1], SsbLabel):
+        first_label -= 1
+    last_labels: list[SsbLabel] = routine[first_label:]  # type: ignore
+    if len(last_labels) == 0:
+        return False
+    if first_label == 0 or any(label.original_name is not None for label in last_labels):
+        # Without any ops the routine would be an alias. Named labels may be used by other routines.
+        return True
+    last_label_ids = {label.id for label in last_labels}
+    for op_i, op in enumerate(routine):
+        if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id in last_label_ids:
+            if op.root.op_code.name != OP_JUMP or (op_i > 0 and routine[op_i - 1].op_code.name in OPS_CTX):
+                return True
+    return False
+
+
 def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
     """
     Checks if the last opcode of a routine is a label, and if so
@@ -259,13 +282,13 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
     """
     logger.debug("Stripping last label...")
     returned_routine_ops = []
+    jump_counts: dict[int, int] = {}
+    for routine in routine_ops:
+        for op in routine:
+            if isinstance(op, SsbLabelJump) and op.label is not None:
+                jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
     for routine in routine_ops:
         if len(routine) > 0:
-            jump_counts: dict[int, int] = {}
-            for op in routine:
-                if isinstance(op, SsbLabelJump) and op.label is not None:
-                    jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
-
             while isinstance(routine[-1], SsbLabel):
                 indices_to_remove = set()
                 label = routine[-1]
@@ -284,7 +307,7 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
                     else:
                         if isinstance(op, SsbLabel):
                             # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
+                            if jump_counts.get(op.id, 0) > 0:
                                 op_before_ends_control_flow = False
                         else:
                             op_before_ends_control_flow = does_op_end_control_flow(
-- 
2.43.0


From 758209f43dd1d3886d9e7963405b8a4e5ef23476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:06 +0000
Subject: [PATCH 03/77] fix: keep the jump of a case that is entered by
 fall-through

A case which only contains a jump was removed and its header retargeted,
so the case before it fell through into the case after it.
---
 .../ssb_converting/compiler/compile_handlers/abstract.py   | 6 +++++-
 .../compile_handlers/blocks/switches/switch_block.py       | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 37b90e5..580e465 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -140,6 +140,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
     processed_header_jumps: list[SsbLabelJump]
     start_label: SsbLabel | None
     end_label: SsbLabel | None
+    # Whether or not the block is also entered from the op before it, without using one of the headers.
+    entered_by_fallthrough: bool
 
     def __init__(self, ctx: CTX, compiler_ctx: CompilerCtx):
         super().__init__(ctx, compiler_ctx)
@@ -148,6 +150,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self._added_handlers = []
         self.start_label = None
         self.end_label = None
+        self.entered_by_fallthrough = False
 
     def _process_block(self, insert_the_jump_if_needed: bool = True) -> list[SsbOperation]:
         """
@@ -155,7 +158,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
             - If the sub-block only has one single label jump and all headers jump into the block (are not
-              negated), it's removed and the target of the headers is changed to the target of that jump
+              negated) and it's not entered in another way, it's removed and the target of the headers is changed to the target of that jump
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -180,6 +183,7 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
             and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
+            and not self.entered_by_fallthrough
         ):
             # Just has a jump, insert that into the headers instead
             for hjb in self._header_jump_blueprints:
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 4e3ada4..88fb3ec 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.def
 from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.switch_header import (
     SwitchHeaderCompileHandler,
 )
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
@@ -105,13 +105,18 @@ class SwitchBlockCompileHandler(
             default_ops = [self._generate_jump_operation(OP_JUMP, [], end_label)]
         # 3. For each case:
         cases_waiting_for_a_block = []
+        falls_through = False
         for i, h in enumerate(self._case_handlers):
             if not h.has_sub_block_handlers():
                 # 3b. Else: Jump to the block of the next case which has a block.
                 cases_waiting_for_a_block.append(h)
             else:
                 # 3a. If the case has operations: Collect case sub-block ops
+                h.entered_by_fallthrough = falls_through
                 ops = h.collect()
+                if len(ops) > 1:
+                    # The last op is the end label.
+                    falls_through = not does_op_end_control_flow(ops[-2], ops[-3] if len(ops) > 2 else None)
                 start_label = h.get_start_label()
                 assert start_label is not None
                 if isinstance(h, DefaultCaseBlockCompileHandler):
-- 
2.43.0


From 04628b3e52bd506982545b2f3481287f230a8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:36 +0000
Subject: [PATCH 04/77] fix: only treat simple jumps to the next label as
 redundant

A branch or call to the label right after it is not removed, so a jump
before it must not be removed either.
---
 explorerscript/ssb_converting/compiler/label_finalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..35b8680 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -75,7 +75,7 @@ class LabelFinalizer:
                     # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
                     have_match = False
-                    if skip_redundant_label_jumps:
+                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From 46d38ed8f25471f4a2c5662964193051aae386dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:23 +0000
Subject: [PATCH 05/77] fix: raise a compiler error for routines that are not
 in order

The assertion was outside of the block that converts assertion errors.
---
 explorerscript/ssb_converting/ssb_compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..310340e 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -236,7 +236,8 @@ class ExplorerScriptSsbCompiler:
         except AssertionError as e:
             raise ValueError(str(e)) from e
 
-        assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
+        if not routine_op_offsets_are_ordered(compiler_visitor.routine_ops):
+            raise SsbCompilerError(_("The routines must be defined in the order of their IDs."))
 
         # Copy from listener / remove labels and label jumps
         label_finalizer = LabelFinalizer(strip_last_label(compiler_visitor.routine_ops))
-- 
2.43.0


From 1c4536f93e12cbf22751be9049a6665a6cac1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 06/77] fix: sort macros topologically

The breadth-first order could place a macro before one it calls, which
then was not found. Checking all simple paths for cycles also took
exponential time.
---
 .../compiler_visitor/macro_resolution_order.py    | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..ee1f72f 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -51,16 +51,8 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        # The edges go from the called macro to the calling macro, so all macros come after the ones they call.
+        return [self._dependency_graph.vs[i]["name"] for i in self._dependency_graph.topological_sorting()]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
@@ -101,5 +93,4 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
                 )
 
     def _has_path(self, a: Vertex | int, b: Vertex) -> bool:
-        # TODO: can be done more efficiently
-        return len(b.graph.get_all_simple_paths(a, b)) > 0
+        return b.index in b.graph.subcomponent(a, mode="out")
-- 
2.43.0


From 921e39852e925d44c3b280bf201620fe13352f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 07/77] fix: reject routines in imported files

The check parsed the already consumed token stream again and never found
any routine.
---
 explorerscript/ssb_converting/ssb_compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 310340e..10b71ab 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -165,7 +165,6 @@ class ExplorerScriptSsbCompiler:
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -215,7 +214,7 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
+            if HasRoutinesVisitor().visit(tree):
                 # noinspection PyUnusedLocal
                 fn = os.path.basename(file_name)  # noqa
                 raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
-- 
2.43.0


From f1a77501c64db3a0c17c0e8ade80c265b6182a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 08/77] fix: keep the file of macros that are imported over
 multiple files

---
 explorerscript/ssb_converting/ssb_compiler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 10b71ab..07fa097 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -293,7 +293,11 @@ class ExplorerScriptSsbCompiler:
     ) -> dict[str, ExplorerScriptMacro]:
         """Updates path information of all of the macros. See the field descriptions for more details"""
         for macro in macros.values():
-            macro.included__absolute_path = subfile_path
-            if basefile_path is not None:
-                macro.included__relative_path = os.path.relpath(subfile_path, os.path.dirname(basefile_path))
+            # If the path is already set, then the subfile itself imported this macro from another file.
+            if macro.included__absolute_path is None:
+                macro.included__absolute_path = subfile_path
+            if basefile_path is not None and macro.included__relative_path is None:
+                macro.included__relative_path = os.path.relpath(
+                    macro.included__absolute_path, os.path.dirname(basefile_path)
+                )
         return macros
-- 
2.43.0


From a59c11376bbd2efbcb9ed2c3d3796dca1538ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:09 +0000
Subject: [PATCH 09/77] fix: only add the position marks of called macros to
 the source map

Every call added the marks of all macros in the file of the called macro,
under the name of the called macro, and marks of macros called by an
imported macro lost their file.
---
 explorerscript/macro.py                                |  7 +++++--
 explorerscript/source_map.py                           | 10 ++++++++--
 .../compiler/compiler_visitor/macro_visitor.py         |  9 ++++++++-
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 4aef2b6..a7f2575 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -164,8 +164,11 @@ class ExplorerScriptMacro:
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
-        for m in self.source_map.get_position_marks__macros():
-            smb.add_macro_position_mark(*m)
+        for file_path, macro_name, pos_mark in self.source_map.get_position_marks__macros():
+            # If the file path was None, then it's OUR file.
+            smb.add_macro_position_mark(
+                self.included__relative_path if file_path is None else file_path, macro_name, pos_mark
+            )
 
         out_ops.append(end_label)
 
diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..a356445 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -444,5 +444,11 @@ class SourceMapBuilder:
         # logger.debug("<%d>: Adding Macro PositionMark: %s:%s - %s", id(self), if_incl_rel_path, macro_name, position_mark)
         return self
 
-    def build(self) -> SourceMap:
-        return SourceMap(self._mappings, self._pos_marks, self._mappings_macros, self._pos_marks_macros)
+    def build(self, first_pos_mark: int = 0, first_pos_mark_macros: int = 0) -> SourceMap:
+        """Builds the source map. Position marks added before the given indices are not included."""
+        return SourceMap(
+            self._mappings,
+            self._pos_marks[first_pos_mark:],
+            self._mappings_macros,
+            self._pos_marks_macros[first_pos_mark_macros:],
+        )
diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..f69cdab 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -75,6 +75,11 @@ class MacroVisitor(ExplorerScriptVisitor):
 
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
+        # The source map builder is shared by all macros in the file, the macro must only get it's own position marks.
+        file_source_map = self.source_map_builder.build()
+        first_pos_mark = len(file_source_map.get_position_marks__direct())
+        first_pos_mark_macros = len(file_source_map.get_position_marks__macros())
+
         self._root_handler = macrodef_handler
         self.visitChildren(macrodef_handler.ctx)
 
@@ -82,7 +87,9 @@ class MacroVisitor(ExplorerScriptVisitor):
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
-        return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
+        return ExplorerScriptMacro(
+            name, variables, blueprints, self.source_map_builder.build(first_pos_mark, first_pos_mark_macros)
+        )
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
         raise SsbCompilerError(_("Macros can not alias."))
-- 
2.43.0


From 6590eaac568bbaa44dbe207c627fc9fb15280d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 10/77] fix: use the performance ops for bit operations on
 macro variables

---
 explorerscript/macro.py                       | 38 +++++++++++++++++--
 .../compile_handlers/operations/macro_call.py |  1 +
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index a7f2575..3c263b3 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -29,7 +29,16 @@ from typing import MutableSequence
 from explorerscript.source_map import SourceMap, SourceMapBuilder
 from explorerscript.ssb_converting.compiler.utils import Counter
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpParamConstant, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_RETURN, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import (
+    SsbLabel,
+    SsbLabelJump,
+    OP_BRANCH_BIT,
+    OP_BRANCH_PERFORMANCE,
+    OP_JUMP,
+    OP_RETURN,
+    OPS_FLAG__CALC_BIT,
+    OPS_FLAG__SET_PERFORMANCE,
+)
 from explorerscript.util import f, _
 
 
@@ -92,11 +101,13 @@ class ExplorerScriptMacro:
         lbl_idx_counter: Counter,
         parameters: dict[str, SsbOpParam],
         smb: SourceMapBuilder,
+        performance_progress_list_var_name: str | None = None,
     ) -> list[SsbOperation]:
         """
         Returns new built opcodes for this macro. SsbOpConstants in the blueprints, that have the names of variables,
         are replaced with the values from the parameter dict. The keys for the dict are the names of the variables,
-        all must be defined.
+        all must be defined. Bit operations on a variable that turns out to be the performance progress list variable
+        are replaced with the operations for it.
         Also updates the source map with macro opcode / position mark entries.
         """
         # Check:
@@ -150,6 +161,7 @@ class ExplorerScriptMacro:
                     new_labels[blueprint_op.label.id] = self._copy_blueprint_label(lbl_idx_counter, blueprint_op.label)
                     new_labels[blueprint_op.label.id].markers = blueprint_op.label.markers.copy()
                 new_root = self._build_op(op_idx_counter, blueprint_op.root, smb, parameters)
+                self._convert_performance_op(blueprint_op.root, new_root, performance_progress_list_var_name)
                 new_jumps = SsbLabelJump(new_root, new_labels[blueprint_op.label.id])
                 new_jumps.markers = blueprint_op.markers.copy()
                 out_ops.append(new_jumps)
@@ -160,7 +172,9 @@ class ExplorerScriptMacro:
                     SsbLabelJump(self._build_op(op_idx_counter, replacement_blueprint_op, smb, parameters), end_label)
                 )
             else:
-                out_ops.append(self._build_op(op_idx_counter, blueprint_op, smb, parameters))
+                new_op = self._build_op(op_idx_counter, blueprint_op, smb, parameters)
+                self._convert_performance_op(blueprint_op, new_op, performance_progress_list_var_name)
+                out_ops.append(new_op)
         for pos_mark in self.source_map.get_position_marks__direct():
             smb.add_macro_position_mark(self.included__relative_path, self.name, pos_mark)
         # Also add the sub-macro position marks to the map
@@ -210,6 +224,24 @@ class ExplorerScriptMacro:
             smb.add_macro_opcode(new_op_idx, self.included__relative_path, self.name, mapping.line, mapping.column)
         return SsbOperation(new_op_idx, blueprint_op.op_code, self._process_parameters(blueprint_op.params, params))
 
+    def _convert_performance_op(
+        self, blueprint_op: SsbOperation, new_op: SsbOperation, performance_progress_list_var_name: str | None
+    ) -> None:
+        """
+        If the variable of a bit operation is a macro variable, it's only known now whether or not it is the
+        performance progress list variable, which has its own operations.
+        """
+        if not new_op.params or str(new_op.params[0]) != performance_progress_list_var_name:
+            return
+        if str(blueprint_op.params[0]) == performance_progress_list_var_name:
+            return
+        if new_op.op_code.name == OPS_FLAG__CALC_BIT:
+            new_op.op_code = SsbOpCode(-1, OPS_FLAG__SET_PERFORMANCE)
+            new_op.params = new_op.params[1:]
+        elif new_op.op_code.name == OP_BRANCH_BIT:
+            new_op.op_code = SsbOpCode(-1, OP_BRANCH_PERFORMANCE)
+            new_op.params = [*new_op.params[1:], 1]
+
     def _process_parameters(
         self, original_params: MutableSequence[SsbOpParam], macro_params: dict[str, SsbOpParam]
     ) -> list[SsbOpParam]:
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
index 40cc6f3..d6926af 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
@@ -55,6 +55,7 @@ class MacroCallCompileHandler(
             self.compiler_ctx.counter_labels,
             dict(zip(macro.variables, args)),
             self.compiler_ctx.source_map_builder,
+            self.compiler_ctx.performance_progress_list_var_name,
         )
 
     def add(self, obj: ArgListCompileHandler) -> None:
-- 
2.43.0


From 12d9aa7c16ad84508e6d7047d12c646d6ac10bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 11/77] fix: keep trailing new lines and other separators in
 multi line strings

---
 explorerscript/ssb_converting/compiler/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 0c3490f..58d0810 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -204,13 +204,12 @@ def singleline_string_literal(string: str) -> str:
 
 def multiline_string_literal(string: str) -> str:
     string = str(string)[3:-3]
-    all_lines = string.splitlines()
+    # Only new lines split lines (unlike splitlines does it). The text behind the last new line is always a line.
+    all_lines = string.replace("\r\n", "\n").split("\n")
     lines: list[str] = []
     last_line = ""
 
-    if len(all_lines) == 0:
-        first_line = ""
-    elif len(all_lines) == 1:
+    if len(all_lines) == 1:
         first_line = all_lines[0]
     elif len(all_lines) == 2:
         first_line = all_lines[0]
-- 
2.43.0


From 3c770db7aacee75b53620e6bbec081dd1ac62819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 12/77] fix: print strings and position mark names so that they
 are read back the same

---
 .../ssb_converting/ssb_data_types.py          | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..71a0b80 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -24,6 +24,7 @@
 #
 from __future__ import annotations
 
+import re
 import string
 from enum import Enum
 from typing import Union, MutableSequence
@@ -49,15 +50,28 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
         preferred_multiline_quote = '"""'
         secondary_multiline_quote = "'''"
 
+    multiline_quotes = [q for q in (preferred_multiline_quote, secondary_multiline_quote) if q not in string]
+    single_line = f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
+
     if "\n" not in string:
-        # Single line string
-        return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
-    if preferred_multiline_quote in string:
-        if secondary_multiline_quote in string:
-            # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
-            return f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
-        return _repr_multiline_string(string, indent, secondary_multiline_quote)
-    return _repr_multiline_string(string, indent, preferred_multiline_quote)
+        if not _needs_multiline_string(string):
+            # Single line string
+            return single_line
+        if multiline_quotes:
+            # Nothing is escaped in multi line strings. The first line is kept as it is.
+            quote = multiline_quotes[0]
+            nl_if_quote = "\n" if string.endswith(quote[0]) else ""
+            return f"{quote}{string}{nl_if_quote}{quote}"
+    elif multiline_quotes and not all(line.startswith(" ") for line in string.split("\n")):
+        return _repr_multiline_string(string, indent, multiline_quotes[0])
+    # Multi line strings can't contain their own quotes and lose the indent that is shared by all lines.
+    # We fall back to single line string representation.
+    return single_line
+
+
+def _needs_multiline_string(string: str) -> bool:
+    """Whether or not the string contains something that is not read back the same in a single line string."""
+    return re.search(r"\\[n\"']|\\\Z|[\r\f]", string) is not None
 
 
 def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
@@ -306,7 +320,8 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        return f"Position<'{self.name}', {self.x_final}, {self.y_final}>"
+        name = escape_newlines(escape_quotes(self.name, which_quotes="'"))
+        return f"Position<'{name}', {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From f144a1fc3175954b25371d1d5885599041646c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:36 +0000
Subject: [PATCH 13/77] fix: reject position mark decimals like .05

---
 explorerscript/common_syntax.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index aebd3ee..fc513d1 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -39,18 +39,16 @@ def parse_position_marker_arg(
         decimal_parts = str(ctx.DECIMAL()).split(".")
 
         if len(decimal_parts) == 1:  # .XXXXX
-            dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            dec_part = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
         elif len(decimal_parts) == 2:  # XXXXX.YYYYY
             pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
-            dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+            dec_part = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
         else:
             raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
 
-        if dec_part == 5:
+        if dec_part == "5":
             offset = 2
-        elif dec_part == 0:
+        elif dec_part == "":
             offset = 0
         else:
             raise SsbCompilerError(
-- 
2.43.0


From da53f4c9ea33cb2c13134f3279d5988765e10723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 14/77] fix: reject operations that jump as statements

---
 .../compiler/compile_handlers/operations/operation.py    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py
index 9fdca10..3f074ca 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/operation.py
@@ -41,6 +41,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     OPS_CTX_LIVES,
     OPS_CTX_OBJECT,
     OPS_CTX_PERFORMER,
+    OPS_WITH_JUMP_TO_MEM_OFFSET,
 )
 from explorerscript.util import _, f
 
@@ -57,6 +58,14 @@ class OperationCompileHandler(
         name = str(self.ctx.IDENTIFIER())
         args: list[SsbOpParam] = []
 
+        if name in OPS_WITH_JUMP_TO_MEM_OFFSET and not isinstance(
+            self.ctx.parentCtx, ExplorerScriptParser.If_headerContext
+        ):
+            # There's no way to give the position to jump to.
+            raise SsbCompilerError(
+                f(_("Operation {name} can not be used as a statement, since it jumps (line {self.ctx.start.line})."))
+            )
+
         ops = []
         inline_ctx = self.ctx.inline_ctx()
         if inline_ctx is not None:
-- 
2.43.0


From 19e26ac986dfe725e84eeff9ea34725df99350eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 15/77] fix: keep dungeon mode values that are not one of the
 known modes

---
 explorerscript/ssb_converting/ssb_data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 71a0b80..2a8d374 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -434,14 +434,17 @@ class DungeonModeConstants:
         self.close_constant = close_constant
         self.open_and_request_constant = open_and_request_constant
 
-    def get_explorerscript_constant_for(self, idx: int) -> str:
+    def get_explorerscript_constant_for(self, idx: SsbOpParam) -> str:
+        if idx == 0:
+            return self.close_constant
         if idx == 1:
             return self.open_constant
         if idx == 2:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        # Not one of the known modes, keep the value.
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From 198edbc0225b2f923652727e6129c526dd2a854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 16/77] fix: print conditions as operations when their short
 form has a different meaning

---
 .../write_handlers/label_jumps/if_start.py    | 30 +++++++++++++------
 .../write_handlers/simple_ops/flag.py         |  6 +++-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..4d358cc 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -136,21 +136,28 @@ class IfWriteHandler(AbstractWriteHandler):
         if op.op_code.name == "Branch":
             return f"{op.params[0]} {SsbOperator.EQ.notation} {op.params[1]}"
         if op.op_code.name == "BranchBit":
+            if str(op.params[0]) == self.decompiler.performance_progress_list_var_name:
+                # The short form for this variable is BranchPerformance.
+                return self._if_header_for_operation(op)
             return f"{op.params[0]}[{op.params[1]}]"
         if op.op_code.name == "BranchDebug":
-            if op.params[0] > 0:  # type: ignore
+            if op.params[0] == 1:
                 return "debug"
-            else:
+            elif op.params[0] == 0:
                 return "not debug"
+            return self._if_header_for_operation(op)
         if op.op_code.name == "BranchEdit":
-            if op.params[0] > 0:  # type: ignore
+            if op.params[0] == 1:
                 return "edit"
-            else:
+            elif op.params[0] == 0:
                 return "not edit"
+            return self._if_header_for_operation(op)
         if op.op_code.name == "BranchExecuteSub":
-            return f'BranchExecuteSub({", ".join([str(x) for x in op.params])})'
+            return self._if_header_for_operation(op)
         if op.op_code.name == "BranchPerformance":
-            n = "not " if op.params[1] < 1 else ""  # type: ignore
+            if op.params[1] not in (0, 1):
+                return self._if_header_for_operation(op)
+            n = "not " if op.params[1] == 0 else ""
             return f"{n}{self.decompiler.performance_progress_list_var_name}[{op.params[0]}]"
         if op.op_code.name == "BranchScenarioNow":
             return f"scn({op.params[0]}) == [{op.params[1]}, {op.params[2]}]"
@@ -163,18 +170,23 @@ class IfWriteHandler(AbstractWriteHandler):
         if op.op_code.name == "BranchScenarioBefore":
             return f"scn({op.params[0]}) < [{op.params[1]}, {op.params[2]}]"
         if op.op_code.name == "BranchSum":
-            return f'BranchSum({", ".join([str(x) for x in op.params])})'
+            return self._if_header_for_operation(op)
         if op.op_code.name == "BranchValue":
             return f"{op.params[0]} {SsbOperator(op.params[1]).notation} {op.params[2]}"  # type: ignore
         if op.op_code.name == "BranchVariable":
             return f"{op.params[0]} {SsbOperator(op.params[1]).notation} value({op.params[2]})"  # type: ignore
         if op.op_code.name == "BranchVariation":
-            if op.params[0] > 0:  # type: ignore
+            if op.params[0] == 1:
                 return "variation"
-            else:
+            elif op.params[0] == 0:
                 return "not variation"
+            return self._if_header_for_operation(op)
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
+    @staticmethod
+    def _if_header_for_operation(op: SsbOperation) -> str:
+        return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
+
     def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
         """Starting from the in_edge try to build as many elseif constructs as possible."""
         op: SsbOperation = in_edge.target_vertex["op"]
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index badc60f..6e80355 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -59,7 +59,11 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
         op: SsbOperation = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
         if op.op_code.name == OPS_FLAG__CALC_BIT:
-            self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
+            if str(op.params[0]) == self.decompiler.performance_progress_list_var_name:
+                # The short form for this variable is flag_SetPerformance.
+                self.decompiler.write_stmnt(f"{op.op_code.name}({op.params[0]}, {op.params[1]}, {op.params[2]});")
+            else:
+                self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
         elif op.op_code.name == OPS_FLAG__CALC_VALUE:
             self.decompiler.write_stmnt(f"{op.params[0]} {SsbCalcOperator(op.params[1]).notation} {op.params[2]};")  # type: ignore
         elif op.op_code.name == OPS_FLAG__CALC_VARIABLE:
-- 
2.43.0


From 23dc4cb639a92c5c0f72b04b69a938c3a2803b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 17/77] fix: fall back to SsbScript for every error while
 decompiling

---
 explorerscript/ssb_converting/ssb_decompiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..582e61b 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -152,8 +152,8 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
+        except Exception:
+            # If this failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
             self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
-- 
2.43.0


From b3a7662fd2e0f403b590f09fa59baef73dde949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 18/77] fix: keep jumps at the start of routines

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..1bec696 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -698,6 +698,9 @@ class SsbGraphMinimizer:
                 ):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
+                    if v.index == 0:
+                        # The routine starts with this jump, it must not start with any other op.
+                        continue
                     if len(in_edges) != 0:
                         assert len(in_edges) == 1 and len(out_edges) == 1
                         v_before = in_edges[0].source_vertex
-- 
2.43.0


From 04362b502446995ff28d347c6049e45a21cbf953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 19/77] fix: keep labels that are the start of a routine or
 used by other routines or calls

---
 .../decompiler/graph_building/graph_minimizer.py    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 1bec696..89a2f39 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -130,6 +130,9 @@ class SsbGraphMinimizer:
         if isinstance(ov["op"], SsbLabel):
             # The jump target is just another label, redirect previous label to this one.
             ins = g.incident(label, IN)
+            if label.index == 0 or label["op"].referenced_from_other_routine or self._is_called(label):
+                # The label is the start of the routine or still needs to be printed.
+                return []
             for in_edge_id in ins:
                 old_in_edge = g.es[in_edge_id]
                 attr = old_in_edge.attributes()
@@ -140,6 +143,16 @@ class SsbGraphMinimizer:
             return [jump.index, label.index]
         return []
 
+    @staticmethod
+    def _is_called(label: Vertex) -> bool:
+        """Returns whether the label is the target of a call."""
+        return any(
+            isinstance(e.source_vertex["op"], SsbLabelJump)
+            and any(isinstance(m, CallJump) for m in e.source_vertex["op"].markers)
+            and e.source_vertex["op"].label == label["op"]
+            for e in label.in_edges()
+        )
+
     def build_branches(self) -> None:
         """
         Marks "ifs" in the graph, based on Branch* opcodes.
-- 
2.43.0


From a91308a8e0ce6cf2105112c44e543d8b54ced883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 20/77] fix: fall back to SsbScript if a label could not be
 printed

---
 .../decompiler/write_handlers/label_jumps/call.py         | 1 +
 explorerscript/ssb_converting/ssb_decompiler.py           | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 1d02725..251099a 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -50,6 +50,7 @@ class CallWriteHandler(AbstractWriteHandler):
         self.decompiler.source_map_add_opcode(op.offset)
         assert op.label is not None
         self.decompiler.write_stmnt(f"call @label_{op.label.id};")
+        self.decompiler.labels_referenced.add(op.label.id)
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
         return exits[0].target_vertex
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 582e61b..4d0b12a 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -66,6 +66,7 @@ class ExplorerScriptSsbDecompiler:
     indent: int
     _line_number: int
     labels_already_printed: list[int] = []
+    labels_referenced: set[int] = set()
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -95,6 +96,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self._line_number = 1
         self.labels_already_printed = []
+        self.labels_referenced = set()
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -105,6 +107,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.labels_referenced = set()
         self._line_number = 1
         self.smb = SourceMapBuilder()
 
@@ -150,6 +153,8 @@ class ExplorerScriptSsbDecompiler:
                 )
                 RoutineWriteHandler(self, r_id, r_info, r_graph).write_content()
 
+            assert self.labels_referenced.issubset(self.labels_already_printed), "Not all labels were printed."
+
             return self._output, self.smb.build()
 
         except Exception:
@@ -205,9 +210,11 @@ class ExplorerScriptSsbDecompiler:
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
             self.write_stmnt(f"jump @label_{label_id};")
+            self.labels_referenced.add(label_id)
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
             self.write_stmnt(f"jump @label_{label_id};")
+            self.labels_referenced.add(label_id)
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -217,6 +224,7 @@ class ExplorerScriptSsbDecompiler:
         else:
             # Jump as part of a control structure
             self.write_stmnt(f"jump @label_{label_id};")
+            self.labels_referenced.add(label_id)
 
     def source_map_add_opcode(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode."""
-- 
2.43.0


From 5bc3a849301b5192f7214e0f255058a3301d2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:55 +0000
Subject: [PATCH 21/77] fix: fall back to SsbScript instead of printing
 operations again and again

---
 .../ssb_converting/decompiler/write_handlers/block.py        | 5 +++++
 explorerscript/ssb_converting/ssb_decompiler.py              | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index cfea333..ef0cd6b 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -121,6 +121,11 @@ class BlockWriteHandler(AbstractWriteHandler):
                     raise NestedBlockDisallowedError("A block was not expected to contain any sub-blocks.")
 
             previous_vertex = self._next_vertex
+            if not isinstance(previous_vertex["op"], (SsbLabel, SsbForeignLabel)):
+                # Labels print jumps when they are reached again. Everything else must only be reached once.
+                op_key = id(previous_vertex["op"])
+                assert op_key not in self.decompiler.ops_already_printed, "Tried to print an operation again."
+                self.decompiler.ops_already_printed.add(op_key)
             self._next_vertex = self.last_handler_in_block.write_content()
             assert self._next_vertex is None or isinstance(self._next_vertex, Vertex)
 
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 4d0b12a..7986ef2 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -67,6 +67,7 @@ class ExplorerScriptSsbDecompiler:
     _line_number: int
     labels_already_printed: list[int] = []
     labels_referenced: set[int] = set()
+    ops_already_printed: set[int] = set()
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -97,6 +98,7 @@ class ExplorerScriptSsbDecompiler:
         self._line_number = 1
         self.labels_already_printed = []
         self.labels_referenced = set()
+        self.ops_already_printed = set()
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -108,6 +110,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self.labels_already_printed = []
         self.labels_referenced = set()
+        self.ops_already_printed = set()
         self._line_number = 1
         self.smb = SourceMapBuilder()
 
-- 
2.43.0


From ab2cf1c1efc4e807d117af50d9633d34f931c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 22/77] fix: print flag_CalcValue assignments as operations

---
 .../decompiler/write_handlers/simple_ops/flag.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index 6e80355..f8a9b05 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -65,7 +65,11 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
             else:
                 self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
         elif op.op_code.name == OPS_FLAG__CALC_VALUE:
-            self.decompiler.write_stmnt(f"{op.params[0]} {SsbCalcOperator(op.params[1]).notation} {op.params[2]};")  # type: ignore
+            if op.params[1] == SsbCalcOperator.ASSIGN.value:
+                # The short form for this is flag_Set.
+                self.decompiler.write_stmnt(f"{op.op_code.name}({op.params[0]}, {op.params[1]}, {op.params[2]});")
+            else:
+                self.decompiler.write_stmnt(f"{op.params[0]} {SsbCalcOperator(op.params[1]).notation} {op.params[2]};")  # type: ignore
         elif op.op_code.name == OPS_FLAG__CALC_VARIABLE:
             self.decompiler.write_stmnt(
                 f"{op.params[0]} {SsbCalcOperator(op.params[1]).notation} value({op.params[2]});"  # type: ignore
-- 
2.43.0


From 6fd4374b690ca517297f61835cf791fe2ffef58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 23/77] fix: continue after calls and keep called labels

---
 .../decompiler/graph_building/graph_minimizer.py           | 3 ++-
 .../decompiler/write_handlers/label_jumps/call.py          | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 89a2f39..519b0ac 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -149,7 +149,7 @@ class SsbGraphMinimizer:
         return any(
             isinstance(e.source_vertex["op"], SsbLabelJump)
             and any(isinstance(m, CallJump) for m in e.source_vertex["op"].markers)
-            and e.source_vertex["op"].label == label["op"]
+            and e.source_vertex["op"].label is label["op"]
             for e in label.in_edges()
         )
 
@@ -751,6 +751,7 @@ class SsbGraphMinimizer:
                         assert len(out_edges) == 1
                         if (
                             v["op"].id == 0
+                            or self._is_called(v)
                             or in_edges[0]["loop"]
                             or (
                                 isinstance(v["op"], SsbLabel)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 251099a..6eb4ea0 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import SsbForeignLabel, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -53,4 +53,9 @@ class CallWriteHandler(AbstractWriteHandler):
         self.decompiler.labels_referenced.add(op.label.id)
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
+        # Continue with what is after the call, not with the called label.
+        for e in exits:
+            next_op = e.target_vertex["op"]
+            if next_op is not op.label and not (isinstance(next_op, SsbForeignLabel) and next_op.label is op.label):
+                return e.target_vertex
         return exits[0].target_vertex
-- 
2.43.0


From d4e6e96397b7e1727592ecfd93859ac0b18a2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 24/77] fix: keep labels at the start of routines

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 519b0ac..4cce98b 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -745,6 +745,9 @@ class SsbGraphMinimizer:
                 if isinstance(v["op"], SsbLabel):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
+                    if v.index == 0:
+                        # The routine starts with this label, it must not start with any other op.
+                        continue
                     if len(in_edges) == 0:
                         vs_to_delete.add(v)
                     elif len(in_edges) == 1:
-- 
2.43.0


From 0a1d6fa2499e9fefce0b2aaec75361e44a068cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 25/77] fix: continue after ifs without else if the branch does
 not end at their end

---
 .../decompiler/write_handlers/label_jumps/if_start.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 4d358cc..259775c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -77,10 +77,11 @@ class IfWriteHandler(AbstractWriteHandler):
                 v_after_if_branch = if_branch_handler.write_content()
             else_ends_on_common_vtx = True
             v_after_else_branch = None
-            if not (
-                isinstance(else_edge.target_vertex["op"], SsbLabel)
-                and any(isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers)
+            if isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
+                isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
             ):
+                v_after_else_branch = else_edge.target_vertex
+            else:
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
                 else_edge = self._build_else_if_chain(else_edge)
-- 
2.43.0


From e64621025024fa2012d06c98c7e8bd7fdb1ebbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 26/77] fix: print different switch labels in different
 routines

---
 .../decompiler/write_handlers/label_jumps/switch_start.py    | 5 +++--
 .../ssb_converting/decompiler/write_handlers/routine.py      | 1 +
 explorerscript/ssb_converting/ssb_decompiler.py              | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..57ce876 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -97,12 +97,13 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         self.decompiler.write_stmnt("default:")
                     with Blk(self.decompiler, False):
                         logger.debug("... NOW block for cases.")
+                        label = f"switch{self.decompiler.current_routine_id}_{m.switch_id}_{e.index}"
                         # If this will be visited multiple times, we need a label
                         if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
-                            self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
+                            self.decompiler.write_stmnt(f"@{label};")
                         if e in already_printed_edges:
                             # Write the label jump instead
-                            self.decompiler.write_stmnt(f"jump @switch{m.switch_id}_{e.index};")
+                            self.decompiler.write_stmnt(f"jump @{label};")
                         else:
                             already_printed_edges.add(e)
                             # Print a switch case branch
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
index a5d028e..039bbf6 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
@@ -50,6 +50,7 @@ class RoutineWriteHandler(AbstractWriteHandler):
         self.r_graph = r_graph
 
     def write_content(self) -> None:
+        self.decompiler.current_routine_id = self.r_id
         self._write_routine_header()
         logger.debug("Handling a routine...")
         with Blk(self.decompiler):
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 7986ef2..aadf219 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -68,6 +68,7 @@ class ExplorerScriptSsbDecompiler:
     labels_already_printed: list[int] = []
     labels_referenced: set[int] = set()
     ops_already_printed: set[int] = set()
+    current_routine_id: int = -1
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -99,6 +100,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_already_printed = []
         self.labels_referenced = set()
         self.ops_already_printed = set()
+        self.current_routine_id = -1
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -111,6 +113,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_already_printed = []
         self.labels_referenced = set()
         self.ops_already_printed = set()
+        self.current_routine_id = -1
         self._line_number = 1
         self.smb = SourceMapBuilder()
 
-- 
2.43.0


From d631e5003663d5ac9d92ff3079a8a20ab4374783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 27/77] fix: do not continue with the called label when the
 call leaves a loop

---
 .../write_handlers/label_jumps/call.py        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 6eb4ea0..fda0e2c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -28,7 +28,12 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbForeignLabel, SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import (
+    ForeverBreak,
+    ForeverContinue,
+    SsbForeignLabel,
+    SsbLabelJump,
+)
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -55,7 +60,15 @@ class CallWriteHandler(AbstractWriteHandler):
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
         # Continue with what is after the call, not with the called label.
         for e in exits:
-            next_op = e.target_vertex["op"]
-            if next_op is not op.label and not (isinstance(next_op, SsbForeignLabel) and next_op.label is op.label):
+            if not self._leads_to_called_label(e.target_vertex):
                 return e.target_vertex
         return exits[0].target_vertex
+
+    def _leads_to_called_label(self, v: Vertex) -> bool:
+        called_label = self.start_vertex["op"].label
+        if isinstance(v["op"], SsbLabelJump) and isinstance(v["op"].get_marker(), (ForeverBreak, ForeverContinue)):
+            # This was inserted while building loops.
+            v = v.out_edges()[0].target_vertex
+        if isinstance(v["op"], SsbForeignLabel):
+            return v["op"].label is called_label
+        return v["op"] is called_label
-- 
2.43.0


From 9d1e04ce2f6cc8edcb5a7056083aa0c7a9b8dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 28/77] fix: print the break of switch cases that end with a
 jump to the end of the switch

---
 .../decompiler/write_handlers/label_jumps/switch_start.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 57ce876..7d13a22 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -40,6 +40,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
     SwitchStart,
     OPS_THAT_END_CONTROL_FLOW,
+    OP_JUMP,
     OP_SWITCH_DUNGEON_MODE,
 )
 from explorerscript.ssb_converting.util import Blk
@@ -124,6 +125,8 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                 if not handler.last_handler_in_block.ended_on_jump and (
                                     root_op_before is None
                                     or root_op_before.op_code.name not in OPS_THAT_END_CONTROL_FLOW
+                                    # A jump as the last op leads to the end of the switch and wasn't printed
+                                    or root_op_before.op_code.name == OP_JUMP
                                 ):
                                     self.decompiler.write_stmnt("break;")
 
-- 
2.43.0


From 433726ed4dd905abe675cc6e337d2598c9efe5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 29/77] fix: do not print break_loop before falling back to a
 jump

---
 .../write_handlers/label_jumps/forever_break.py      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 0119837..b27973e 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -46,16 +46,16 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a break and end"""
         logger.debug("Handling a break_loop; (%s)...", self.start_vertex["op"])
+        if len(self.decompiler.forever_start_handler_stack) < 1:
+            # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
+            # raises some "false positives" and builds loops that have break statements reachable from outside
+            # the loop
+            logger.warning("While decompiling, tried to generate break_loop; outside loop!")
+            raise FallbackToJump()
         self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
         self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
-            if len(self.decompiler.forever_start_handler_stack) < 1:
-                # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
-                # raises some "false positives" and builds loops that have break statements reachable from outside
-                # the loop
-                logger.warning("While decompiling, tried to generate break_loop; outside loop!")
-                raise FallbackToJump()
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
-- 
2.43.0


From dd4405f0f03528733999e7b8775fe8830e160cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 30/77] fix: treat multiple edges from one vertex to another
 the same when building loops

---
 .../ssb_converting/decompiler/graph_building/graph_utils.py     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3406c8d..c4c1cc0 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -483,6 +483,8 @@ def get_out_edges_of_subgraph(
     edges = {g.get_eid(v1, v2, error=False, directed=False) for v1, v2 in itertools.combinations(vertices, 2)}
     if -1 in edges:
         edges.remove(-1)
+    # There can be multiple edges from one vertex to another
+    edges = {p.index for e in edges for p in g.vs[g.es[e].source].out_edges() if p.target == g.es[e].target}
     # Add all out vertices of the vertices above
     for v in vertices.copy():
         for e in g.vs[v].out_edges():
-- 
2.43.0


From f5e055e45251ee7ba330b628ced208f0824c3c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 31/77] fix: only turn simple jumps into loop breaks and
 continues

---
 .../graph_building/graph_minimizer.py           | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 4cce98b..58c5a47 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -574,7 +574,7 @@ class SsbGraphMinimizer:
                             for loop_edge in break_points:
                                 break_point = loop_edge.source_vertex
                                 break_target = loop_edge.target_vertex
-                                if not isinstance(break_point["op"], SsbLabelJump) or break_point["op"].get_marker():
+                                if not self._is_simple_jump(break_point):
                                     # Already has a marker, add a new opcode in between
                                     loop_edge_flow_level = loop_edge["flow_level"]
                                     actual_break_point = g.add_vertex(
@@ -604,10 +604,7 @@ class SsbGraphMinimizer:
                                     self._update_vertex_style(break_point)
                             for loop_edge in continue_points:
                                 continue_point = loop_edge.source_vertex
-                                if (
-                                    not isinstance(continue_point["op"], SsbLabelJump)
-                                    or continue_point["op"].get_marker()
-                                ):
+                                if not self._is_simple_jump(continue_point):
                                     # Already has a marker or is not a jump, add a new opcode in between
                                     loop_edge_flow_level = loop_edge["flow_level"]
                                     actual_continue_point = g.add_vertex(
@@ -644,6 +641,16 @@ class SsbGraphMinimizer:
                             had_to_restart = True
                             break
 
+    @staticmethod
+    def _is_simple_jump(v: Vertex) -> bool:
+        """Returns whether the vertex is a jump that is not part of any other control structure."""
+        return (
+            isinstance(v["op"], SsbLabelJump)
+            and not v["op"].markers
+            and v["op"].maybe_root is not None
+            and v["op"].root.op_code.name == OP_JUMP
+        )
+
     def _build_loops__try_loop(self, start: Vertex) -> tuple[bool, list[Edge] | None, list[Edge] | None]:
         """
         Try to find a loopable section of the graph starting at v.
-- 
2.43.0


From bdc183a76502369163ac32aee2fe13c96fe54539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:32 +0000
Subject: [PATCH 32/77] fix: keep backslashes before quotes in strings and
 position mark names

---
 explorerscript/ssb_converting/ssb_data_types.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 2a8d374..f21bc76 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -51,7 +51,7 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
         secondary_multiline_quote = "'''"
 
     multiline_quotes = [q for q in (preferred_multiline_quote, secondary_multiline_quote) if q not in string]
-    single_line = f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
+    single_line = _repr_singleline_string(string, preferred_quote)
 
     if "\n" not in string:
         if not _needs_multiline_string(string):
@@ -69,6 +69,16 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
     return single_line
 
 
+def _repr_singleline_string(string: str, quote: str) -> str:
+    which_quotes: str | None = quote
+    if re.search(r"\\[\"']", string):
+        # A backslash before a quote is only kept if the quote is escaped too and doesn't delimit the string.
+        which_quotes = None
+        if re.search(rf"(?<!\\)(\\\\)*\\{quote}", string):
+            quote = "'" if quote == '"' else '"'
+    return f"{quote}{escape_newlines(escape_quotes(string, which_quotes=which_quotes))}{quote}"
+
+
 def _needs_multiline_string(string: str) -> bool:
     """Whether or not the string contains something that is not read back the same in a single line string."""
     return re.search(r"\\[n\"']|\\\Z|[\r\f]", string) is not None
@@ -320,8 +330,8 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        name = escape_newlines(escape_quotes(self.name, which_quotes="'"))
-        return f"Position<'{name}', {self.x_final}, {self.y_final}>"
+        name = _repr_singleline_string(self.name, "'")
+        return f"Position<{name}, {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From 4df52ec8ab8e032221c3851e0d0e44bb4a34e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 33/77] fix: follow the outgoing edges when searching for the
 common end of branches

---
 .../ssb_converting/decompiler/graph_building/graph_utils.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index c4c1cc0..2575829 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -173,10 +173,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Potential endless recursion situation. Abort.
                         new_es_entry.add(None)
                         continue
-                v_es: list[Edge] = []
-                for e in v_es:
-                    if e.index in g.es:
-                        v_es.append(e)
+                v_es: list[Edge] = v.out_edges()
                 if not allow_loop_edges:
                     # Remove edges marked as looping
                     v_es = [e for e in v_es if not any_incoming_edge_is_loop(e.target_vertex)]
-- 
2.43.0


From 2dd60a85b4ff257774d19741ff078cffeafb2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 34/77] fix: continue where elseif branches end

---
 .../write_handlers/label_jumps/if_start.py    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 259775c..89485eb 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -49,6 +49,8 @@ class IfWriteHandler(AbstractWriteHandler):
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.ended_on_jump = True
+        # The vertex after the elseif-branches, if at least one of them doesn't end on a jump.
+        self.v_after_elseif_branches: Vertex | None = None
 
     def write_content(self) -> Vertex | None:
         op: SsbLabelJump = self.start_vertex["op"]
@@ -110,9 +112,10 @@ class IfWriteHandler(AbstractWriteHandler):
                 or v_after_if_branch == v_after_else_branch
             ), f"Invalid if-structure for if {m.if_id}"
 
-            if v_after_if_branch is None:
-                return v_after_else_branch
-            return v_after_if_branch
+            for v_after_branch in (v_after_if_branch, self.v_after_elseif_branches, v_after_else_branch):
+                if v_after_branch is not None:
+                    return v_after_branch
+            return None
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
@@ -212,15 +215,20 @@ class IfWriteHandler(AbstractWriteHandler):
 
                 with Blk(self.decompiler):
                     # Handle elseif-branch
-                    BlockWriteHandler(
+                    v_after_elseif_branch = BlockWriteHandler(
                         if_edge.target_vertex,
                         self.decompiler,
                         self,
                         self.start_vertex,
                         check_end_block=self.check_end_block,
                     ).write_content()
+                if self.v_after_elseif_branches is None:
+                    self.v_after_elseif_branches = v_after_elseif_branch
+                # The chain is only followed by the common end of the if that started it.
+                start_m = self.start_vertex["op"].get_marker()
+                assert isinstance(start_m, IfStart)
                 next_vertex_ends = isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
-                    isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
+                    isinstance(mx, IfEnd) and start_m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
                 )
                 if else_edge.target == if_edge.target or not next_vertex_ends:
                     # this will lead to the opcodes be
@@ -234,6 +242,7 @@ class IfWriteHandler(AbstractWriteHandler):
                     if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
                         return else_edge
                     else:
+                        self.v_after_elseif_branches = else_edge.target_vertex
                         return None
                 else:
                     return None
-- 
2.43.0


From 20dd1d73c7b3fb6dc524aca4832b99ff8fbcf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 35/77] fix: only print break_loop and continue for the
 innermost loop

---
 .../write_handlers/label_jumps/forever_break.py           | 8 ++++++++
 .../write_handlers/label_jumps/forever_continue.py        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index b27973e..5748a2e 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import ForeverBreak
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -52,6 +53,13 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
             # the loop
             logger.warning("While decompiling, tried to generate break_loop; outside loop!")
             raise FallbackToJump()
+        m = self.start_vertex["op"].get_marker()
+        assert isinstance(m, ForeverBreak)
+        loop = self.decompiler.forever_start_handler_stack[-1]
+        if loop.m is None or loop.m.loop_id != m.loop_id:
+            # The innermost loop that is being written is not the loop of this statement.
+            logger.warning("While decompiling, tried to generate a break of another loop!")
+            raise FallbackToJump()
         self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
         self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 69cd80d..d6d4106 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import ForeverContinue
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -52,6 +53,13 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             # the loop
             logger.warning("While decompiling, tried to generate continue; outside loop!")
             raise FallbackToJump()
+        m = self.start_vertex["op"].get_marker()
+        assert isinstance(m, ForeverContinue)
+        loop = self.decompiler.forever_start_handler_stack[-1]
+        if loop.m is None or loop.m.loop_id != m.loop_id:
+            # The innermost loop that is being written is not the loop of this statement.
+            logger.warning("While decompiling, tried to generate a continue of another loop!")
+            raise FallbackToJump()
         if not self._continue_is_implicit():
             self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
             self.decompiler.write_stmnt("continue;  // may be redundant")
-- 
2.43.0


From 8e4020817e6a486f2d42abd60de582ef7efafe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:15 +0000
Subject: [PATCH 36/77] fix: leave loops that reach their end without a break

---
 .../decompiler/write_handlers/labels/forever_start.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
index ad8be2d..7803671 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
@@ -64,9 +64,13 @@ class ForeverWriteHandler(AbstractWriteHandler):
         self.decompiler.write_stmnt("forever")
         with Blk(self.decompiler):
             self.decompiler.forever_start_handler_stack.append(self)
-            BlockWriteHandler(
+            end_vertex = BlockWriteHandler(
                 exits[0].target_vertex, self.decompiler, self, self.start_vertex, check_end_block=self.check_end_block
             ).write_content()
+            if end_vertex is not None:
+                # The end of the loop was reached without a break.
+                self.decompiler.write_stmnt("break_loop;")
+                self.set_vertex_after(end_vertex)
             self.decompiler.forever_start_handler_stack.pop()
             return self._vertex_after_forever
 
-- 
2.43.0


From c701cf2ffe545e2e5df74603e70ce6398173f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 37/77] fix: do not keep the results of searches when graphs
 change

---
 .../graph_building/graph_minimizer.py         |  8 ----
 .../decompiler/graph_building/graph_utils.py  | 39 ++++++++-----------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 58c5a47..e86597c 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -31,7 +31,6 @@ from igraph import IN, Edge, OUT, Vertex, Graph
 from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import (
     any_incoming_edge_is_loop,
     find_first_common_next_vertex_in_edges,
-    find_first_common_next_vertex_in_edges__clear_cache,
     find_first_label_vertex_with_marker_that_matches_condition,
     find_lowest_and_highest_out_edge,
     get_all_vertices_between,
@@ -183,7 +182,6 @@ class SsbGraphMinimizer:
                     self._update_edge_style(else_edge)
 
                     # Common end label
-                    find_first_common_next_vertex_in_edges__clear_cache(g)  # TODO: Cache seems to be broken atm.
                     result = find_first_common_next_vertex_in_edges(g, [if_edge, else_edge])
                     if result is not None:
                         e_on_if_bef_end, e_on_else_bef_end = result
@@ -420,7 +418,6 @@ class SsbGraphMinimizer:
                                 # because of an unfinished inner branch.
                                 # TODO: This could lead to real problems...
                                 logger.warning("Switch-Branches ended via the same edge...")
-                                find_first_common_next_vertex_in_edges__clear_cache(g)
                                 continue
                             already_updated_switch_end_in_edges.append(e)
                             # Remove the jumps before the common end label (if they exist), we don't need them anymore.
@@ -434,7 +431,6 @@ class SsbGraphMinimizer:
                                 es_to_delete.append(e_before_jump)
                                 self._reconnect(g, e_before_jump.source, e_before_jump, end_vertex, True)
                         g.delete_edges(es_to_delete)
-                    find_first_common_next_vertex_in_edges__clear_cache(g)
 
             g.delete_vertices(vs_to_delete)
 
@@ -469,8 +465,6 @@ class SsbGraphMinimizer:
                         self._update_edge_style(first_e)
 
             g.delete_edges(es_to_delete)
-            if len(es_to_delete) > 0:
-                find_first_common_next_vertex_in_edges__clear_cache(g)
 
     def build_switch_fallthroughs(self) -> None:
         """
@@ -536,7 +530,6 @@ class SsbGraphMinimizer:
         logger.debug("Detecting loops...")
         # TODO: Loop detection & creation really needs to be re-written.
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             loop_id = -1
             if len(g.vs) < 1:
                 continue
@@ -706,7 +699,6 @@ class SsbGraphMinimizer:
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             vs_to_delete = set()
             # First, let's delete all redundant jumps (actual OP_JUMPs that jump to opcodes with only one in edge)
             for v in g.vs:
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 2575829..c13b3a1 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -27,7 +27,6 @@ import itertools
 import logging
 import operator
 from collections import Counter
-from threading import Lock
 from typing import Callable, Generator, cast, Sequence
 
 from igraph import Edge, OUT, Vertex, Graph
@@ -55,15 +54,6 @@ def find_lowest_and_highest_out_edge(g: Graph, vertex: Vertex, attr: str) -> tup
     return min(edges, key=lambda k: k[attr]), max(edges, key=lambda k: k[attr])
 
 
-cache_lock = Lock()
-find_first_common_next_vertex_in_edges_cache: dict[int, dict[str, list[Edge] | None]] = {}
-
-
-def find_first_common_next_vertex_in_edges__clear_cache(g: Graph) -> None:
-    with cache_lock:
-        find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-
-
 def find_first_common_next_vertex_in_edges(
     g: Graph,
     es: Sequence[Edge] | set[Edge],
@@ -71,6 +61,7 @@ def find_first_common_next_vertex_in_edges(
     allow_loops: bool = False,
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
+    cache: dict[str, list[Edge] | None] | None = None,
 ) -> None | list[Edge]:
     """
     Finds the first vertex (actually list of edges that lead to it for each edge in es)
@@ -97,18 +88,16 @@ def find_first_common_next_vertex_in_edges(
     """
     # TODO: Performance with (not allow_open_branches).
     es_ids = ",".join(sorted([str(e.index) for e in es]))
-    with cache_lock:
-        if id(g) not in find_first_common_next_vertex_in_edges_cache:
-            find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-        if es_ids in find_first_common_next_vertex_in_edges_cache[id(g)]:
-            return find_first_common_next_vertex_in_edges_cache[id(g)][es_ids]
+    # The results are only valid until the graph changes, so they are only kept for a single search.
+    if cache is None:
+        cache = {}
+    if es_ids in cache:
+        return cache[es_ids]
     assert len(es) > 1
     result = _find_first_common_next_vertex_in_edges__impl(
-        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges
+        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges, cache
     )
-    with cache_lock:
-        # cache may have been cleared in the meantime
-        find_first_common_next_vertex_in_edges_cache[id(g)][es_ids] = result
+    cache[es_ids] = result
     return result
 
 
@@ -118,8 +107,9 @@ def _find_first_common_next_vertex_in_edges__impl(
     map_of_visited: list[dict[int, int]],
     allow_open_branches: bool,
     allow_loops: bool,
-    vs_to_not_visit: list[int] | None = None,
-    allow_loop_edges: bool = True,
+    vs_to_not_visit: list[int] | None,
+    allow_loop_edges: bool,
+    cache: dict[str, list[Edge] | None],
 ) -> None | list[Edge]:
     """
     :param g: Graph
@@ -190,7 +180,12 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Recursively find the next new common vertex
                         list_of_visited_vs_on_branch = vs_to_not_visit + list(map_of_visited[i].keys())
                         new_common_vertex_edges = find_first_common_next_vertex_in_edges(
-                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch
+                            g,
+                            v_es,
+                            allow_open_branches,
+                            allow_loops,
+                            list_of_visited_vs_on_branch,
+                            cache=cache,
                         )
                         if new_common_vertex_edges is None:
                             new_es_entry.add(None)
-- 
2.43.0


From 2017ce720922e46602f3fba1b9fb7a544ab70898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 38/77] fix: print a break for every case that only leaves the
 switch

---
 .../write_handlers/label_jumps/switch_start.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 7d13a22..05948cf 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -81,7 +81,11 @@ class SwitchWriteHandler(AbstractWriteHandler):
         else:
             list_of_switch_cases = list(iterate_switch_edges_using_edges_and_op(exits, op))
             # Build a list of all edges that will be visited multiple times, make sure to generate a label for them
+            end_vertex = find_switch_end_label(self.start_vertex.graph, m.switch_id)
             for e, _, __ in list_of_switch_cases:
+                if end_vertex is not None and e.target == end_vertex.index:
+                    # Nothing but the break is printed for these, so it can be repeated.
+                    continue
                 if e in already_printed_edges:
                     edges_that_will_be_visited_multiple_times.add(e)
                 already_printed_edges.add(e)
@@ -102,7 +106,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         # If this will be visited multiple times, we need a label
                         if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
                             self.decompiler.write_stmnt(f"@{label};")
-                        if e in already_printed_edges:
+                        if e in already_printed_edges and e in edges_that_will_be_visited_multiple_times:
                             # Write the label jump instead
                             self.decompiler.write_stmnt(f"jump @{label};")
                         else:
@@ -130,12 +134,8 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                 ):
                                     self.decompiler.write_stmnt("break;")
 
-            next_vertex = find_switch_end_label(self.start_vertex.graph, m.switch_id)
-            if next_vertex:
-                # End on the same end vertex, continue after.
-                return next_vertex
-
-            return None
+            # End on the same end vertex, continue after.
+            return end_vertex
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
-- 
2.43.0


From f565189b18f2b02d270b0e158e9abe9029cf493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 39/77] fix: print all known switch operations as switches

---
 explorerscript/ssb_converting/ssb_special_ops.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..53bc5e9 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -98,6 +98,13 @@ OPS_SWITCH_CASE_MAP = {
     "main_EnterRescueUser": OPS_REGULAR_CASES,
     "main_EnterTraining": OPS_REGULAR_CASES,
     "main_EnterTraining2": OPS_REGULAR_CASES,
+    "SwitchDirection": OPS_REGULAR_CASES,
+    "SwitchDirectionLives": OPS_REGULAR_CASES,
+    "SwitchDirectionLives2": OPS_REGULAR_CASES,
+    "SwitchDirectionMark": OPS_REGULAR_CASES,
+    "SwitchLives": OPS_REGULAR_CASES,
+    "SwitchValue": OPS_REGULAR_CASES,
+    "SwitchVariable": OPS_REGULAR_CASES,
 }
 
 OP_MESSAGE_SWITCH_TALK = "message_SwitchTalk"
-- 
2.43.0


From bc97128fa5c651ef788974ec191d5e83d8b56757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 40/77] fix: print message switches without cases

---
 .../decompiler/write_handlers/simple_ops/message_switches.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 3746493..343d860 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -47,14 +47,12 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     """Handles writing message_SwitchMonologue and message_SwitchTalk."""
 
     op_name: str | None
-    have_written_at_least_one_child: bool
 
     def __init__(
         self, start_vertex: Vertex, decompiler: ExplorerScriptSsbDecompiler, parent: AbstractWriteHandler | None
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.op_name = None
-        self.have_written_at_least_one_child = False
 
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
@@ -95,8 +93,5 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
         next_op: SsbOperation = next_handler.start_vertex["op"]
         assert self.op_name is not None
         if next_op.op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]:
-            if not self.have_written_at_least_one_child:
-                raise ValueError("A message_Switch* must have at least one case or default.")
             return False
-        self.have_written_at_least_one_child = True
         return True
-- 
2.43.0


From 6d92549a67ff8c434fcf9042aab8231f4227a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 41/77] fix: keep carriage returns at the end of multi line
 strings

---
 explorerscript/ssb_converting/ssb_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index f21bc76..e11248b 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -88,7 +88,9 @@ def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
     lines = string.split("\n")
     indentprefix = " " * (NUMBER_OF_SPACES_PER_INDENT * indent)
     output = "\n".join((indentprefix + (" " * NUMBER_OF_SPACES_PER_INDENT) + o for o in lines))
-    return f"{delimiter}\n{output}\n{indentprefix}{delimiter}"
+    # A carriage return at the end would be read as a part of the last line break.
+    end = "" if string.endswith("\r") else f"\n{indentprefix}"
+    return f"{delimiter}\n{output}{end}{delimiter}"
 
 
 class SsbRoutineType(Enum):
-- 
2.43.0


From 00eeed34ab338f694e305f8ee843a48f4f03b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 42/77] fix: do not print the closing return inside of with and
 message blocks

---
 .../ssb_converting/decompiler/write_handlers/block.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index ef0cd6b..022801a 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -130,9 +130,10 @@ class BlockWriteHandler(AbstractWriteHandler):
             assert self._next_vertex is None or isinstance(self._next_vertex, Vertex)
 
         # Perform basic end-of-branch check (to see if we need an end, return or hold).
-        # we don't need to do that on jumps or fallthrough
+        # we don't need to do that on jumps or fallthrough. Blocks that belong to a single operation can not
+        # contain it, the block around them takes care of it.
         assert self.last_handler_in_block is not None
-        if self._next_vertex is None and not self.last_handler_in_block.ended_on_jump:
+        if self._next_vertex is None and not self.last_handler_in_block.ended_on_jump and not self._disallow_nested:
             if previous_vertex is None:
                 # ???
                 raise ValueError("Found end of branch, but no previous op...?")
-- 
2.43.0


From 4851865a14d3c61de451d418d329e8244877ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 43/77] fix: keep carriage returns between a backslash and a
 line feed in strings

---
 explorerscript/ssb_converting/ssb_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index e11248b..b212a8c 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -62,9 +62,10 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
             quote = multiline_quotes[0]
             nl_if_quote = "\n" if string.endswith(quote[0]) else ""
             return f"{quote}{string}{nl_if_quote}{quote}"
-    elif multiline_quotes and not all(line.startswith(" ") for line in string.split("\n")):
+    elif multiline_quotes and "\\\r\n" not in string and not all(line.startswith(" ") for line in string.split("\n")):
         return _repr_multiline_string(string, indent, multiline_quotes[0])
     # Multi line strings can't contain their own quotes and lose the indent that is shared by all lines.
+    # They also lose carriage returns before line feeds, single line strings can contain those after a backslash.
     # We fall back to single line string representation.
     return single_line
 
-- 
2.43.0


From 54766725e842b44945c968db946c063e0f3b4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 44/77] fix: compare source map entries by value

---
 explorerscript/source_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index a356445..ed98875 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -149,6 +149,11 @@ class SourceMapping:
         self.line = line_number
         self.column = column
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, SourceMapping):
+            return False
+        return self.serialize() == other.serialize()
+
     def serialize(self) -> list[Any]:
         return [self.line, self.column]
 
-- 
2.43.0


From 268207d062455e0e14f543a88884da7e5ea4c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 45/77] fix: restore the call site of macro source map entries
 as a tuple

---
 explorerscript/source_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index ed98875..2da9cd1 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -211,8 +211,9 @@ class MacroSourceMapping(SourceMapping):
 
     @classmethod
     def deserialize(cls, data_list: list[Any]) -> MacroSourceMapping:
+        called_in = None if data_list[4] is None else (data_list[4][0], data_list[4][1], data_list[4][2])
         return MacroSourceMapping(
-            data_list[0], data_list[1], data_list[2], data_list[3], data_list[4], data_list[5], data_list[6]
+            data_list[0], data_list[1], data_list[2], data_list[3], called_in, data_list[5], data_list[6]
         )
 
 
-- 
2.43.0


From e939dc4f00724eef7f3b7497ca8da5d1e037c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 46/77] fix: rewrite the macro return address 0

---
 explorerscript/source_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 2da9cd1..25f2b68 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -352,7 +352,7 @@ class SourceMap:
         max_old_offset = max(new_mapping.keys())
 
         for m in self._mappings_macros.values():
-            if m.return_addr:
+            if m.return_addr is not None:
                 addr: int | None = m.return_addr
                 while addr not in new_mapping:
                     # if the return addr opcode was optimized away, we take the next index. TODO: Good idea?
-- 
2.43.0


From 94660964966042bf6c9f2259a8015ff2d9db9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 47/77] fix: accept sources that only consist of attribute
 lines

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..dc47a69 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -38,7 +38,7 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     if len(lines) < 1:
         return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From 08635de1eede41debbc82755831882d825e17cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 48/77] fix: keep new lines at the start and end of highlighted
 sources

---
 explorerscript/pygments/expslexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/pygments/expslexer.py b/explorerscript/pygments/expslexer.py
index 1cc4061..d07be6a 100644
--- a/explorerscript/pygments/expslexer.py
+++ b/explorerscript/pygments/expslexer.py
@@ -23,6 +23,7 @@
 from __future__ import annotations
 
 import re
+from typing import Any
 
 from pygments.lexer import RegexLexer, include, words
 from pygments.token import Comment, Name, String, Text, Number
@@ -90,6 +91,11 @@ class ExplorerScriptLexer(RegexLexer):
 
     flags = re.MULTILINE | re.DOTALL
 
+    def __init__(self, **options: Any) -> None:
+        # Pygments removes new lines at the start and the end by default.
+        options.setdefault("stripnl", False)
+        super().__init__(**options)
+
     tokens = {
         "comments": [
             (r"/\*.*?\*/", Comment.Multiline),
-- 
2.43.0


From 5d43c31d86a4909df1bb142f11eca3d651b86754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:07 +0000
Subject: [PATCH 49/77] fix: accept position marker arguments like -.5

---
 explorerscript/common_syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index fc513d1..409c6ab 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -41,7 +41,7 @@ def parse_position_marker_arg(
         if len(decimal_parts) == 1:  # .XXXXX
             dec_part = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
         elif len(decimal_parts) == 2:  # XXXXX.YYYYY
-            pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
+            pos = int(decimal_parts[0] if decimal_parts[0] not in ("", "-") else "0")
             dec_part = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
         else:
             raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
-- 
2.43.0


From 078d4d795677d6b946f7c11e3a340a1f383d3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 50/77] fix: map the cases of message switches to where they
 are written

---
 .../compile_handlers/blocks/switches/message_switch.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
index 5889b68..ef633e8 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
@@ -85,13 +85,14 @@ class MessageSwitchCompileHandler(
             value_blueprint = header_handler.collect()
             # We obviously don't want the bluprint
             value = value_blueprint.params[0]
-            case_ops.append(self._generate_operation(OP_CASE_TEXT, [value, string]))
+            case_ops.append(header_handler._generate_operation(OP_CASE_TEXT, [value, string]))
         if self._default_handler:
             if not self._default_handler.is_message_case:
                 raise SsbCompilerError(
                     f(_("A message_ switch can only contain cases with strings (line {self.ctx.start.line})."))
                 )
-            case_ops.append(self._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()]))
+            default_text = self._default_handler.get_text()
+            case_ops.append(self._default_handler._generate_operation(OP_DEFAULT_TEXT, [default_text]))
 
         return [switch_op] + case_ops
 
-- 
2.43.0


From d33871af480db5750b23cc1343a7e6dec83df699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 51/77] fix: do not keep source map entries of dropped
 operations

---
 explorerscript/source_map.py                  | 22 ++++++++++++++++++-
 explorerscript/ssb_converting/ssb_compiler.py |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 25f2b68..f78e358 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -24,7 +24,7 @@ from __future__ import annotations
 
 import json
 import logging
-from collections.abc import Iterable
+from collections.abc import Collection, Iterable
 from typing import Mapping, Any, Generator
 
 logger = logging.getLogger(__name__)
@@ -336,6 +336,26 @@ class SourceMap:
     def create_empty(cls) -> SourceMap:
         return cls({}, [], {}, [])
 
+    def remove_dropped_ops(self, op_offsets: Collection[int]) -> None:
+        """
+        Removes the entries of all operations that are not in op_offsets (because they were optimized away).
+        If the first operation of a macro call is removed, the next one that is left of it takes over the call information.
+        """
+        self._mappings = {key: val for key, val in self._mappings.items() if key in op_offsets}
+        mappings_macros: dict[int, MacroSourceMapping] = {}
+        removed_calls: list[MacroSourceMapping] = []
+        for key, val in sorted(self._mappings_macros.items()):
+            if key not in op_offsets:
+                if val.called_in is not None:
+                    removed_calls.append(val)
+                continue
+            for call in removed_calls:
+                if val.called_in is None and call.return_addr is not None and key < call.return_addr:
+                    val.called_in = call.called_in
+            removed_calls = []
+            mappings_macros[key] = val
+        self._mappings_macros = mappings_macros
+
     def rewrite_offsets(self, new_mapping: dict[int, int]) -> None:
         """
         Replace all opcode offsets (in mappings, macrco mappings, macro return addresses) with new
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 07fa097..444917c 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -245,6 +245,7 @@ class ExplorerScriptSsbCompiler:
         self.routine_infos = compiler_visitor.routine_infos
         self.named_coroutines = compiler_visitor.named_coroutines
         self.source_map = compiler_visitor.source_map_builder.build()
+        self.source_map.remove_dropped_ops({op.offset for routine in self.routine_ops for op in routine})
 
         # Done!
         return self
-- 
2.43.0


From 5913df4af81d9a5056bb99ab2755df0432f30d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 52/77] fix: number the jump to the default case before the ops
 of the cases

---
 .../compiler/compile_handlers/blocks/switches/switch_block.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 88fb3ec..1f67287 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -99,6 +99,8 @@ class SwitchBlockCompileHandler(
             # Insert a jump blueprint for now, note it, and if it comes up later during 3b,
             # process it like explained there.
             default_jmp_to_case_block = SsbLabelJumpBlueprint(self.compiler_ctx, self.ctx, OP_JUMP, [])
+            # It's placed before the ops of the cases, so it also has to be numbered before them.
+            default_jmp_to_case_block.set_index_number(self.compiler_ctx.counter_ops.allocate(1))
             self._case_handlers.insert(self._default_handler_index, self._default_handler)
         else:
             # 2c. If no default: Create a default block with just one jump to end label
-- 
2.43.0


From 3230451174ea05b3a207511644872c300df7b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 53/77] fix: map elseif headers to where they are printed

---
 .../decompiler/write_handlers/label_jumps/if_start.py  | 10 +++++++---
 explorerscript/ssb_converting/ssb_decompiler.py        |  6 ++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 89485eb..fd10e1e 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -260,11 +260,15 @@ class IfWriteHandler(AbstractWriteHandler):
 
         exits = v.out_edges()
 
-        self.decompiler.source_map_add_opcode(op.offset)
-        opt_space = " " if not include_newline_in_header else ""
+        if include_newline_in_header:
+            self.decompiler.source_map_add_opcode(op.offset)
+        else:
+            # The header is written behind what is already in the current line.
+            self.decompiler.write_stmnt(" ", False)
+            self.decompiler.source_map_add_opcode_in_current_line(op.offset)
         not_str = "" if not m.is_not else " not"
         self.decompiler.write_stmnt(
-            f"{opt_space}{header_str}{not_str} ( {' || '.join(list_of_clauses)} )", include_newline_in_header
+            f"{header_str}{not_str} ( {' || '.join(list_of_clauses)} )", include_newline_in_header
         )
         else_edge = [e for e in exits if e["is_else"]][0]
         if_edge = [e for e in exits if not e["is_else"]][0]
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index aadf219..3755763 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -239,6 +239,12 @@ class ExplorerScriptSsbDecompiler:
         #       Might need this more flexible.
         self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
 
+    def source_map_add_opcode_in_current_line(self, op_offset: int) -> None:
+        """Has to be called BEFORE writing the opcode, if it is written without starting a new line."""
+        assert self.smb is not None
+        current_line = self._output.rsplit("\n", 1)[-1]
+        self.smb.add_opcode(op_offset, self._line_number - 1, len(current_line))
+
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
         col_number = self.indent * NUMBER_OF_SPACES_PER_INDENT
-- 
2.43.0


From c5914e6ddcf04f838edb43f39425cdc6827d5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 54/77] fix: do not map the op before a generated break_loop or
 continue to it

---
 .../decompiler/write_handlers/label_jumps/forever_break.py | 7 +++++--
 .../write_handlers/label_jumps/forever_continue.py         | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 5748a2e..2d9e5f0 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
-from explorerscript.ssb_converting.ssb_special_ops import ForeverBreak
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, ForeverBreak, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -60,7 +60,10 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
             # The innermost loop that is being written is not the loop of this statement.
             logger.warning("While decompiling, tried to generate a break of another loop!")
             raise FallbackToJump()
-        self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+        op: SsbLabelJump = self.start_vertex["op"]
+        if op.root.op_code.name == OP_JUMP:
+            # Otherwise there is no op for this statement, the root is the op before it.
+            self.decompiler.source_map_add_opcode(op.offset)
         self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index d6d4106..87b0a4d 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
-from explorerscript.ssb_converting.ssb_special_ops import ForeverContinue
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, ForeverContinue, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -61,7 +61,10 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             logger.warning("While decompiling, tried to generate a continue of another loop!")
             raise FallbackToJump()
         if not self._continue_is_implicit():
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            op: SsbLabelJump = self.start_vertex["op"]
+            if op.root.op_code.name == OP_JUMP:
+                # Otherwise there is no op for this statement, the root is the op before it.
+                self.decompiler.source_map_add_opcode(op.offset)
             self.decompiler.write_stmnt("continue;  // may be redundant")
         return None
 
-- 
2.43.0


From d03fa10b34687217126a3dd17fb6db76c6792532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 55/77] fix: only map jumps that are printed

---
 .../write_handlers/label_jumps/jump.py        |  6 +++---
 .../label_jumps/switch_start.py               |  2 +-
 .../ssb_converting/ssb_decompiler.py          | 20 ++++++++++++++++---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index f457129..441942b 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -48,8 +48,8 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
-        # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
-        self.decompiler.source_map_add_opcode(op.offset)
+        if op.root.op_code.name == OP_JUMP:
+            self.decompiler.source_map_add_jump(op.offset)
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
         exits = self.start_vertex.out_edges()
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 05948cf..3b18055 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -132,7 +132,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                     # A jump as the last op leads to the end of the switch and wasn't printed
                                     or root_op_before.op_code.name == OP_JUMP
                                 ):
-                                    self.decompiler.write_stmnt("break;")
+                                    self.decompiler.write_jump("break;")
 
             # End on the same end vertex, continue after.
             return end_vertex
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 3755763..2370a10 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -70,6 +70,8 @@ class ExplorerScriptSsbDecompiler:
     ops_already_printed: set[int] = set()
     current_routine_id: int = -1
     smb: SourceMapBuilder | None
+    # Offset of the last jump op, and the length of the output when it was processed
+    _last_jump: tuple[int, int] | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
     # Since forever blocks break_loops do NOT have to be on the exact next level, we use a stack system instead!
@@ -102,6 +104,7 @@ class ExplorerScriptSsbDecompiler:
         self.ops_already_printed = set()
         self.current_routine_id = -1
         self.smb = None
+        self._last_jump = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
         self.forever_start_handler_stack = []
@@ -116,6 +119,7 @@ class ExplorerScriptSsbDecompiler:
         self.current_routine_id = -1
         self._line_number = 1
         self.smb = SourceMapBuilder()
+        self._last_jump = None
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
 
@@ -211,15 +215,21 @@ class ExplorerScriptSsbDecompiler:
     def write_hold(self) -> None:
         self.write_stmnt("hold;")
 
+    def write_jump(self, stmnt: str) -> None:
+        """Write a statement that jumps; it is the one of the jump op before it, if nothing was written for that."""
+        if self._last_jump is not None and self._last_jump[1] == len(self._output):
+            self.source_map_add_opcode(self._last_jump[0])
+        self.write_stmnt(stmnt)
+
     def write_label_jump(self, label_id: int, previous_op: SsbOperation) -> None:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump(f"jump @label_{label_id};")
             self.labels_referenced.add(label_id)
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump(f"jump @label_{label_id};")
             self.labels_referenced.add(label_id)
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
@@ -229,7 +239,7 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump(f"jump @label_{label_id};")
             self.labels_referenced.add(label_id)
 
     def source_map_add_opcode(self, op_offset: int) -> None:
@@ -239,6 +249,10 @@ class ExplorerScriptSsbDecompiler:
         #       Might need this more flexible.
         self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
 
+    def source_map_add_jump(self, op_offset: int) -> None:
+        """A jump is only part of the source map, if a statement is written for it next."""
+        self._last_jump = (op_offset, len(self._output))
+
     def source_map_add_opcode_in_current_line(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode, if it is written without starting a new line."""
         assert self.smb is not None
-- 
2.43.0


From a9e3cf89c0ceb2a9c59fd1f068b981c4741b26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 56/77] fix: keep jumps back to the start of a routine in the
 graph

---
 .../ssb_converting/decompiler/graph_building/graph_minimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index e86597c..24ad1e6 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -725,7 +725,7 @@ class SsbGraphMinimizer:
                             continue
                         if (
                             isinstance(v_after["op"], SsbForeignLabel)
-                            or v_after["op"].id == 0
+                            or v_after.index == 0
                             or out_edges[0]["loop"]
                             or (isinstance(v_after["op"], SsbLabel) and len(v_after["op"].markers) > 0)
                         ):
-- 
2.43.0


From 2f1205576c35562d0a534ff18ce9a7d510ff5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 57/77] fix: reject negative, too big and repeated routine ids
 (C10)

Negative ids raised IndexError, big ids used up all memory and the earlier routine
of a repeated id was dropped without a check of its jumps.
---
 .../compiler/compiler_visitor/routine_visitor.py       |  3 ++-
 explorerscript/ssb_converting/compiler/utils.py        | 10 +++++++++-
 .../ssb_converting/compiler/compiler_listener.py       |  3 ++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..f9f309d 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.coro_def
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.for_target_def import ForTargetDefCompileHandler
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_def import SimpleDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter, check_new_routine_id
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
 
 
@@ -122,6 +122,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
     def _enlarge_routine_info(self) -> None:
+        check_new_routine_id(self._active_routine_id, self.routine_infos)
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 58d0810..a1795bd 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -32,7 +32,7 @@ from antlr4 import ParserRuleContext
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.error import SsbCompilerError
 from explorerscript.source_map import SourceMapBuilder
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode, SsbRoutineInfo
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
     SsbLabelJump,
@@ -241,6 +241,14 @@ def _count_iter_items(iterable: Iterable[Any]) -> int:
     return next(counter)
 
 
+def check_new_routine_id(routine_id: int, routine_infos: list[SsbRoutineInfo]) -> None:
+    """Raises an SsbCompilerError, if the ID can not be the ID of a new routine."""
+    if routine_id < 0 or routine_id > 0xFFFF:
+        raise SsbCompilerError(f(_("Invalid routine ID: {routine_id}. It must be between 0 and 65535.")))
+    if routine_id < len(routine_infos) and routine_infos[routine_id] is not None:
+        raise SsbCompilerError(f(_("The routine with the ID {routine_id} is defined more than once.")))
+
+
 def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> bool:
     last_offset = -1
     for routine in routine_ops:
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..26cd4fc 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -29,7 +29,7 @@ from explorerscript.antlr.SsbScriptParser import SsbScriptParser
 from explorerscript.common_syntax import parse_position_marker_arg
 from explorerscript.error import SsbCompilerError
 from explorerscript.source_map import SourceMapBuilder, SourceMapPositionMark
-from explorerscript.ssb_converting.compiler.utils import singleline_string_literal, string_literal
+from explorerscript.ssb_converting.compiler.utils import check_new_routine_id, singleline_string_literal, string_literal
 from explorerscript.ssb_converting.ssb_data_types import (
     SsbRoutineInfo,
     SsbOperation,
@@ -313,6 +313,7 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._labels_before_op.append(label)
 
     def _enlarge_routine_info(self) -> None:
+        check_new_routine_id(self._active_routine_id, self.routine_infos)
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
-- 
2.43.0


From 1c32b870993e6eaf537898ea7b20a7c00c6f5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 58/77] fix: only process SsbScript without syntax errors (C10)

The listener ran while parsing and failed with AttributeError or TypeError on incomplete trees.
---
 .../ssb_script/ssb_converting/ssb_compiler.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..c50abcc 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -87,11 +87,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +97,10 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        # The listener requires a tree without errors.
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker().walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From d0edfedc255551a483a747c16b0ffa22375f6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 59/77] fix: report imports that can not be read as compiler
 errors (C10)

Importing a directory raised IsADirectoryError.
---
 explorerscript/ssb_converting/ssb_compiler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 444917c..eaca7f9 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -188,10 +188,12 @@ class ExplorerScriptSsbCompiler:
                 self.lookup_paths,
                 recursion_check=self.recursion_check + [file_name],
             )
-            with open_utf8(subfile_path, "r") as file:
-                subfile_compiler.compile(
-                    file.read(), subfile_path, macros_only=True, original_base_file=original_base_file
-                )
+            try:
+                with open_utf8(subfile_path, "r") as file:
+                    subfile_src = file.read()
+            except OSError as e:
+                raise SsbCompilerError(f(_("The file to import ('{subfile_path}') could not be read."))) from e
+            subfile_compiler.compile(subfile_src, subfile_path, macros_only=True, original_base_file=original_base_file)
             self.macros.update(self._macros_add_filenames(subfile_compiler.macros, original_base_file, subfile_path))
 
         # Sort the list of macros by how they are used
-- 
2.43.0


From 26da3bbaeb66242b083e5a4a765c103b33d2c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 60/77] fix: refuse imported SsbScript files with routines
 (C10)

Imported files that are marked as SsbScript were not checked for routines, which were silently ignored.
---
 explorerscript/ssb_converting/ssb_compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index eaca7f9..f7fc839 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -157,6 +157,9 @@ class ExplorerScriptSsbCompiler:
                 # Parse as SsbScript instead
                 subcompiler = SsbScriptSsbCompiler()
                 subcompiler.compile(explorerscript_src)
+                if macros_only and subcompiler.routine_infos:
+                    fn = os.path.basename(file_name)
+                    raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
                 self.routine_infos = subcompiler.routine_infos
                 self.routine_ops = subcompiler.routine_ops
                 self.named_coroutines = subcompiler.named_coroutines
-- 
2.43.0


From 547d8788bfdec51e0e20d5bfd237ae00c4ea3781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 61/77] fix: refuse decimal numbers as target of a routine
 (C10)

They raised TypeError.
---
 .../compiler/compile_handlers/functions/for_target_def.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index 42a5366..127331f 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -34,8 +34,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 )
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam
-from explorerscript.util import exps_int
+from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam, SsbOpParamFixedPoint
+from explorerscript.util import exps_int, _
 
 
 class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.For_target_defContext]):
@@ -50,6 +50,8 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         linked_to = -1
         linked_to_name = None
         integer_like = self._linked_to_target
+        if isinstance(integer_like, SsbOpParamFixedPoint):
+            raise SsbCompilerError(_("The target of a targeted routine must be an integer or a constant."))
         try:
             linked_to = exps_int(integer_like)  # type: ignore
         except ValueError:
-- 
2.43.0


From b7b4664df63b02f855935042b496dc2dafeb8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 62/77] fix: reject jumps to undefined labels in macros that
 are not called (C10)

---
 .../compiler/compiler_visitor/macro_visitor.py            | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index f69cdab..84a04b3 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -33,7 +33,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Any
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.util import f, _
 
 
 class MacroVisitor(ExplorerScriptVisitor):
@@ -84,6 +85,11 @@ class MacroVisitor(ExplorerScriptVisitor):
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
+        defined_labels = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in defined_labels:
+                label_id = op.label.original_name
+                raise SsbCompilerError(f(_("Label {label_id} does not exist, but a jump to it does (remove it).")))
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
-- 
2.43.0


From 64ccde9a6ae0b4f394f9a7a8d7803a61ae30a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 63/77] fix: report scripts that are nested too deeply as
 compiler errors (C10)

They raised RecursionError.
---
 explorerscript/ssb_converting/ssb_compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index f7fc839..26d3bf2 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -133,6 +133,15 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except RecursionError as e:
+            raise SsbCompilerError(_("The script is nested too deeply.")) from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
+        """Does the actual work of compile."""
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
-- 
2.43.0


From cdf7b9518ddc178c0dc704cbc9869c31764f6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 64/77] fix: print jump targets as positions of operations in
 the compile CLI (C15)

---
 explorerscript/cli/compile.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..de527a3 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -26,6 +26,7 @@ import argparse
 import json
 import os
 import sys
+from itertools import chain
 from typing import TypedDict
 
 if sys.version_info >= (3, 11):
@@ -45,6 +46,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,12 +67,19 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_ops(ops: list[SsbOperation], positions: dict[int, int]) -> list[OpDict]:
+    """
+    :param positions: Positions of all operations across all routines, starting at 1, by the offset the compiler has
+                      assigned to them. These are the jump addresses in the output.
+    """
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        for param in op.params:
+        jump_param_idx = OPS_WITH_JUMP_TO_MEM_OFFSET.get(op.op_code.name)
+        for param_idx, param in enumerate(op.params):
             if isinstance(param, int):
+                if param_idx == jump_param_idx:
+                    param = positions[param]
                 out_op["params"].append(param)
             elif isinstance(param, SsbOpParamFixedPoint):
                 out_op["params"].append({"type": "FIXED_POINT", "value": param.value})
@@ -94,29 +103,30 @@ def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
     routines: list[RoutineDict] = []
+    positions = {op.offset: i for i, op in enumerate(chain.from_iterable(routine_ops), start=1)}
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, positions)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, positions)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
-- 
2.43.0


From b4831f0ad0715a47371aea5606e1a9236a70cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 65/77] fix: print the target of routines for -1 in the compile
 CLI (C15)

---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index de527a3..acdaffd 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -113,19 +113,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, positions),
             }
         else:
-- 
2.43.0


From 4111ab828bc6ffafc4a1bce3176ecba434dce61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 66/77] fix: allow --lookup to be given multiple times (C15)

---
 explorerscript/cli/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index acdaffd..aa381df 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -144,7 +144,9 @@ if __name__ == "__main__":
         required=True,
         help="The JSON file containing the settings for the compiler.",
     )
-    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", metavar="PATH", help="Lookup paths.")
+    parser.add_argument(
+        "--lookup", dest="lookup_paths", nargs="*", action="extend", metavar="PATH", help="Lookup paths."
+    )
     parser.add_argument(
         "--source-map",
         dest="source_map",
-- 
2.43.0


From ccfc52fedb90284063f781c03f961b3fae1da9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 67/77] fix: coordinates of position marks are numbers in the
 SSB JSON (C15)

---
 explorerscript/cli/compile.py   | 15 +++++++++++++--
 explorerscript/cli/decompile.py |  5 ++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index aa381df..3b167cc 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -52,7 +52,7 @@ from explorerscript.util import open_utf8
 
 class SsbParamDict(TypedDict):
     type: str
-    value: int | float | str | dict[str, str]
+    value: int | float | str | dict[str, str] | dict[str, str | int | float]
 
 
 class OpDict(TypedDict):
@@ -67,6 +67,10 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
+def build_pos_mark_arg(arg_str: str) -> int | float:
+    return float(arg_str) if "." in arg_str else int(arg_str)
+
+
 def build_ops(ops: list[SsbOperation], positions: dict[int, int]) -> list[OpDict]:
     """
     :param positions: Positions of all operations across all routines, starting at 1, by the offset the compiler has
@@ -91,7 +95,14 @@ def build_ops(ops: list[SsbOperation], positions: dict[int, int]) -> list[OpDict
                 out_op["params"].append({"type": "LANG_STRING", "value": param.strings})
             elif isinstance(param, SsbOpParamPositionMarker):
                 out_op["params"].append(
-                    {"type": "POSITION_MARK", "value": {"name": param.name, "x": param.x_final, "y": param.y_final}}
+                    {
+                        "type": "POSITION_MARK",
+                        "value": {
+                            "name": param.name,
+                            "x": build_pos_mark_arg(param.x_final),
+                            "y": build_pos_mark_arg(param.y_final),
+                        },
+                    }
                 )
             else:
                 raise ValueError("Invalid parameter.")
diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..b173961 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -81,7 +81,10 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
+def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
+    if isinstance(arg, float) and arg.is_integer():
+        arg = int(arg)
+    arg_str = str(arg)
     arg_str_arr = arg_str.split(".")
     if len(arg_str_arr) < 2:
         return exps_int(arg_str), 0
-- 
2.43.0


From c6db12a16c8b094778aaea8c5bd9791f67cc69af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 68/77] fix: decompile CLI did not accept coroutines (C15)

---
 explorerscript/cli/decompile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index b173961..373cd3e 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -138,7 +138,7 @@ def read_routines(
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
-    for r in routines:
+    for r_id, r in enumerate(routines):
         if "ops" not in r:
             raise ValueError("Ops for a routine not set.")
         if "type" not in r:
@@ -146,11 +146,11 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(r_id, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "GENERIC":
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "ACTOR":
@@ -162,7 +162,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "OBJECT":
@@ -174,7 +174,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "PERFORMER":
@@ -186,7 +186,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         else:
-- 
2.43.0


From ab3d4c29821612c677ab9820b92dbe26f47079d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 69/77] fix: decompile CLI did not accept constants in argument
 form as targets (C15)

---
 explorerscript/cli/decompile.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 373cd3e..05d5cb9 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -78,7 +78,7 @@ class RoutineDict(TypedDict):
     type: str
     ops: list[OpDict]
     name: NotRequired[str]
-    target_id: NotRequired[str]
+    target_id: NotRequired[int | str | ParamDict]
 
 
 def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
@@ -132,6 +132,15 @@ def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
     return out_ops
 
 
+def read_target_id(target_id: int | str | ParamDict) -> int | str:
+    """The target can be given as an integer, the name of a constant or a constant argument."""
+    if isinstance(target_id, dict):
+        if target_id.get("type") != "CONSTANT" or "value" not in target_id:
+            raise ValueError("Invalid target for a routine.")
+        return str(target_id["value"])
+    return target_id if isinstance(target_id, int) else str(target_id)
+
+
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
@@ -158,10 +167,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             linked_to = -1
             linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
+            target_id = read_target_id(r["target_id"])
+            if isinstance(target_id, int):
+                linked_to = target_id
             else:
-                linked_to_name = str(r["target_id"])
+                linked_to_name = target_id
             named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
@@ -170,10 +180,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             linked_to = -1
             linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
+            target_id = read_target_id(r["target_id"])
+            if isinstance(target_id, int):
+                linked_to = target_id
             else:
-                linked_to_name = str(r["target_id"])
+                linked_to_name = target_id
             named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
@@ -182,10 +193,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             linked_to = -1
             linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
+            target_id = read_target_id(r["target_id"])
+            if isinstance(target_id, int):
+                linked_to = target_id
             else:
-                linked_to_name = str(r["target_id"])
+                linked_to_name = target_id
             named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
-- 
2.43.0


From f0777654ebd2d99302f1e48c8f1548374cf84591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 70/77] fix: calling convert of a decompiler again gave another
 result (C11)

---
 explorerscript/ssb_converting/ssb_decompiler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 2370a10..3210c7a 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -120,22 +120,24 @@ class ExplorerScriptSsbDecompiler:
         self._line_number = 1
         self.smb = SourceMapBuilder()
         self._last_jump = None
+        self.forever_start_handler_stack = []
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
 
         # Step 1: Build labels
+        # (self._routine_ops is left as it is, convert may be called again).
         resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        routine_ops = list(resolver)
         has_any_calls = any(
             any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
+            for rtn in routine_ops
         )
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
             # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
-- 
2.43.0


From 903c282defb30f48bc09c78698a0c4ad8e576191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 71/77] fix: operations of several documents were counted on in
 the decompile CLI (C11)

---
 explorerscript/cli/decompile.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 05d5cb9..877fa1d 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,8 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
 
 class OpDict(TypedDict):
     params: list[ParamDict]
@@ -93,7 +91,7 @@ def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -144,6 +142,8 @@ def read_target_id(target_id: int | str | ParamDict) -> int | str:
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
+    # The operations are counted across all routines.
+    counter = Counter()
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
@@ -157,11 +157,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(r_id, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -174,7 +174,7 @@ def read_routines(
                 linked_to_name = target_id
             named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -187,7 +187,7 @@ def read_routines(
                 linked_to_name = target_id
             named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -200,7 +200,7 @@ def read_routines(
                 linked_to_name = target_id
             named_coroutines.append(SsbCoroutine(r_id, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0


From b05f877211c048ef86b78f62a9e1072cecba8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 72/77] fix: do not connect Hold twice with the op behind it
 (C13)

---
 .../decompiler/graph_building/graph_minimizer.py             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 24ad1e6..4586d3f 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -902,8 +902,9 @@ class SsbGraphMinimizer:
         # If this would be the end but we are "Hold", then MAYBE there's still a statement after use, which we should
         # include, see notes at constant.
         if real_op.op_code.name == OP_HOLD and len(rtn) > op_i + 1:
-            if rtn[op_i + 1].op_code.name in OPS_THAT_END_CONTROL_FLOW:
-                next_ops.append((flow_level, op_i + 1))
+            next_op = (flow_level, op_i + 1)
+            if rtn[op_i + 1].op_code.name in OPS_THAT_END_CONTROL_FLOW and next_op not in next_ops:
+                next_ops.append(next_op)
 
         return next_ops
 
-- 
2.43.0


From da7b61fc8ddf329f7a9203d6c1ac71680ca201da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 73/77] fix: print conditions and assignments as operations if
 the index or the scenario numbers are no integers

---
 .../write_handlers/label_jumps/if_start.py    | 11 +++++++---
 .../write_handlers/simple_ops/flag.py         | 22 ++++++++++++++-----
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index fd10e1e..e568ad6 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -140,8 +140,10 @@ class IfWriteHandler(AbstractWriteHandler):
         if op.op_code.name == "Branch":
             return f"{op.params[0]} {SsbOperator.EQ.notation} {op.params[1]}"
         if op.op_code.name == "BranchBit":
-            if str(op.params[0]) == self.decompiler.performance_progress_list_var_name:
-                # The short form for this variable is BranchPerformance.
+            if str(op.params[0]) == self.decompiler.performance_progress_list_var_name or not isinstance(
+                op.params[1], int
+            ):
+                # The short form for this variable is BranchPerformance. The index must be a number in the short form.
                 return self._if_header_for_operation(op)
             return f"{op.params[0]}[{op.params[1]}]"
         if op.op_code.name == "BranchDebug":
@@ -159,10 +161,13 @@ class IfWriteHandler(AbstractWriteHandler):
         if op.op_code.name == "BranchExecuteSub":
             return self._if_header_for_operation(op)
         if op.op_code.name == "BranchPerformance":
-            if op.params[1] not in (0, 1):
+            if op.params[1] not in (0, 1) or not isinstance(op.params[0], int):
                 return self._if_header_for_operation(op)
             n = "not " if op.params[1] == 0 else ""
             return f"{n}{self.decompiler.performance_progress_list_var_name}[{op.params[0]}]"
+        if op.op_code.name.startswith("BranchScenario") and not all(isinstance(x, int) for x in op.params[1:]):
+            # The scenario numbers must be numbers in the short forms.
+            return self._if_header_for_operation(op)
         if op.op_code.name == "BranchScenarioNow":
             return f"scn({op.params[0]}) == [{op.params[1]}, {op.params[2]}]"
         if op.op_code.name == "BranchScenarioNowAfter":
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index f8a9b05..7544901 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -59,8 +59,10 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
         op: SsbOperation = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
         if op.op_code.name == OPS_FLAG__CALC_BIT:
-            if str(op.params[0]) == self.decompiler.performance_progress_list_var_name:
-                # The short form for this variable is flag_SetPerformance.
+            if str(op.params[0]) == self.decompiler.performance_progress_list_var_name or not isinstance(
+                op.params[1], int
+            ):
+                # The short form for this variable is flag_SetPerformance. The index must be a number in the short form.
                 self.decompiler.write_stmnt(f"{op.op_code.name}({op.params[0]}, {op.params[1]}, {op.params[2]});")
             else:
                 self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
@@ -90,11 +92,19 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
             flag_value = self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[1])  # type: ignore
             self.decompiler.write_stmnt(f"dungeon_mode({op.params[0]}) = {flag_value};")
         elif op.op_code.name == OPS_FLAG__SET_PERFORMANCE:
-            self.decompiler.write_stmnt(
-                f"{self.decompiler.performance_progress_list_var_name}[{op.params[0]}] = {op.params[1]};"
-            )
+            if not isinstance(op.params[0], int):
+                # The index must be a number in the short form.
+                self.decompiler.write_stmnt(f"{op.op_code.name}({op.params[0]}, {op.params[1]});")
+            else:
+                self.decompiler.write_stmnt(
+                    f"{self.decompiler.performance_progress_list_var_name}[{op.params[0]}] = {op.params[1]};"
+                )
         elif op.op_code.name == OPS_FLAG__SET_SCENARIO:
-            self.decompiler.write_stmnt(f"{op.params[0]} = scn[{op.params[1]}, {op.params[2]}];")
+            if not isinstance(op.params[1], int) or not isinstance(op.params[2], int):
+                # The scenario numbers must be numbers in the short form.
+                self.decompiler.write_stmnt(f"{op.op_code.name}({op.params[0]}, {op.params[1]}, {op.params[2]});")
+            else:
+                self.decompiler.write_stmnt(f"{op.params[0]} = scn[{op.params[1]}, {op.params[2]}];")
         else:
             raise ValueError(f"Unknown flag setting opcode: {op}")
 
-- 
2.43.0


From ade4b047b4ae4cde36d6ac849097fea06a81ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 74/77] fix: continue behind calls that leave several loops

---
 .../decompiler/write_handlers/label_jumps/call.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index fda0e2c..e8e7007 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -66,8 +66,8 @@ class CallWriteHandler(AbstractWriteHandler):
 
     def _leads_to_called_label(self, v: Vertex) -> bool:
         called_label = self.start_vertex["op"].label
-        if isinstance(v["op"], SsbLabelJump) and isinstance(v["op"].get_marker(), (ForeverBreak, ForeverContinue)):
-            # This was inserted while building loops.
+        while isinstance(v["op"], SsbLabelJump) and isinstance(v["op"].get_marker(), (ForeverBreak, ForeverContinue)):
+            # This was inserted while building loops. There's one for each of the loops that are left.
             v = v.out_edges()[0].target_vertex
         if isinstance(v["op"], SsbForeignLabel):
             return v["op"].label is called_label
-- 
2.43.0


From 237450a3b68a21249ebdef9b107afff6d8f96218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 75/77] fix: map statements that jump to the jumps that were
 taken out of the graph

---
 .../graph_building/graph_minimizer.py         | 15 ++++++++++
 .../decompiler/write_handlers/block.py        |  2 ++
 .../label_jumps/forever_break.py              |  4 ++-
 .../label_jumps/forever_continue.py           |  4 ++-
 .../ssb_converting/ssb_decompiler.py          | 30 +++++++++++++++++++
 5 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 4586d3f..ab87a18 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -76,6 +76,8 @@ class SsbGraphMinimizer:
     def __init__(self, routine_ops: Sequence[Sequence[SsbOperation]], optimize_ending_opcodes: bool = True):
         self._graphs: list[Graph] = []
         self.optimize_ending_opcodes = optimize_ending_opcodes
+        # Offsets of the jumps that were removed from the graphs, by the offsets of the operations before them
+        self.removed_jumps: dict[int, int] = {}
         for rtn_id, rtn in enumerate(routine_ops):
             g = Graph(directed=True)
             self._graphs.append(g)
@@ -204,6 +206,7 @@ class SsbGraphMinimizer:
                             in_edges = v_on_if_bef_end.in_edges()
                             if len(in_edges) > 0:  # TODO: Why is this < 1 sometimes? This really shouldn't happen...?
                                 e_before_jump_on_if = in_edges[0]
+                                self._remember_removed_jump(e_before_jump_on_if)
                                 self._reconnect(g, e_before_jump_on_if.source, e_before_jump_on_if, end_vertex)
 
                         if e_on_if_bef_end == e_on_else_bef_end:
@@ -221,6 +224,7 @@ class SsbGraphMinimizer:
                             in_edges = v_on_else_bef_end.in_edges()
                             if len(in_edges) > 0:  # TODO: Why is this < 1 sometimes? This really shouldn't happen...?
                                 e_before_jump_on_else = in_edges[0]
+                                self._remember_removed_jump(e_before_jump_on_else)
                                 self._reconnect(g, e_before_jump_on_else.source, e_before_jump_on_else, end_vertex)
 
             g.delete_vertices(vs_to_delete)
@@ -429,6 +433,7 @@ class SsbGraphMinimizer:
                                 vs_to_delete.add(e.source_vertex.index)
                                 e_before_jump = g.es[g.incident(e.source_vertex, IN)[0]]
                                 es_to_delete.append(e_before_jump)
+                                self._remember_removed_jump(e_before_jump)
                                 self._reconnect(g, e_before_jump.source, e_before_jump, end_vertex, True)
                         g.delete_edges(es_to_delete)
 
@@ -733,6 +738,7 @@ class SsbGraphMinimizer:
                             # shouldn't remove it
                             # (may be a loop start for example)
                             continue
+                        self._remember_removed_jump(in_edges[0])
                         e = self._reconnect(g, v_before, in_edges[0], v_after, True)
                         e["flow_level"] = e["flow_level"] + 1
                         self._update_edge_style(e)
@@ -908,6 +914,15 @@ class SsbGraphMinimizer:
 
         return next_ops
 
+    def _remember_removed_jump(self, e: Edge) -> None:
+        """
+        Has to be called before the jump that e leads to is removed. If the statement for it has to be written
+        anyway, the decompiler needs to know that it was the jump after the operation before it.
+        """
+        op_before: SsbOperation = e.source_vertex["op"]
+        if not isinstance(op_before, (SsbLabel, SsbLabelJump, SsbForeignLabel)):
+            self.removed_jumps.setdefault(op_before.offset, e.target_vertex["op"].offset)
+
     @classmethod
     def _reconnect(
         cls,
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/block.py b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
index 022801a..d6ba066 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/block.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/block.py
@@ -128,6 +128,8 @@ class BlockWriteHandler(AbstractWriteHandler):
                 self.decompiler.ops_already_printed.add(op_key)
             self._next_vertex = self.last_handler_in_block.write_content()
             assert self._next_vertex is None or isinstance(self._next_vertex, Vertex)
+            if not isinstance(previous_vertex["op"], (SsbLabel, SsbForeignLabel, SsbLabelJump)):
+                self.decompiler.source_map_end_of_op()
 
         # Perform basic end-of-branch check (to see if we need an end, return or hold).
         # we don't need to do that on jumps or fallthrough. Blocks that belong to a single operation can not
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 2d9e5f0..10403d7 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -62,8 +62,10 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
             raise FallbackToJump()
         op: SsbLabelJump = self.start_vertex["op"]
         if op.root.op_code.name == OP_JUMP:
-            # Otherwise there is no op for this statement, the root is the op before it.
+            # Otherwise the root is the op before this statement.
             self.decompiler.source_map_add_opcode(op.offset)
+        else:
+            self.decompiler.source_map_add_removed_jump()
         self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 87b0a4d..3df467b 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -63,8 +63,10 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
         if not self._continue_is_implicit():
             op: SsbLabelJump = self.start_vertex["op"]
             if op.root.op_code.name == OP_JUMP:
-                # Otherwise there is no op for this statement, the root is the op before it.
+                # Otherwise the root is the op before this statement.
                 self.decompiler.source_map_add_opcode(op.offset)
+            else:
+                self.decompiler.source_map_add_removed_jump()
             self.decompiler.write_stmnt("continue;  // may be redundant")
         return None
 
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 3210c7a..2ba68ee 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -72,6 +72,12 @@ class ExplorerScriptSsbDecompiler:
     smb: SourceMapBuilder | None
     # Offset of the last jump op, and the length of the output when it was processed
     _last_jump: tuple[int, int] | None
+    # Offset of the last op in the source map
+    _last_op: int | None
+    # Length of the output when the last statement of a simple op was written
+    _last_op_end: int
+    # Offsets of jumps that are not part of the execution graph anymore, by the offsets of the ops before them
+    _removed_jumps: dict[int, int]
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
     # Since forever blocks break_loops do NOT have to be on the exact next level, we use a stack system instead!
@@ -105,6 +111,9 @@ class ExplorerScriptSsbDecompiler:
         self.current_routine_id = -1
         self.smb = None
         self._last_jump = None
+        self._last_op = None
+        self._last_op_end = -1
+        self._removed_jumps = {}
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
         self.forever_start_handler_stack = []
@@ -120,6 +129,9 @@ class ExplorerScriptSsbDecompiler:
         self._line_number = 1
         self.smb = SourceMapBuilder()
         self._last_jump = None
+        self._last_op = None
+        self._last_op_end = -1
+        self._removed_jumps = {}
         self.forever_start_handler_stack = []
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
@@ -157,6 +169,7 @@ class ExplorerScriptSsbDecompiler:
 
             # Step 3:
             # We can now just go through the graph and build the result.
+            self._removed_jumps = grapher.removed_jumps
             for r_id, (r_info, r_graph) in enumerate(zip(self._routine_infos, grapher.get_graphs())):
                 logger.debug(
                     "Decompiling (%d, %s)...",
@@ -221,6 +234,8 @@ class ExplorerScriptSsbDecompiler:
         """Write a statement that jumps; it is the one of the jump op before it, if nothing was written for that."""
         if self._last_jump is not None and self._last_jump[1] == len(self._output):
             self.source_map_add_opcode(self._last_jump[0])
+        else:
+            self.source_map_add_removed_jump()
         self.write_stmnt(stmnt)
 
     def write_label_jump(self, label_id: int, previous_op: SsbOperation) -> None:
@@ -250,6 +265,21 @@ class ExplorerScriptSsbDecompiler:
         # TODO: Assumes that all statements start in a new line after indent.
         #       Might need this more flexible.
         self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        self._last_op = op_offset
+
+    def source_map_end_of_op(self) -> None:
+        """Has to be called AFTER the statement of a simple op was written."""
+        self._last_op_end = len(self._output)
+
+    def source_map_add_removed_jump(self) -> None:
+        """
+        Has to be called BEFORE writing a statement that jumps. If there was a jump after the op before it, but it was
+        removed from the graph, this is the statement for it.
+        """
+        if self._last_op is None or self._last_op_end != len(self._output):
+            return
+        if self._last_op in self._removed_jumps:
+            self.source_map_add_opcode(self._removed_jumps[self._last_op])
 
     def source_map_add_jump(self, op_offset: int) -> None:
         """A jump is only part of the source map, if a statement is written for it next."""
-- 
2.43.0


From 909026166ceea8294d60cae101165de721084fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 76/77] fix: decompiled text depended on the memory order of
 edge sets

The decompiler went through sets of edges, whose order depends on memory
addresses. For loops with several break points this changed the names of
switch labels from one call to the next for the very same routines.
---
 .../decompiler/graph_building/graph_minimizer.py         | 3 ++-
 .../decompiler/graph_building/graph_utils.py             | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index ab87a18..8e4e6c0 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -699,7 +699,8 @@ class SsbGraphMinimizer:
         else:
             breaks_set = set(immediate_breaks)
 
-        return True, list(b for b in breaks_set if b not in continues), continues
+        # (sorted, because the order of the edges in the set differs from run to run)
+        return True, sorted((b for b in breaks_set if b not in continues), key=lambda e: e.index), continues
 
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index c13b3a1..f38c1ff 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -101,6 +101,11 @@ def find_first_common_next_vertex_in_edges(
     return result
 
 
+def _sort_edges(es: set[Edge | None]) -> list[Edge | None]:
+    """Returns the edges sorted by their index, because the order of edges in a set differs from run to run."""
+    return sorted(es, key=lambda e: -1 if e is None else e.index)
+
+
 def _find_first_common_next_vertex_in_edges__impl(
     g: Graph,
     es: list[set[Edge | None]],
@@ -126,7 +131,7 @@ def _find_first_common_next_vertex_in_edges__impl(
         # Add current edges to list of visited
         for i, e_set in enumerate(es):
             should_remove = set()
-            for e in e_set:
+            for e in _sort_edges(e_set):
                 if e is not None:
                     if len(map_of_visited) <= i:
                         map_of_visited.append({})
@@ -153,7 +158,7 @@ def _find_first_common_next_vertex_in_edges__impl(
         for i, e_set in enumerate(es):
             new_es_entry: set[Edge | None] = set()
             new_es.append(new_es_entry)
-            for e in e_set:
+            for e in _sort_edges(e_set):
                 if e is None:
                     new_es_entry.add(None)
                     continue
-- 
2.43.0


From d9ed9367cc3e096020af750b84ea3a4a3cbd8d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:29 +0000
Subject: [PATCH 77/77] fix: variables of a calling macro replaced game
 variables of the same name in called macros

A variable in the body of a macro that is none of its own variables was
taken for a variable of the macro that calls it, if that had one with
the same name.
---
 explorerscript/macro.py                         | 5 ++++-
 explorerscript/ssb_converting/ssb_data_types.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 3c263b3..cfacb09 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -254,9 +254,12 @@ class ExplorerScriptMacro:
         for p in original_params:
             if isinstance(p, SsbOpParamConstant):
                 p_as_str = str(p)
-                if p_as_str in macro_params:
+                if p_as_str in macro_params and not p.no_macro_variable:
                     new_params.append(macro_params[p_as_str])
                 else:
+                    # Variables of macros that call us may have the same name.
+                    p = SsbOpParamConstant(p_as_str)
+                    p.no_macro_variable = True
                     new_params.append(p)
             else:
                 new_params.append(p)
diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index b212a8c..31179ba 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -238,6 +238,8 @@ class SsbOpParamConstant:
     """An actual constant representing an int"""
 
     name: str
+    # Set for the constants in built macros that are none of the variables of the macro they come from.
+    no_macro_variable: bool = False
 
     def __init__(self, name: str):
         self.name = name
-- 
2.43.0

