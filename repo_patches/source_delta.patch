From dce59483594bad7b53f978764f39db07a624d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:16 +0000
Subject: [PATCH 01/54] fix: routines whose end is jumped to keep an op at
 their end

Labels at the end of a routine were dropped and jumps to them turned into
Return ops. That lost conditional jumps (branches, cases, calls) to them, could
remove the wrong jump, and left jumps from other routines dangling. Now the
end of such a routine gets an actual Return op that is the target instead.
---
 .../compiler_visitor/routine_visitor.py       | 25 +++++++-
 .../ssb_converting/compiler/utils.py          | 58 +++++++------------
 explorerscript/ssb_converting/ssb_compiler.py |  4 +-
 3 files changed, 47 insertions(+), 40 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..5ff10b7 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -35,7 +35,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.for_targe
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_def import SimpleDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
+from explorerscript.ssb_converting.ssb_data_types import SsbOpCode, SsbRoutineInfo, SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import OP_DUMMY_END, SsbLabel
 
 
 class RoutineVisitor(ExplorerScriptVisitor):
@@ -45,6 +46,8 @@ class RoutineVisitor(ExplorerScriptVisitor):
     routine_infos: list[SsbRoutineInfo]
     routine_ops: list[list[SsbOperation]]
     named_coroutines: list[str]
+    # For routines that don't end in an operation: The operation that ends them, if something jumps to their end.
+    routine_end_ops: dict[int, SsbOperation]
     # Source map
     source_map_builder: SourceMapBuilder
 
@@ -60,6 +63,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self.routine_infos = []
         self.routine_ops = []
         self.named_coroutines = []
+        self.routine_end_ops = {}
         self.source_map_builder: SourceMapBuilder = SourceMapBuilder()
 
         self.compiler_ctx = CompilerCtx(
@@ -86,6 +90,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
             self._root_handler.collect()
         )
+        self._reserve_end_op(ctx)
 
     def visitCoro_def(self, ctx: ExplorerScriptParser.Coro_defContext) -> None:
         self._root_handler = CoroDefCompileHandler(ctx, self.compiler_ctx)
@@ -98,6 +103,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
             self.routine_infos[self._active_routine_id],
             self.routine_ops[self._active_routine_id],
         ) = self._root_handler.collect()
+        self._reserve_end_op(ctx)
 
     def visitFor_target_def(self, ctx: ExplorerScriptParser.For_target_defContext) -> None:
         self._root_handler = ForTargetDefCompileHandler(ctx, self.compiler_ctx)
@@ -108,6 +114,7 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self.routine_infos[self._active_routine_id], self.routine_ops[self._active_routine_id] = (
             self._root_handler.collect()
         )
+        self._reserve_end_op(ctx)
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> list[SsbOperation]:
         return []
@@ -128,3 +135,19 @@ class RoutineVisitor(ExplorerScriptVisitor):
                 self.routine_infos.append(None)  # type: ignore
                 self.routine_ops.append([])
                 self.named_coroutines.append([])  # type: ignore
+
+    def _reserve_end_op(
+        self,
+        ctx: (
+            ExplorerScriptParser.Simple_defContext
+            | ExplorerScriptParser.Coro_defContext
+            | ExplorerScriptParser.For_target_defContext
+        ),
+    ) -> None:
+        """If the routine doesn't end in an operation, reserve the number for one to end it (see strip_last_label)."""
+        ops = self.routine_ops[self._active_routine_id]
+        if ctx.func_suite().func_alias() is not None or (len(ops) > 0 and not isinstance(ops[-1], SsbLabel)):
+            return
+        number = self.compiler_ctx.counter_ops()
+        self.source_map_builder.add_opcode(number, ctx.stop.line - 1, ctx.stop.column)
+        self.routine_end_ops[self._active_routine_id] = SsbOperation(number, SsbOpCode(-1, OP_DUMMY_END), [])
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..f229d45 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -37,7 +37,6 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
     SsbLabelJump,
     OPS_THAT_END_CONTROL_FLOW,
-    OP_DUMMY_END,
     OPS_CTX,
 )
 from explorerscript.util import f, _
@@ -252,48 +251,31 @@ def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> boo
     return True
 
 
-def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
+def strip_last_label(
+    routine_ops: list[list[SsbOperation]], end_ops: dict[int, SsbOperation]
+) -> list[list[SsbOperation]]:
     """
-    Checks if the last opcode of a routine is a label, and if so
-    removes it. if there are jumps to it, they are removed and replaced with an OP_DUMMY_END.
+    Checks if the last opcode of a routine is a label, and if so removes it. If there are jumps to it (from any
+    routine), or if nothing else would be left of the routine, the operation from end_ops (an OP_DUMMY_END) is
+    inserted there instead. Empty routines (aliases) have no entry in end_ops and stay empty.
     """
     logger.debug("Stripping last label...")
-    returned_routine_ops = []
+    jump_targets = set()
     for routine in routine_ops:
-        if len(routine) > 0:
-            jump_counts: dict[int, int] = {}
-            for op in routine:
-                if isinstance(op, SsbLabelJump) and op.label is not None:
-                    jump_counts[op.label.id] = jump_counts.get(op.label.id, 0) + 1
-
-            while isinstance(routine[-1], SsbLabel):
-                indices_to_remove = set()
-                label = routine[-1]
-                # Remove the label
-                del routine[-1]
-                # Replace the jumps to it with returns
-                op_before_ends_control_flow = False
-                for op_i, op in enumerate(routine):
-                    if isinstance(op, SsbLabelJump) and op.label == label:
-                        # We only have to insert the OP_DUMMY_END, if the previous op didn't end control flow
-                        if op_before_ends_control_flow:
-                            indices_to_remove.add(op_i)
-                        else:
-                            routine[op_i] = SsbOperation(op.offset, SsbOpCode(-1, OP_DUMMY_END), [])
-                            op_before_ends_control_flow = False
-                    else:
-                        if isinstance(op, SsbLabel):
-                            # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
-                                op_before_ends_control_flow = False
-                        else:
-                            op_before_ends_control_flow = does_op_end_control_flow(
-                                op, routine[op_i - 1] if op_i > 0 else None
-                            )
-                routine = [x for i, x in enumerate(routine) if i not in indices_to_remove]
-            returned_routine_ops.append(routine)
+        for op in routine:
+            if isinstance(op, SsbLabelJump) and op.label is not None:
+                jump_targets.add(op.label.id)
+
+    returned_routine_ops = []
+    for r_id, routine in enumerate(routine_ops):
+        end = len(routine)
+        while end > 0 and isinstance(routine[end - 1], SsbLabel):
+            end -= 1
+        is_jumped_to = any(isinstance(op, SsbLabel) and op.id in jump_targets for op in routine[end:])
+        if r_id in end_ops and (end == 0 or is_jumped_to):
+            returned_routine_ops.append(routine + [end_ops[r_id]])
         else:
-            returned_routine_ops.append([])
+            returned_routine_ops.append(routine[:end])
     return returned_routine_ops
 
 
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..8472d97 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -239,7 +239,9 @@ class ExplorerScriptSsbCompiler:
         assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
 
         # Copy from listener / remove labels and label jumps
-        label_finalizer = LabelFinalizer(strip_last_label(compiler_visitor.routine_ops))
+        label_finalizer = LabelFinalizer(
+            strip_last_label(compiler_visitor.routine_ops, compiler_visitor.routine_end_ops)
+        )
 
         self.routine_ops = OpsLabelJumpToRemover(label_finalizer.routines, label_finalizer.label_offsets).routines
         self.routine_infos = compiler_visitor.routine_infos
-- 
2.43.0


From 56f83bdcc803bb9048eb28193ef8434190872e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 02/54] fix: don't remove jumps over a call or branch to the
 next label

A regular jump was also dropped as redundant when a call or branch stood
between it and its label, so that operation was executed.
---
 explorerscript/ssb_converting/compiler/label_finalizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..c6d50d7 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -72,6 +72,9 @@ class LabelFinalizer:
         try:
             while isinstance(r[cursor], SsbLabel) or isinstance(r[cursor], SsbLabelJump):
                 if isinstance(r[cursor], SsbLabelJump):
+                    if r[cursor].root.op_code.name != OP_JUMP:  # type: ignore
+                        # Only regular jumps are removed, calls and branches stay.
+                        break
                     # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
                     have_match = False
-- 
2.43.0


From 26f00a77365221c814dfea392931f781d171f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:36 +0000
Subject: [PATCH 03/54] fix: keep lone jumps of blocks where they are still
 needed

A block consisting only of a jump had the header jump straight to the target of
that jump. This is wrong for negated conditions, where the header jumps over
the block, and for switch cases, which can also be entered by falling through
from the previous case.
---
 .../ssb_converting/compiler/compile_handlers/abstract.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..f27e43c 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -174,12 +174,17 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
         ):
             # Just has a jump, insert that into the headers instead
             for hjb in self._header_jump_blueprints:
                 assert ops[0].label is not None
                 self.processed_header_jumps.append(hjb.build_for(ops[0].label))
             self.start_label = ops[0].label
+            if not insert_the_jump_if_needed:
+                # The block may also be entered from whatever is in front of it, so the jump has to stay.
+                label = SsbLabel(self.compiler_ctx.counter_labels(), -1, f"{self.__class__.__name__} block start label")
+                return [label, ops[0], self.end_label]
             return [self.end_label]  # in this case we don't actually have any operations to write
 
         if insert_the_jump_if_needed and (
-- 
2.43.0


From dbbf0d5250314f5617a1f924e5dffa5417446bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 04/54] fix: reject routine ids that don't count up from 0

Gaps left routines without info in the result, duplicate ids silently replaced
routines and out of order ids failed an assertion.
---
 .../compiler_visitor/routine_visitor.py       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index 5ff10b7..31df758 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -26,6 +26,7 @@ from typing import cast
 
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
+from explorerscript.error import SsbCompilerError
 from explorerscript.macro import ExplorerScriptMacro
 from explorerscript.source_map import SourceMapBuilder
 from explorerscript.ssb_converting.compiler.compile_handlers.abstract import AnyCompileHandler
@@ -37,6 +38,7 @@ from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor i
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
 from explorerscript.ssb_converting.ssb_data_types import SsbOpCode, SsbRoutineInfo, SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import OP_DUMMY_END, SsbLabel
+from explorerscript.util import f, _
 
 
 class RoutineVisitor(ExplorerScriptVisitor):
@@ -129,12 +131,18 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
     def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+        if self._active_routine_id != len(self.routine_infos):
+            raise SsbCompilerError(
+                f(
+                    _(
+                        "Routine ids must start at 0 and increase by one without gaps "
+                        "(expected {len(self.routine_infos)}, got {self._active_routine_id})."
+                    )
+                )
+            )
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
 
     def _reserve_end_op(
         self,
-- 
2.43.0


From c04ffc10cbb152bb9530eefac1afa12eaad7c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 05/54] fix: report fixed point numbers as routine targets
 properly

They raised an AttributeError.
---
 .../compile_handlers/functions/for_target_def.py  | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index f8cf6c0..e3f0090 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -34,8 +34,13 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 )
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam
-from explorerscript.util import exps_int
+from explorerscript.ssb_converting.ssb_data_types import (
+    SsbOpParam,
+    SsbOpParamConstant,
+    SsbRoutineInfo,
+    SsbRoutineType,
+)
+from explorerscript.util import _, exps_int, f
 
 
 class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptParser.For_target_defContext]):
@@ -53,7 +58,11 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         try:
             linked_to = exps_int(integer_like)  # type: ignore
         except ValueError:
-            linked_to_name = integer_like.name  # type: ignore
+            if not isinstance(integer_like, SsbOpParamConstant):
+                raise SsbCompilerError(
+                    f(_("The target of a routine must be an integer or a constant (line {self.ctx.start.line})."))
+                )
+            linked_to_name = integer_like.name
 
         target: ExplorerScriptParser.For_target_def_targetContext = self.ctx.for_target_def_target()
         legacy_deprecated_target = target.FOR_TARGET()
-- 
2.43.0


From 160d0b0b1b823bed05930d9de2adc1cdad707f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 06/54] fix: don't run past the end of scripts consisting only
 of attributes

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..c9b359a 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -35,10 +35,8 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     attributes = {}
     attribute_reader_line = 0
     lines = explorerscript_src.splitlines()
-    if len(lines) < 1:
-        return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From 68575b6c43594e2d4f74d64069ecb94dea19d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 07/54] fix: resolve macros after all macros they depend on

The order was built breadth-first per root, which put macros before others they
call. The cycle check also enumerated all simple paths (exponential).
---
 .../macro_resolution_order.py                 | 31 ++++++-------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..ba8d21b 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -22,7 +22,7 @@
 #
 from __future__ import annotations
 
-from igraph import Graph, Vertex
+from igraph import Graph
 
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
@@ -51,16 +51,8 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        # Macros have to come after all of the macros they depend on.
+        return [self._dependency_graph.vs[i]["name"] for i in self._dependency_graph.topological_sorting()]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
@@ -89,17 +81,12 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
             self._dependency_graph.add_vertex(name, label=name)
 
     def _check_cycles(self) -> None:
-        for v in self._dependency_graph.vs:
-            if any(self._has_path(out_e.target, v) for out_e in v.out_edges()):
+        if self._dependency_graph.is_dag():
+            return
+        for component in self._dependency_graph.connected_components(mode="strong"):
+            v = self._dependency_graph.vs[component[0]]
+            # A macro that is part of a cycle or that directly depends on itself
+            if len(component) > 1 or self._dependency_graph.are_adjacent(v, v):
                 raise SsbCompilerError(
                     f(_("Dependency cycle detected while trying to resolve macros (for macro '{v['name']}')."))
                 )
-            # Check direct cycles
-            if any(v.index == e.target for e in v.out_edges()):
-                raise SsbCompilerError(
-                    f(_("Dependency cycle detected while trying to resolve macros (for macro '{v['name']}')."))
-                )
-
-    def _has_path(self, a: Vertex | int, b: Vertex) -> bool:
-        # TODO: can be done more efficiently
-        return len(b.graph.get_all_simple_paths(a, b)) > 0
-- 
2.43.0


From 73d350657e320965c2ad75ac159752b87c07dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 08/54] fix: give every macro its own labels, source map and
 position marks

Macros of one file shared them: a jump could end up in another macro and calling
one macro recorded the position marks of all macros in the file under its name.
---
 .../ssb_converting/compiler/compiler_visitor/macro_visitor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..d2b9e30 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -75,6 +75,10 @@ class MacroVisitor(ExplorerScriptVisitor):
 
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
+        # Labels, source map entries and position marks are private to each macro.
+        self.source_map_builder = SourceMapBuilder()
+        self.compiler_ctx.source_map_builder = self.source_map_builder
+        self.compiler_ctx.collected_labels = {}
         self._root_handler = macrodef_handler
         self.visitChildren(macrodef_handler.ctx)
 
-- 
2.43.0


From d888202140360068d7285e8946ea80613d20c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 09/54] fix: reject jumps to undefined labels in macros that
 are never called

---
 .../compiler/compiler_visitor/macro_visitor.py            | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index d2b9e30..2c7f99b 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -33,7 +33,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Any
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.util import _, f
 
 
 class MacroVisitor(ExplorerScriptVisitor):
@@ -86,6 +87,11 @@ class MacroVisitor(ExplorerScriptVisitor):
         name = self._root_handler.get_name()
         variables = self._root_handler.get_variables()
 
+        labels = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and (op.label is None or op.label.id not in labels):
+                raise SsbCompilerError(f(_("Macro {name} contains a jump to a label that does not exist.")))
+
         return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
-- 
2.43.0


From 38ac4ab4e43a0b0deaf8b341be582a21e89a52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 10/54] fix: don't substitute constants of called macros by
 variables of the calling macro

A macro variable also replaced constants of the same name that come from the
bodies of the macros it calls.
---
 explorerscript/macro.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 4aef2b6..7a29886 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -51,6 +51,10 @@ class MacroEndSsbLabel(SsbLabel):
     pass
 
 
+class MacroSsbOpParamConstant(SsbOpParamConstant):
+    """A constant that was written in a macro and isn't a variable of it. It stays as it is in macros that call it."""
+
+
 class ExplorerScriptMacro:
     # The name of the macro
     name: str
@@ -215,14 +219,14 @@ class ExplorerScriptMacro:
         where SsbOpConstants that match keys of macro_params are
         replaced with the respective value from that dict.
         """
-        new_params = []
+        new_params: list[SsbOpParam] = []
         for p in original_params:
-            if isinstance(p, SsbOpParamConstant):
+            if isinstance(p, SsbOpParamConstant) and not isinstance(p, MacroSsbOpParamConstant):
                 p_as_str = str(p)
                 if p_as_str in macro_params:
                     new_params.append(macro_params[p_as_str])
                 else:
-                    new_params.append(p)
+                    new_params.append(MacroSsbOpParamConstant(p_as_str))
             else:
                 new_params.append(p)
         return new_params
-- 
2.43.0


From 8be25398397eeab309d54377be08cd0471a6fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 11/54] fix: macro calls without operations don't leave their
 position to the next one

---
 explorerscript/source_map.py                                 | 5 +++++
 .../compiler/compile_handlers/operations/macro_call.py       | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..5389bab 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -412,6 +412,11 @@ class SourceMapBuilder:
         # logger.debug("<%d>: Marked next macro opcode as called in %s:%d, %d", id(self), str(if_incl_rel_path), line_number, column)
         return self
 
+    def clear_macro_opcode_called_in(self) -> SourceMapBuilder:
+        """Remove the mark for the next macro opcode, if the macro call it was for didn't add any opcodes."""
+        self._next_macro_called_in = None
+        return self
+
     def add_macro_opcode(
         self, op_offset: int, if_incl_rel_path: str | None, macro_name: str, line_number: int, column: int
     ) -> SourceMapBuilder:
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
index 40cc6f3..614e586 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/operations/macro_call.py
@@ -50,12 +50,14 @@ class MacroCallCompileHandler(
         self.compiler_ctx.source_map_builder.next_macro_opcode_called_in(
             None, self.ctx.start.line - 1, self.ctx.start.column
         )
-        return macro.build(
+        ops = macro.build(
             self.compiler_ctx.counter_ops,
             self.compiler_ctx.counter_labels,
             dict(zip(macro.variables, args)),
             self.compiler_ctx.source_map_builder,
         )
+        self.compiler_ctx.source_map_builder.clear_macro_opcode_called_in()
+        return ops
 
     def add(self, obj: ArgListCompileHandler) -> None:
         if isinstance(obj, ArgListCompileHandler):
-- 
2.43.0


From 5c883d4434657cfa8a7d7dd7a045983ed4c80d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:26 +0000
Subject: [PATCH 12/54] fix: macros imported through another file keep the path
 of their own file

---
 explorerscript/ssb_converting/ssb_compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 8472d97..4a3d507 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -295,7 +295,11 @@ class ExplorerScriptSsbCompiler:
     ) -> dict[str, ExplorerScriptMacro]:
         """Updates path information of all of the macros. See the field descriptions for more details"""
         for macro in macros.values():
-            macro.included__absolute_path = subfile_path
+            if macro.included__absolute_path is None:
+                # Otherwise the file itself imported the macro from another file.
+                macro.included__absolute_path = subfile_path
             if basefile_path is not None:
-                macro.included__relative_path = os.path.relpath(subfile_path, os.path.dirname(basefile_path))
+                macro.included__relative_path = os.path.relpath(
+                    macro.included__absolute_path, os.path.realpath(os.path.dirname(basefile_path))
+                )
         return macros
-- 
2.43.0


From af3288c215abfd04b3caf48a5dc156582c549e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 13/54] fix: reject imported files with routines

The check parsed the file a second time, starting at its end, and so never saw
any routines. SsbScript files weren't checked at all.
---
 explorerscript/ssb_converting/ssb_compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 4a3d507..12df256 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -161,11 +161,14 @@ class ExplorerScriptSsbCompiler:
                 self.routine_ops = subcompiler.routine_ops
                 self.named_coroutines = subcompiler.named_coroutines
                 self.source_map = subcompiler.source_map
+                if macros_only and len(self.routine_infos) > 0:
+                    # noinspection PyUnusedLocal
+                    fn = os.path.basename(file_name)  # noqa
+                    raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
                 return self
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -215,7 +218,7 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
+            if HasRoutinesVisitor().visit(tree):
                 # noinspection PyUnusedLocal
                 fn = os.path.basename(file_name)  # noqa
                 raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
-- 
2.43.0


From abfa8ac7986f7bd8ed7649ce341349ec4313809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 14/54] fix: report imports of directories as files that were
 not found

---
 explorerscript/ssb_converting/ssb_compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 12df256..cd68f6b 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -264,7 +264,7 @@ class ExplorerScriptSsbCompiler:
             if import_file.startswith(".") or import_file.startswith("/"):
                 # Relative or absolute import
                 abs_path = os.path.realpath(str(PurePath(PurePosixPath(dir_name).joinpath(PurePosixPath(import_file)))))
-                if not os.path.exists(abs_path):
+                if not os.path.exists(abs_path) or os.path.isdir(abs_path):
                     raise SsbCompilerError(f(_("The file to import ('{import_file}') was not found.")))
             else:
                 # Relative to one of the lookup paths
@@ -283,7 +283,7 @@ class ExplorerScriptSsbCompiler:
                     abs_path_c = os.path.realpath(
                         str(PurePath(dir_name).joinpath(PurePosixPath(lp).joinpath(import_file)))
                     )
-                    if os.path.exists(abs_path_c):
+                    if os.path.exists(abs_path_c) and not os.path.isdir(abs_path_c):
                         abs_path = abs_path_c
                         break
                 if abs_path is None:
-- 
2.43.0


From 896d7badb40d195942d6542fa94091c2478ef8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 15/54] fix: reject texts as default of regular switches

---
 .../compiler/compile_handlers/blocks/switches/switch_block.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 4e3ada4..1d4a6ca 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -94,6 +94,10 @@ class SwitchBlockCompileHandler(
 
         # 2. Default block (first because default is after no case op branched)
         if self._default_handler is not None:
+            if self._default_handler.is_message_case:
+                raise SsbCompilerError(
+                    f(_("A switch case must contain a list of statements (line {self.ctx.start.line})."))
+                )
             self._default_handler.set_end_label(end_label)
             default_ops = []
             # Insert a jump blueprint for now, note it, and if it comes up later during 3b,
-- 
2.43.0


From 32d7a46bf5f90d4c88898b833fc4a2766a342dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 16/54] fix: raise only the documented exceptions when
 compiling

Only routines were covered, not macros and the later steps. And instead of the
error itself the innermost exception of its context was raised, which can be of
any type, or even one that the caller is currently handling.
---
 explorerscript/ssb_converting/ssb_compiler.py | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index cd68f6b..75fb847 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -26,7 +26,7 @@ import logging
 import os
 from pathlib import PurePosixPath, PurePath
 
-from explorerscript.error import SsbCompilerError
+from explorerscript.error import ParseError, SsbCompilerError
 from explorerscript.explorerscript_reader import ExplorerScriptReader
 from explorerscript.macro import ExplorerScriptMacro
 from explorerscript.source_map import SourceMap
@@ -133,6 +133,16 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except (ParseError, SsbCompilerError, ValueError):
+            raise
+        except Exception as e:
+            raise ValueError(str(e)) from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
@@ -225,19 +235,9 @@ class ExplorerScriptSsbCompiler:
             return self
 
         # Start Compiling
-        try:
-            try:
-                logger.debug("<%d> Compiling routines...", id(self))
-                compiler_visitor = RoutineVisitor(self.performance_progress_list_var_name, self.macros)
-                compiler_visitor.visit(tree)
-            except Exception as ex:
-                # due to the stack nature of the decompile visitor, we get many stack exceptions after raising
-                # the first. Raise the last exception in the context chain.
-                while ex.__context__ is not None:
-                    ex = ex.__context__  # type: ignore
-                raise ex
-        except AssertionError as e:
-            raise ValueError(str(e)) from e
+        logger.debug("<%d> Compiling routines...", id(self))
+        compiler_visitor = RoutineVisitor(self.performance_progress_list_var_name, self.macros)
+        compiler_visitor.visit(tree)
 
         assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
 
-- 
2.43.0


From 437c8483b6ef67ab7d7b2dc02c996ac507378ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 17/54] fix: reject routine ids that don't count up from 0 in
 SsbScript, too

---
 .../compiler/compiler_listener.py             | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..7ced386 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -43,7 +43,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamFixedPoint,
 )
 from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
-from explorerscript.util import exps_int, _
+from explorerscript.util import exps_int, f, _
 
 
 class ListenerArgType(Enum):
@@ -313,9 +313,15 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._labels_before_op.append(label)
 
     def _enlarge_routine_info(self) -> None:
-        if len(self.routine_infos) - 1 < self._active_routine_id:
-            needed = self._active_routine_id - len(self.routine_infos) + 1
-            for i in range(0, needed):
-                self.routine_infos.append(None)  # type: ignore
-                self.routine_ops.append([])
-                self.named_coroutines.append([])  # type: ignore
+        if self._active_routine_id != len(self.routine_infos):
+            raise SsbCompilerError(
+                f(
+                    _(
+                        "Routine ids must start at 0 and increase by one without gaps "
+                        "(expected {len(self.routine_infos)}, got {self._active_routine_id})."
+                    )
+                )
+            )
+        self.routine_infos.append(None)  # type: ignore
+        self.routine_ops.append([])
+        self.named_coroutines.append([])  # type: ignore
-- 
2.43.0


From 98a4e5d7853950aabf6026208bf1717b56a29219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 18/54] fix: don't build SsbScript routines while there may be
 syntax errors

The listener ran during parsing and failed with other exceptions on incomplete
nodes, instead of the syntax error being reported.
---
 explorerscript/ssb_script/ssb_converting/ssb_compiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..79b45a4 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -87,11 +87,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +97,9 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker.DEFAULT.walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From b9168021922168c6090cbe0c555819d59022fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 19/54] fix: find common vertices after branches again

The list of outgoing edges was always empty, so the end of most if and switch
blocks was not found and they were printed as jumps.
---
 .../ssb_converting/decompiler/graph_building/graph_utils.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3406c8d..889ff67 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -173,10 +173,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Potential endless recursion situation. Abort.
                         new_es_entry.add(None)
                         continue
-                v_es: list[Edge] = []
-                for e in v_es:
-                    if e.index in g.es:
-                        v_es.append(e)
+                v_es: list[Edge] = v.out_edges()
                 if not allow_loop_edges:
                     # Remove edges marked as looping
                     v_es = [e for e in v_es if not any_incoming_edge_is_loop(e.target_vertex)]
-- 
2.43.0


From 893d2941927e8544935a22eaa756b2daa9eaafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:55 +0000
Subject: [PATCH 20/54] fix: print dungeon modes other than 0 to 3 as they are

Constants and other numbers were all printed as the constant of mode 0.
---
 explorerscript/ssb_converting/ssb_data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..720bea0 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -419,14 +419,17 @@ class DungeonModeConstants:
         self.close_constant = close_constant
         self.open_and_request_constant = open_and_request_constant
 
-    def get_explorerscript_constant_for(self, idx: int) -> str:
+    def get_explorerscript_constant_for(self, idx: SsbOpParam) -> str:
+        """The constant for the mode. Other values than the modes 0-3 are returned as they are written."""
+        if idx == 0:
+            return self.close_constant
         if idx == 1:
             return self.open_constant
         if idx == 2:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From a52d1fac0b9fd66e8b1f380741f119e121f0edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 21/54] fix: fall back to SsbScript whenever a script can not
 be written

---
 .../ssb_converting/ssb_decompiler.py          | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..816b6ca 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -110,17 +110,17 @@ class ExplorerScriptSsbDecompiler:
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
 
-        # Step 1: Build labels
-        resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
-        has_any_calls = any(
-            any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
-        )
-
-        # Step 2: Build and optimize execution graph
-        logger.debug("Building base graph...")
         try:
+            # Step 1: Build labels
+            resolver = OpsLabelJumpToResolver(self._routine_ops)
+            self._routine_ops = list(resolver)
+            has_any_calls = any(
+                any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
+                for rtn in self._routine_ops
+            )
+
+            # Step 2: Build and optimize execution graph
+            logger.debug("Building base graph...")
             # If we have any calls, we disable the optimization that stops at ending opcodes.
             grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
@@ -152,8 +152,9 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
+        except Exception:
+            # If an assertion failed or the script can not be written, then either there is a bug in the decompiler
+            # or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
             self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
-- 
2.43.0


From cc3e90ef9c112a6b4d0dfe8fcd3ba3a04bd8b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 22/54] fix: keep the entry points of routines when removing
 jumps

---
 .../decompiler/graph_building/graph_minimizer.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..777ea2d 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -112,7 +112,8 @@ class SsbGraphMinimizer:
                     ins = g.incident(v, IN)
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
-                        if isinstance(iv["op"], SsbLabel):
+                        # (the label at index 0 is the entry point of the routine and has to stay)
+                        if isinstance(iv["op"], SsbLabel) and iv.index != 0:
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
@@ -698,6 +699,9 @@ class SsbGraphMinimizer:
                 ):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
+                    if v.index == 0:
+                        # This is the entry point of the routine
+                        continue
                     if len(in_edges) != 0:
                         assert len(in_edges) == 1 and len(out_edges) == 1
                         v_before = in_edges[0].source_vertex
-- 
2.43.0


From a4bc0ca04fde5283b6570b4f24489785a3154a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 23/54] fix: print operations that the special syntax can't
 express as they are

---
 .../write_handlers/label_jumps/if_start.py    | 45 +++++++++----------
 .../write_handlers/simple_ops/flag.py         |  8 +++-
 .../simple_ops/message_switches.py            | 18 +++++---
 3 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..210bdcb 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -32,7 +32,7 @@ from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockW
 from explorerscript.ssb_converting.decompiler.write_handlers.label import LabelWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_data_types import SsbOperator
-from explorerscript.ssb_converting.ssb_special_ops import IfStart, SsbLabelJump, MultiIfStart, SsbLabel, IfEnd
+from explorerscript.ssb_converting.ssb_special_ops import IfEnd, IfStart, MultiIfStart, OPS_BRANCH, SsbLabel, SsbLabelJump
 from explorerscript.ssb_converting.util import Blk
 
 if TYPE_CHECKING:
@@ -135,22 +135,21 @@ class IfWriteHandler(AbstractWriteHandler):
         # TODO: More error checking for parameters would probably be a good idea
         if op.op_code.name == "Branch":
             return f"{op.params[0]} {SsbOperator.EQ.notation} {op.params[1]}"
-        if op.op_code.name == "BranchBit":
+        if (
+            op.op_code.name == "BranchBit"
+            and str(op.params[0]) != self.decompiler.performance_progress_list_var_name
+        ):
             return f"{op.params[0]}[{op.params[1]}]"
-        if op.op_code.name == "BranchDebug":
-            if op.params[0] > 0:  # type: ignore
-                return "debug"
-            else:
-                return "not debug"
-        if op.op_code.name == "BranchEdit":
-            if op.params[0] > 0:  # type: ignore
-                return "edit"
-            else:
-                return "not edit"
-        if op.op_code.name == "BranchExecuteSub":
-            return f'BranchExecuteSub({", ".join([str(x) for x in op.params])})'
-        if op.op_code.name == "BranchPerformance":
-            n = "not " if op.params[1] < 1 else ""  # type: ignore
+        if op.op_code.name == "BranchDebug" and op.params[0] == 1:
+            return "debug"
+        if op.op_code.name == "BranchDebug" and op.params[0] == 0:
+            return "not debug"
+        if op.op_code.name == "BranchEdit" and op.params[0] == 1:
+            return "edit"
+        if op.op_code.name == "BranchEdit" and op.params[0] == 0:
+            return "not edit"
+        if op.op_code.name == "BranchPerformance" and op.params[1] in (0, 1):
+            n = "not " if op.params[1] == 0 else ""
             return f"{n}{self.decompiler.performance_progress_list_var_name}[{op.params[0]}]"
         if op.op_code.name == "BranchScenarioNow":
             return f"scn({op.params[0]}) == [{op.params[1]}, {op.params[2]}]"
@@ -162,17 +161,17 @@ class IfWriteHandler(AbstractWriteHandler):
             return f"scn({op.params[0]}) > [{op.params[1]}, {op.params[2]}]"
         if op.op_code.name == "BranchScenarioBefore":
             return f"scn({op.params[0]}) < [{op.params[1]}, {op.params[2]}]"
-        if op.op_code.name == "BranchSum":
-            return f'BranchSum({", ".join([str(x) for x in op.params])})'
         if op.op_code.name == "BranchValue":
             return f"{op.params[0]} {SsbOperator(op.params[1]).notation} {op.params[2]}"  # type: ignore
         if op.op_code.name == "BranchVariable":
             return f"{op.params[0]} {SsbOperator(op.params[1]).notation} value({op.params[2]})"  # type: ignore
-        if op.op_code.name == "BranchVariation":
-            if op.params[0] > 0:  # type: ignore
-                return "variation"
-            else:
-                return "not variation"
+        if op.op_code.name == "BranchVariation" and op.params[0] == 1:
+            return "variation"
+        if op.op_code.name == "BranchVariation" and op.params[0] == 0:
+            return "not variation"
+        if op.op_code.name in OPS_BRANCH:
+            # There is no special syntax for this operation or not for its parameters
+            return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
     def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index badc60f..0b0a6c6 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -58,7 +58,13 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
-        if op.op_code.name == OPS_FLAG__CALC_BIT:
+        if (
+            op.op_code.name == OPS_FLAG__CALC_BIT
+            and str(op.params[0]) == self.decompiler.performance_progress_list_var_name
+        ) or (op.op_code.name == OPS_FLAG__CALC_VALUE and op.params[1] == SsbCalcOperator.ASSIGN.value):
+            # As an assignment this would be flag_SetPerformance or flag_Set.
+            self.decompiler.write_stmnt(f"{op.op_code.name}({', '.join([str(x) for x in op.params])});")
+        elif op.op_code.name == OPS_FLAG__CALC_BIT:
             self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
         elif op.op_code.name == OPS_FLAG__CALC_VALUE:
             self.decompiler.write_stmnt(f"{op.params[0]} {SsbCalcOperator(op.params[1]).notation} {op.params[2]};")  # type: ignore
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 3746493..8ded2bc 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -33,6 +33,7 @@ from explorerscript.ssb_converting.decompiler.write_handlers.abstract import (
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
+    OP_DEFAULT_TEXT,
     OP_MESSAGE_SWITCH_TALK,
     OP_MESSAGE_SWITCH_MONOLOGUE,
     OPS_SWITCH_TEXT_CASE_MAP,
@@ -47,14 +48,14 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     """Handles writing message_SwitchMonologue and message_SwitchTalk."""
 
     op_name: str | None
-    have_written_at_least_one_child: bool
+    have_written_default: bool
 
     def __init__(
         self, start_vertex: Vertex, decompiler: ExplorerScriptSsbDecompiler, parent: AbstractWriteHandler | None
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.op_name = None
-        self.have_written_at_least_one_child = False
+        self.have_written_default = False
 
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
@@ -73,6 +74,12 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
         exits = self.start_vertex.out_edges()
         assert len(exits) == 1, "After a message_Switch* op, there must be exactly one op following."
 
+        if exits[0].target_vertex["op"].op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]:
+            # No cases
+            with Blk(self.decompiler):
+                pass
+            return exits[0].target_vertex
+
         # Write the context opcode.
         with Blk(self.decompiler):
             try:
@@ -94,9 +101,8 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         next_op: SsbOperation = next_handler.start_vertex["op"]
         assert self.op_name is not None
-        if next_op.op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]:
-            if not self.have_written_at_least_one_child:
-                raise ValueError("A message_Switch* must have at least one case or default.")
+        if self.have_written_default or next_op.op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]:
             return False
-        self.have_written_at_least_one_child = True
+        # The default is the last op of a message_Switch*
+        self.have_written_default = next_op.op_code.name == OP_DEFAULT_TEXT
         return True
-- 
2.43.0


From 0656efdd8a0d6aff58d09f46f3ad6b0cd4d88b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 24/54] fix: print BranchValue with == as it is, == is the
 syntax of Branch

---
 .../decompiler/write_handlers/label_jumps/if_start.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 210bdcb..b5573cf 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -161,7 +161,8 @@ class IfWriteHandler(AbstractWriteHandler):
             return f"scn({op.params[0]}) > [{op.params[1]}, {op.params[2]}]"
         if op.op_code.name == "BranchScenarioBefore":
             return f"scn({op.params[0]}) < [{op.params[1]}, {op.params[2]}]"
-        if op.op_code.name == "BranchValue":
+        if op.op_code.name == "BranchValue" and op.params[1] != SsbOperator.EQ.value:
+            # (== is the syntax of Branch)
             return f"{op.params[0]} {SsbOperator(op.params[1]).notation} {op.params[2]}"  # type: ignore
         if op.op_code.name == "BranchVariable":
             return f"{op.params[0]} {SsbOperator(op.params[1]).notation} value({op.params[2]})"  # type: ignore
-- 
2.43.0


From 65471e737e633a8cc871849ee4f9fabab5a8706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 25/54] fix: find the routines of labels at the end of routines

---
 .../ssb_converting/decompiler/label_jump_to_resolver.py       | 2 +-
 explorerscript/ssb_converting/ssb_special_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
index 732e081..7dc353d 100644
--- a/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
+++ b/explorerscript/ssb_converting/decompiler/label_jump_to_resolver.py
@@ -75,7 +75,7 @@ class OpsLabelJumpToResolver:
 
     def _build_end_offsets(self, routines: Sequence[Sequence[SsbOperation]]) -> list[int]:
         offsets = []
-        prev_offset = 0
+        prev_offset = -1
         for routine in routines:
             if len(routine) > 0:
                 last_op = routine[-1]
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..d99497c 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -496,7 +496,7 @@ def process_op_for_jump(
             )
             param_list = list(op.params.values())
         jump_param_idx = OPS_WITH_JUMP_TO_MEM_OFFSET[op.op_code.name]
-        if len(param_list) < jump_param_idx:
+        if len(param_list) <= jump_param_idx:
             raise ValueError(
                 f"The parameters for the OpCode {op.op_code.name} must contain a jump address at index {jump_param_idx}."
             )
@@ -514,7 +514,7 @@ def process_op_for_jump(
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
             # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset < routine_end_offsets[routine_id - 1]:
+            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
                 routine_id -= 1
             while old_offset > routine_end_offsets[routine_id]:
                 routine_id += 1
-- 
2.43.0


From 6f544d0c7587d3aadebc6c23bd23f10b2c5a5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 26/54] fix: recognise all kinds of switches and fall back for
 cases outside of them

---
 .../decompiler/graph_building/graph_minimizer.py       | 10 ++++++++++
 explorerscript/ssb_converting/ssb_special_ops.py       |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 777ea2d..ecbf3fe 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -53,6 +53,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     IfStart,
     IfEnd,
     MultiIfStart,
+    OPS_ALL_CASES,
     OPS_SWITCH_CASE_MAP,
     SwitchStart,
     OPS_CTX,
@@ -426,6 +427,15 @@ class SsbGraphMinimizer:
 
             g.delete_vertices(vs_to_delete)
 
+            for v in g.vs:
+                if (
+                    isinstance(v["op"], SsbLabelJump)
+                    and v["op"].maybe_root is not None
+                    and v["op"].root.op_code.name in OPS_ALL_CASES
+                    and (v.index == 0 or len(v.in_edges()) > 0)
+                ):
+                    raise ValueError(f"{v['op'].root.op_code.name} is not part of a switch.")
+
     def group_switch_cases(self) -> None:
         """Group cases of a switch or multi switch that jump to the same point"""
         logger.debug("Grouping switches...")
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index d99497c..3b28e6d 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -98,8 +98,17 @@ OPS_SWITCH_CASE_MAP = {
     "main_EnterRescueUser": OPS_REGULAR_CASES,
     "main_EnterTraining": OPS_REGULAR_CASES,
     "main_EnterTraining2": OPS_REGULAR_CASES,
+    "SwitchDirection": OPS_REGULAR_CASES,
+    "SwitchDirectionLives": OPS_REGULAR_CASES,
+    "SwitchDirectionLives2": OPS_REGULAR_CASES,
+    "SwitchDirectionMark": OPS_REGULAR_CASES,
+    "SwitchLives": OPS_REGULAR_CASES,
+    "SwitchValue": OPS_REGULAR_CASES,
+    "SwitchVariable": OPS_REGULAR_CASES,
 }
 
+OPS_ALL_CASES = [*OPS_REGULAR_CASES, OP_CASE_MENU, OP_CASE_MENU2]
+
 OP_MESSAGE_SWITCH_TALK = "message_SwitchTalk"
 OP_MESSAGE_SWITCH_MONOLOGUE = "message_SwitchMonologue"
 OP_CASE_TEXT = "CaseText"
-- 
2.43.0


From 48f3fb12892fe212e0f7a04bd454bf6782b8bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 27/54] fix: continue after ifs where the if block jumps away

---
 .../write_handlers/label_jumps/if_start.py    | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index b5573cf..1f8dfc6 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -49,6 +49,8 @@ class IfWriteHandler(AbstractWriteHandler):
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.ended_on_jump = True
+        # The vertices after the branches of the if (without those of branches that don't reach the end of the if).
+        self.vertices_after: list[Vertex] = []
 
     def write_content(self) -> Vertex | None:
         op: SsbLabelJump = self.start_vertex["op"]
@@ -74,19 +76,18 @@ class IfWriteHandler(AbstractWriteHandler):
                     self.start_vertex,
                     check_end_block=self.check_end_block,
                 )
-                v_after_if_branch = if_branch_handler.write_content()
-            else_ends_on_common_vtx = True
-            v_after_else_branch = None
-            if not (
+                self._add_vertex_after(if_branch_handler.write_content())
+            if (
                 isinstance(else_edge.target_vertex["op"], SsbLabel)
                 and any(isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers)
             ):
+                self._add_vertex_after(else_edge.target_vertex)
+            else:
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
                 else_edge = self._build_else_if_chain(else_edge)
                 if else_edge is not None:
                     logger.debug("<%d> Handling else-block...", id(self.start_vertex))
-                    else_ends_on_common_vtx = False
                     self.decompiler.write_stmnt(" else", False)
                     with Blk(self.decompiler):
                         # Handle else-branch
@@ -97,21 +98,16 @@ class IfWriteHandler(AbstractWriteHandler):
                             self.start_vertex,
                             check_end_block=self.check_end_block,
                         )
-                        v_after_else_branch = else_branch_handler.write_content()
-
-            # Those must be the same, either None or a common vertex
-            # ... or either of them must end on a jump, then it's also okay if one of them is None but the other not.
-            assert (
-                not else_edge
-                or else_ends_on_common_vtx
-                or if_branch_handler.last_handler_in_block.ended_on_jump  # type: ignore
-                or else_branch_handler.last_handler_in_block.ended_on_jump  # type: ignore
-                or v_after_if_branch == v_after_else_branch
-            ), f"Invalid if-structure for if {m.if_id}"
-
-            if v_after_if_branch is None:
-                return v_after_else_branch
-            return v_after_if_branch
+                        self._add_vertex_after(else_branch_handler.write_content())
+
+            # All branches that reach the end must end at a common vertex.
+            assert len({v.index for v in self.vertices_after}) < 2, f"Invalid if-structure for if {m.if_id}"
+
+            return self.vertices_after[0] if len(self.vertices_after) > 0 else None
+
+    def _add_vertex_after(self, v: Vertex | None) -> None:
+        if v is not None:
+            self.vertices_after.append(v)
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
@@ -189,6 +185,7 @@ class IfWriteHandler(AbstractWriteHandler):
                 logger.debug("<%d> Empty else-if-block (%s).", id(self.start_vertex), op)
                 with Blk(self.decompiler):
                     pass
+                self._add_vertex_after(else_edge.target_vertex)
                 return None
             else:
                 # If they are the same, we also need to print the else with a jump to it, so we need to make sure,
@@ -199,13 +196,14 @@ class IfWriteHandler(AbstractWriteHandler):
 
                 with Blk(self.decompiler):
                     # Handle elseif-branch
-                    BlockWriteHandler(
+                    elseif_branch_handler = BlockWriteHandler(
                         if_edge.target_vertex,
                         self.decompiler,
                         self,
                         self.start_vertex,
                         check_end_block=self.check_end_block,
-                    ).write_content()
+                    )
+                    self._add_vertex_after(elseif_branch_handler.write_content())
                 next_vertex_ends = isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
                     isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
                 )
@@ -221,6 +219,7 @@ class IfWriteHandler(AbstractWriteHandler):
                     if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
                         return else_edge
                     else:
+                        self._add_vertex_after(else_edge.target_vertex)
                         return None
                 else:
                     return None
-- 
2.43.0


From 38ba76e83145eecec25c9da5edb97589dc6861ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 28/54] fix: write the labels of calls and of jumps from other
 routines, or fall back

---
 .../decompiler/graph_building/graph_minimizer.py    | 13 ++++++++++---
 .../decompiler/write_handlers/label_jumps/call.py   | 12 ++++++++++--
 explorerscript/ssb_converting/ssb_decompiler.py     |  7 +++++++
 explorerscript/ssb_converting/ssb_special_ops.py    |  2 ++
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index ecbf3fe..319780b 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -113,8 +113,14 @@ class SsbGraphMinimizer:
                     ins = g.incident(v, IN)
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
-                        # (the label at index 0 is the entry point of the routine and has to stay)
-                        if isinstance(iv["op"], SsbLabel) and iv.index != 0:
+                        # (the label at index 0 is the entry point of the routine and has to stay, so do labels that
+                        # are also used by something else but the edges)
+                        if (
+                            isinstance(iv["op"], SsbLabel)
+                            and iv.index != 0
+                            and not iv["op"].force_write
+                            and not iv["op"].referenced_from_other_routine
+                        ):
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
@@ -744,7 +750,8 @@ class SsbGraphMinimizer:
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
                     if len(in_edges) == 0:
-                        vs_to_delete.add(v)
+                        if not v["op"].force_write and not v["op"].referenced_from_other_routine:
+                            vs_to_delete.add(v)
                     elif len(in_edges) == 1:
                         assert len(out_edges) == 1
                         if (
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 1d02725..617d241 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import SsbForeignLabel, SsbLabel, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -50,6 +50,14 @@ class CallWriteHandler(AbstractWriteHandler):
         self.decompiler.source_map_add_opcode(op.offset)
         assert op.label is not None
         self.decompiler.write_stmnt(f"call @label_{op.label.id};")
+        self.decompiler.labels_used.append(op.label.id)
         exits = self.start_vertex.out_edges()
         assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
-        return exits[0].target_vertex
+        # Continue with the next op, not with what is called
+        return min(exits, key=lambda e: self._leads_to_label(e.target_vertex, op.label)).target_vertex  # type: ignore
+
+    @staticmethod
+    def _leads_to_label(v: Vertex, label: SsbLabel) -> bool:
+        if isinstance(v["op"], SsbForeignLabel):
+            return v["op"].label.id == label.id
+        return isinstance(v["op"], SsbLabel) and v["op"].id == label.id
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 816b6ca..3aaa0b2 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -66,6 +66,7 @@ class ExplorerScriptSsbDecompiler:
     indent: int
     _line_number: int
     labels_already_printed: list[int] = []
+    labels_used: list[int]
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -95,6 +96,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self._line_number = 1
         self.labels_already_printed = []
+        self.labels_used = []
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -105,6 +107,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.labels_used = []
         self._line_number = 1
         self.smb = SourceMapBuilder()
 
@@ -150,6 +153,9 @@ class ExplorerScriptSsbDecompiler:
                 )
                 RoutineWriteHandler(self, r_id, r_info, r_graph).write_content()
 
+            for label_id in self.labels_used:
+                assert label_id in self.labels_already_printed, f"The label {label_id} was not written."
+
             return self._output, self.smb.build()
 
         except Exception:
@@ -202,6 +208,7 @@ class ExplorerScriptSsbDecompiler:
         self.write_stmnt("hold;")
 
     def write_label_jump(self, label_id: int, previous_op: SsbOperation) -> None:
+        self.labels_used.append(label_id)
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 3b28e6d..d3f8a77 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -538,5 +538,7 @@ def process_op_for_jump(
         jmp = SsbLabelJump(SsbOperation(op.offset, op.op_code, new_params), label)
         if op.op_code.name == OP_CALL:
             jmp.markers.append(CallJump())
+            # Calls are always printed, so the label also has to be.
+            label.force_write = True
         return jmp
     return op
-- 
2.43.0


From ca3593b5366d1c8497f0c2e7fed1d717ba9fe18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 29/54] fix: keep entry points when removing labels and end all
 switch blocks that don't end themselves

---
 .../decompiler/graph_building/graph_minimizer.py            | 3 +++
 .../decompiler/write_handlers/label_jumps/switch_start.py   | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 319780b..db19b00 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -749,6 +749,9 @@ class SsbGraphMinimizer:
                 if isinstance(v["op"], SsbLabel):
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
+                    if v.index == 0 and (len(in_edges) > 0 or any(e.target != 1 for e in out_edges)):
+                        # This is the entry point of the routine and can't be replaced by the op after it
+                        continue
                     if len(in_edges) == 0:
                         if not v["op"].force_write and not v["op"].referenced_from_other_routine:
                             vs_to_delete.add(v)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..9a90224 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -113,8 +113,10 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                 self.start_vertex,
                                 check_end_block=self.check_end_block,
                             )
-                            handler.write_content()
-                            if (
+                            vertex_after = handler.write_content()
+                            if vertex_after is not None:
+                                self.decompiler.write_stmnt("break;")
+                            elif (
                                 not isinstance(handler.last_handler_in_block, LabelWriteHandler)
                                 or not handler.last_handler_in_block.switch_fell_through
                             ):
-- 
2.43.0


From deddf2b710ad90e2e4a56f2dd659afc936d59720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 30/54] fix: only write break_loop and continue in the loops
 they belong to

---
 .../decompiler/write_handlers/label_jumps/call.py     | 11 ++++++++++-
 .../write_handlers/label_jumps/forever_break.py       | 11 ++++++++---
 .../write_handlers/label_jumps/forever_continue.py    |  7 ++++++-
 .../decompiler/write_handlers/labels/forever_start.py |  8 +++++++-
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 617d241..81373a8 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -28,7 +28,13 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbForeignLabel, SsbLabel, SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import (
+    ForeverBreak,
+    ForeverContinue,
+    SsbForeignLabel,
+    SsbLabel,
+    SsbLabelJump,
+)
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -58,6 +64,9 @@ class CallWriteHandler(AbstractWriteHandler):
 
     @staticmethod
     def _leads_to_label(v: Vertex, label: SsbLabel) -> bool:
+        if isinstance(v["op"], SsbLabelJump) and isinstance(v["op"].get_marker(), (ForeverBreak, ForeverContinue)):
+            # A break_loop or continue that was added in front of the label
+            v = v.out_edges()[0].target_vertex
         if isinstance(v["op"], SsbForeignLabel):
             return v["op"].label.id == label.id
         return isinstance(v["op"], SsbLabel) and v["op"].id == label.id
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 0119837..b19ca6f 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -46,17 +46,22 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a break and end"""
         logger.debug("Handling a break_loop; (%s)...", self.start_vertex["op"])
-        self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-        self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
-            if len(self.decompiler.forever_start_handler_stack) < 1:
+            if not self._is_in_its_loop():
                 # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
                 # raises some "false positives" and builds loops that have break statements reachable from outside
                 # the loop
                 logger.warning("While decompiling, tried to generate break_loop; outside loop!")
                 raise FallbackToJump()
+            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            self.decompiler.write_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
         raise ValueError("After a break_loop there must be exactly 1 immediate opcode.")
+
+    def _is_in_its_loop(self) -> bool:
+        stack = self.decompiler.forever_start_handler_stack
+        marker = self.start_vertex["op"].get_marker()
+        return len(stack) > 0 and stack[-1].m is not None and stack[-1].m.loop_id == marker.loop_id
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 69cd80d..2612665 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -46,7 +46,7 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a continue (if not implicit) and end"""
         logger.debug("Handling a continue; (%s)...", self.start_vertex["op"])
-        if len(self.decompiler.forever_start_handler_stack) < 1:
+        if not self._is_in_its_loop():
             # We REALLY shouldn't land here, if we are outside of a loop, but sometimes loop detection still
             # raises some "false positives" and builds loops that have break statements reachable from outside
             # the loop
@@ -57,6 +57,11 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             self.decompiler.write_stmnt("continue;  // may be redundant")
         return None
 
+    def _is_in_its_loop(self) -> bool:
+        stack = self.decompiler.forever_start_handler_stack
+        marker = self.start_vertex["op"].get_marker()
+        return len(stack) > 0 and stack[-1].m is not None and stack[-1].m.loop_id == marker.loop_id
+
     def _continue_is_implicit(self) -> bool:
         # TODO: Not implemented, is probably not really possible, unless we do a multi-pass solution.
         return False
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
index ad8be2d..3d0d005 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
@@ -64,13 +64,19 @@ class ForeverWriteHandler(AbstractWriteHandler):
         self.decompiler.write_stmnt("forever")
         with Blk(self.decompiler):
             self.decompiler.forever_start_handler_stack.append(self)
-            BlockWriteHandler(
+            vertex_after = BlockWriteHandler(
                 exits[0].target_vertex, self.decompiler, self, self.start_vertex, check_end_block=self.check_end_block
             ).write_content()
+            if vertex_after is not None:
+                # The end of the loop was reached without a break
+                self.decompiler.write_stmnt("break_loop;")
+                self.set_vertex_after(vertex_after)
             self.decompiler.forever_start_handler_stack.pop()
             return self._vertex_after_forever
 
     def set_vertex_after(self, v: Vertex) -> None:
+        if self._vertex_after_forever is not None and self._vertex_after_forever.index != v.index:
+            raise ValueError("A loop must be left to only one vertex.")
         self._vertex_after_forever = v
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
-- 
2.43.0


From fb79fe1ef3533a993eacc59f2a9cef51ecb8dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 31/54] fix: don't keep results of the common vertex search
 after the graph changed

---
 .../graph_building/graph_minimizer.py         |  8 ----
 .../decompiler/graph_building/graph_utils.py  | 41 +++++++++----------
 2 files changed, 19 insertions(+), 30 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index db19b00..38d3e1f 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -31,7 +31,6 @@ from igraph import IN, Edge, OUT, Vertex, Graph
 from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import (
     any_incoming_edge_is_loop,
     find_first_common_next_vertex_in_edges,
-    find_first_common_next_vertex_in_edges__clear_cache,
     find_first_label_vertex_with_marker_that_matches_condition,
     find_lowest_and_highest_out_edge,
     get_all_vertices_between,
@@ -178,7 +177,6 @@ class SsbGraphMinimizer:
                     self._update_edge_style(else_edge)
 
                     # Common end label
-                    find_first_common_next_vertex_in_edges__clear_cache(g)  # TODO: Cache seems to be broken atm.
                     result = find_first_common_next_vertex_in_edges(g, [if_edge, else_edge])
                     if result is not None:
                         e_on_if_bef_end, e_on_else_bef_end = result
@@ -415,7 +413,6 @@ class SsbGraphMinimizer:
                                 # because of an unfinished inner branch.
                                 # TODO: This could lead to real problems...
                                 logger.warning("Switch-Branches ended via the same edge...")
-                                find_first_common_next_vertex_in_edges__clear_cache(g)
                                 continue
                             already_updated_switch_end_in_edges.append(e)
                             # Remove the jumps before the common end label (if they exist), we don't need them anymore.
@@ -429,7 +426,6 @@ class SsbGraphMinimizer:
                                 es_to_delete.append(e_before_jump)
                                 self._reconnect(g, e_before_jump.source, e_before_jump, end_vertex, True)
                         g.delete_edges(es_to_delete)
-                    find_first_common_next_vertex_in_edges__clear_cache(g)
 
             g.delete_vertices(vs_to_delete)
 
@@ -473,8 +469,6 @@ class SsbGraphMinimizer:
                         self._update_edge_style(first_e)
 
             g.delete_edges(es_to_delete)
-            if len(es_to_delete) > 0:
-                find_first_common_next_vertex_in_edges__clear_cache(g)
 
     def build_switch_fallthroughs(self) -> None:
         """
@@ -540,7 +534,6 @@ class SsbGraphMinimizer:
         logger.debug("Detecting loops...")
         # TODO: Loop detection & creation really needs to be re-written.
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             loop_id = -1
             if len(g.vs) < 1:
                 continue
@@ -703,7 +696,6 @@ class SsbGraphMinimizer:
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             vs_to_delete = set()
             # First, let's delete all redundant jumps (actual OP_JUMPs that jump to opcodes with only one in edge)
             for v in g.vs:
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 889ff67..c1c67a8 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -27,7 +27,6 @@ import itertools
 import logging
 import operator
 from collections import Counter
-from threading import Lock
 from typing import Callable, Generator, cast, Sequence
 
 from igraph import Edge, OUT, Vertex, Graph
@@ -55,15 +54,6 @@ def find_lowest_and_highest_out_edge(g: Graph, vertex: Vertex, attr: str) -> tup
     return min(edges, key=lambda k: k[attr]), max(edges, key=lambda k: k[attr])
 
 
-cache_lock = Lock()
-find_first_common_next_vertex_in_edges_cache: dict[int, dict[str, list[Edge] | None]] = {}
-
-
-def find_first_common_next_vertex_in_edges__clear_cache(g: Graph) -> None:
-    with cache_lock:
-        find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-
-
 def find_first_common_next_vertex_in_edges(
     g: Graph,
     es: Sequence[Edge] | set[Edge],
@@ -71,6 +61,7 @@ def find_first_common_next_vertex_in_edges(
     allow_loops: bool = False,
     vs_to_not_visit: list[int] | None = None,
     allow_loop_edges: bool = True,
+    cache: dict[str, list[Edge] | None] | None = None,
 ) -> None | list[Edge]:
     """
     Finds the first vertex (actually list of edges that lead to it for each edge in es)
@@ -94,21 +85,21 @@ def find_first_common_next_vertex_in_edges(
         Those edges are not visited, aborting the branch.
 
     If no common vertex is found, returns None.
+
+    cache contains the results for edges that were already searched for by the same (recursive) search. It must not
+    be used any longer than that, since it's only valid as long as the graph isn't changed.
     """
     # TODO: Performance with (not allow_open_branches).
+    if cache is None:
+        cache = {}
     es_ids = ",".join(sorted([str(e.index) for e in es]))
-    with cache_lock:
-        if id(g) not in find_first_common_next_vertex_in_edges_cache:
-            find_first_common_next_vertex_in_edges_cache[id(g)] = {}
-        if es_ids in find_first_common_next_vertex_in_edges_cache[id(g)]:
-            return find_first_common_next_vertex_in_edges_cache[id(g)][es_ids]
+    if es_ids in cache:
+        return cache[es_ids]
     assert len(es) > 1
     result = _find_first_common_next_vertex_in_edges__impl(
-        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges
+        g, [{e} for e in es], [], allow_open_branches, allow_loops, vs_to_not_visit, allow_loop_edges, cache
     )
-    with cache_lock:
-        # cache may have been cleared in the meantime
-        find_first_common_next_vertex_in_edges_cache[id(g)][es_ids] = result
+    cache[es_ids] = result
     return result
 
 
@@ -118,8 +109,9 @@ def _find_first_common_next_vertex_in_edges__impl(
     map_of_visited: list[dict[int, int]],
     allow_open_branches: bool,
     allow_loops: bool,
-    vs_to_not_visit: list[int] | None = None,
-    allow_loop_edges: bool = True,
+    vs_to_not_visit: list[int] | None,
+    allow_loop_edges: bool,
+    cache: dict[str, list[Edge] | None],
 ) -> None | list[Edge]:
     """
     :param g: Graph
@@ -190,7 +182,12 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Recursively find the next new common vertex
                         list_of_visited_vs_on_branch = vs_to_not_visit + list(map_of_visited[i].keys())
                         new_common_vertex_edges = find_first_common_next_vertex_in_edges(
-                            g, v_es, allow_open_branches, allow_loops, list_of_visited_vs_on_branch
+                            g,
+                            v_es,
+                            allow_open_branches,
+                            allow_loops,
+                            list_of_visited_vs_on_branch,
+                            cache=cache,
                         )
                         if new_common_vertex_edges is None:
                             new_es_entry.add(None)
-- 
2.43.0


From 9b02f830daf299fd07337d0553a171f732ff2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 32/54] fix: only treat line feeds as line breaks in multi line
 strings

---
 explorerscript/ssb_converting/compiler/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index f229d45..6724d4d 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -202,7 +202,8 @@ def singleline_string_literal(string: str) -> str:
 
 def multiline_string_literal(string: str) -> str:
     string = str(string)[3:-3]
-    all_lines = string.splitlines()
+    # (Other than str.splitlines, this keeps all other separators and an empty last line.)
+    all_lines = string.replace("\r\n", "\n").split("\n")
     lines: list[str] = []
     last_line = ""
 
-- 
2.43.0


From dce2b0fbe9beb819b9441a5ba443c6c6b21b4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 33/54] fix: print strings, position mark names and small fixed
 point numbers so that they can be read again

---
 .../ssb_converting/ssb_data_types.py          | 72 +++++++++++++------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 720bea0..85f82d7 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -24,7 +24,9 @@
 #
 from __future__ import annotations
 
+import re
 import string
+from decimal import Decimal
 from enum import Enum
 from typing import Union, MutableSequence
 
@@ -32,7 +34,8 @@ from typing import Union, MutableSequence
 def escape_quotes(string: str, which_quotes: str | None = None) -> str:
     if which_quotes is None:
         return string.replace('"', '\\"').replace("'", "\\'")
-    return string.replace(f"{which_quotes}", f"\\{which_quotes}")
+    # Quotes right after a backslash would always be read as escaped quotes.
+    return re.sub(rf"{which_quotes}|(?<=\\)[\"']", r"\\\g<0>", string)
 
 
 def escape_newlines(string: str) -> str:
@@ -40,30 +43,54 @@ def escape_newlines(string: str) -> str:
 
 
 def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False) -> str:
-    if prefer_single_qoute:
-        preferred_quote = "'"
-        preferred_multiline_quote = "'''"
-        secondary_multiline_quote = '"""'
-    else:
-        preferred_quote = '"'
-        preferred_multiline_quote = '"""'
-        secondary_multiline_quote = "'''"
-
-    if "\n" not in string:
-        # Single line string
-        return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
-    if preferred_multiline_quote in string:
-        if secondary_multiline_quote in string:
-            # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
-            return f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
-        return _repr_multiline_string(string, indent, secondary_multiline_quote)
-    return _repr_multiline_string(string, indent, preferred_multiline_quote)
+    quotes = ("'", '"') if prefer_single_qoute else ('"', "'")
+
+    if "\n" in string:
+        for quote in quotes:
+            if _can_be_multiline_string(string, quote * 3):
+                return _repr_multiline_string(string, indent, quote * 3)
+
+    for quote in quotes:
+        if _can_be_single_line_string(string, quote):
+            return _repr_single_line_string(string, quote)
+
+    # Only multiline strings can contain some characters (eg. backslashes before an "n").
+    for quote in quotes:
+        if "\n" not in string and quote * 3 not in string and not string.endswith(quote):
+            return f"{quote * 3}{string}{quote * 3}"
+        if _can_be_multiline_string(string, quote * 3):
+            return _repr_multiline_string(string, indent, quote * 3)
+
+    # uh oh... There is no way to write this string.
+    return _repr_single_line_string(string, quotes[0])
+
+
+def _can_be_single_line_string(string: str, quote: str) -> bool:
+    if "\\n" in string:
+        return False
+    # An odd number of backslashes would escape the closing quote, or make the escaped quote the closing one.
+    # Carriage returns and form feeds are only allowed when escaped.
+    return re.search(rf"(?<!\\)(\\(\\\\)*({quote}|\Z)|(\\\\)*[\r\f])", string) is None
+
+
+def _repr_single_line_string(string: str, quote: str) -> str:
+    return f"{quote}{escape_newlines(escape_quotes(string, which_quotes=quote))}{quote}"
+
+
+def _can_be_multiline_string(string: str, delimiter: str) -> bool:
+    if delimiter in string or "\r\n" in string:
+        return False
+    # If all lines are indented, then that indent would be removed.
+    return any(not line.startswith(" ") for line in string.split("\n"))
 
 
 def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
     lines = string.split("\n")
     indentprefix = " " * (NUMBER_OF_SPACES_PER_INDENT * indent)
     output = "\n".join((indentprefix + (" " * NUMBER_OF_SPACES_PER_INDENT) + o for o in lines))
+    if string.endswith("\r"):
+        # This must not become part of a line break.
+        return f"{delimiter}\n{output}{delimiter}"
     return f"{delimiter}\n{output}\n{indentprefix}{delimiter}"
 
 
@@ -172,7 +199,9 @@ class SsbOpParamFixedPoint:
     @classmethod
     def from_float(cls, value: float) -> SsbOpParamFixedPoint:
         slf = cls(0, "0")
-        slf.value = str(value)
+        slf.value = format(Decimal(str(value)), "f")
+        if "." not in slf.value:
+            slf.value += ".0"
         return slf
 
     @classmethod
@@ -306,7 +335,8 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        return f"Position<'{self.name}', {self.x_final}, {self.y_final}>"
+        quote = "'" if _can_be_single_line_string(self.name, "'") else '"'
+        return f"Position<{_repr_single_line_string(self.name, quote)}, {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From 38199b74628811ab1404375d6b2b090e5f3238d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 34/54] fix: read decimals of position marks by their value

---
 explorerscript/common_syntax.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index aebd3ee..1390c8e 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -38,19 +38,15 @@ def parse_position_marker_arg(
     elif ctx.DECIMAL():
         decimal_parts = str(ctx.DECIMAL()).split(".")
 
-        if len(decimal_parts) == 1:  # .XXXXX
-            dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
-        elif len(decimal_parts) == 2:  # XXXXX.YYYYY
-            pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
-            dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
+        if len(decimal_parts) == 2:  # XXXXX.YYYYY
+            pos = int(decimal_parts[0] if decimal_parts[0] not in ("", "-") else "0")
+            dec_part = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
         else:
             raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
 
-        if dec_part == 5:
+        if dec_part == "5":
             offset = 2
-        elif dec_part == 0:
+        elif dec_part == "":
             offset = 0
         else:
             raise SsbCompilerError(
-- 
2.43.0


From c5164c910d4a213789cb803348f48d3d676a697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 35/54] fix: fall back to SsbScript for keywords as opcodes and
 for unexpected parameters

---
 .../decompiler/write_handlers/simple_ops/keyword.py      | 2 ++
 .../write_handlers/simple_ops/message_switches_cases.py  | 9 ++++++++-
 .../decompiler/write_handlers/simple_ops/simple.py       | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/keyword.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/keyword.py
index 4ef0548..947b061 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/keyword.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/keyword.py
@@ -44,6 +44,8 @@ class KeywordSimpleOpWriteHandler(AbstractWriteHandler):
 
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
+        if len(op.params) > 0:
+            raise ValueError(f"{op.op_code.name} can't be written with parameters.")
         self.decompiler.source_map_add_opcode(op.offset)
         if op.op_code.name == OP_RETURN:
             self._write_return()
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py
index 21bf206..a2ec8d0 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py
@@ -30,7 +30,11 @@ from explorerscript.ssb_converting.decompiler.write_handlers.abstract import Abs
 from explorerscript.ssb_converting.decompiler.write_handlers.simple_ops.message_switches import (
     MesageSwitchSimpleOpWriteHandler,
 )
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_data_types import (
+    SsbOperation,
+    SsbOpParamConstString,
+    SsbOpParamLanguageString,
+)
 from explorerscript.ssb_converting.ssb_special_ops import OP_CASE_TEXT, OP_DEFAULT_TEXT
 from explorerscript.ssb_converting.util import Blk
 
@@ -50,6 +54,9 @@ class MesageSwitchCasesSimpleOpWriteHandler(AbstractWriteHandler):
         op: SsbOperation = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
 
+        if not isinstance(op.params[-1], (SsbOpParamConstString, SsbOpParamLanguageString)):
+            raise ValueError("The texts of message switch cases must be strings.")
+
         # The parent handler MUST be a simple block handler -> block handler
         # and it's handler MUST be a message switch handler
         assert self.parent is not None and self.parent.parent is not None
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/simple.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/simple.py
index fbbfee9..0a26c77 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/simple.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/simple.py
@@ -26,6 +26,7 @@ from typing import TYPE_CHECKING, Optional
 
 from igraph import Vertex
 
+from explorerscript.antlr.ExplorerScriptLexer import ExplorerScriptLexer
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpParamPositionMarker
 
@@ -44,6 +45,9 @@ class SimpleSimpleOpWriteHandler(AbstractWriteHandler):
     def write_content(self, inline_ctx: Optional[str] = None) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
 
+        if f"'{op.op_code.name}'" in ExplorerScriptLexer.literalNames:
+            raise ValueError(f"The opcode {op.op_code.name} can't be written, it's a keyword.")
+
         # Build parameter string
         params = ", ".join([self._single_param_to_string(param) for param in op.params])
 
-- 
2.43.0


From b1a37ffe63cde1dc22d6cc675731c9174df43958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 36/54] fix: reject jump-carrying operations that are written
 without a jump target

---
 .../ssb_converting/compiler/label_jump_to_remover.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
index 84eebff..57ee266 100644
--- a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
+++ b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
@@ -31,7 +31,7 @@ import logging
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump, SsbLabel
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET, SsbLabelJump, SsbLabel
 from explorerscript.util import f, _
 
 logger = logging.getLogger(__name__)
@@ -64,4 +64,6 @@ class OpsLabelJumpToRemover:
                     # Remove
                     pass
                 else:
+                    if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+                        raise SsbCompilerError(f(_("The operation {op.op_code.name} is missing its jump target.")))
                     new_rtn_ops.append(op)
-- 
2.43.0


From 061ccc4910bf9cbe0bbff6d9c7432fde563871b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 37/54] fix: drop the redundant jumps of a macro when it is
 defined, so that its source map entries stay on emitted ops

---
 .../compiler_visitor/macro_visitor.py         | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 2c7f99b..056eb87 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -32,8 +32,10 @@ from explorerscript.source_map import SourceMapBuilder
 from explorerscript.ssb_converting.compiler.compile_handlers.abstract import AnyCompileHandler
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
+from explorerscript.ssb_converting.compiler.label_finalizer import LabelFinalizer
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import OP_RETURN, SsbLabel, SsbLabelJump
 from explorerscript.util import _, f
 
 
@@ -92,7 +94,24 @@ class MacroVisitor(ExplorerScriptVisitor):
             if isinstance(op, SsbLabelJump) and (op.label is None or op.label.id not in labels):
                 raise SsbCompilerError(f(_("Macro {name} contains a jump to a label that does not exist.")))
 
-        return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
+        return ExplorerScriptMacro(name, variables, self._remove_redundant(blueprints), self.source_map_builder.build())
+
+    @staticmethod
+    def _remove_redundant(blueprints: list[SsbOperation]) -> list[SsbOperation]:
+        """
+        Removes the jumps and returns that only go to what follows them anyway. They would be dropped from the routines
+        the macro is used in, and the source map entries of these ops (the call of the macro) would be lost with them.
+        """
+        while True:
+            new = LabelFinalizer([blueprints]).routines[0]
+            for i in reversed(range(len(new))):
+                if new[i].op_code.name == OP_RETURN:
+                    del new[i]
+                elif not isinstance(new[i], SsbLabel):
+                    break
+            if len(new) == len(blueprints):
+                return new
+            blueprints = new
 
     def visitFunc_alias(self, ctx: ExplorerScriptParser.Func_aliasContext) -> None:
         raise SsbCompilerError(_("Macros can not alias."))
-- 
2.43.0


From ce3ade91fb95e05b676dcca28dc7caab4d805eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 38/54] fix: print strings that end in a quote and start with
 blanks so that they can be read again

---
 explorerscript/ssb_converting/ssb_data_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 85f82d7..6eeb915 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -56,8 +56,10 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
 
     # Only multiline strings can contain some characters (eg. backslashes before an "n").
     for quote in quotes:
-        if "\n" not in string and quote * 3 not in string and not string.endswith(quote):
-            return f"{quote * 3}{string}{quote * 3}"
+        if "\n" not in string and quote * 3 not in string:
+            # The line break keeps a quote at the end apart from the closing quotes, it's not part of the string.
+            line_break = "\n" if string.endswith(quote) else ""
+            return f"{quote * 3}{string}{line_break}{quote * 3}"
         if _can_be_multiline_string(string, quote * 3):
             return _repr_multiline_string(string, indent, quote * 3)
 
-- 
2.43.0


From 7d4241bbc3071b99f09a0c657af38ca20fd8b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 39/54] fix: let the source map entries of message switch cases
 point at the cases

CaseText and DefaultText were mapped to the start of the message switch instead
of the case they were written in.
---
 .../compile_handlers/blocks/switches/message_switch.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
index 5889b68..68419b8 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
@@ -85,13 +85,15 @@ class MessageSwitchCompileHandler(
             value_blueprint = header_handler.collect()
             # We obviously don't want the bluprint
             value = value_blueprint.params[0]
-            case_ops.append(self._generate_operation(OP_CASE_TEXT, [value, string]))
+            case_ops.append(h._generate_operation(OP_CASE_TEXT, [value, string]))
         if self._default_handler:
             if not self._default_handler.is_message_case:
                 raise SsbCompilerError(
                     f(_("A message_ switch can only contain cases with strings (line {self.ctx.start.line})."))
                 )
-            case_ops.append(self._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()]))
+            case_ops.append(
+                self._default_handler._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()])
+            )
 
         return [switch_op] + case_ops
 
-- 
2.43.0


From 1c3fbf724ccbf3609aaee5855fd03916b7ccf0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 40/54] fix: only add source map entries for jumps that are
 written

The decompiler added entries for jumps that it leaves out, and the break_loop and
continue statements that it adds replaced the entries of the operations in front of
them.
---
 .../graph_building/graph_minimizer.py         |  2 ++
 .../label_jumps/forever_break.py              |  5 ++--
 .../label_jumps/forever_continue.py           |  5 ++--
 .../write_handlers/label_jumps/jump.py        |  4 +--
 .../label_jumps/switch_start.py               |  4 +--
 .../write_handlers/labels/forever_start.py    |  2 +-
 .../ssb_converting/ssb_decompiler.py          | 27 ++++++++++++++++---
 .../ssb_converting/ssb_special_ops.py         |  3 +++
 8 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 38d3e1f..58eba83 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -581,6 +581,7 @@ class SsbGraphMinimizer:
                                         shape="ellipse",
                                     )
                                     actual_break_point["op"].remove_marker()
+                                    actual_break_point["op"].added_for_loop = True
                                     actual_break_point["op"].add_marker(ForeverBreak(loop_id))
                                     es_to_delete.add(loop_edge)
                                     e = self._reconnect(g, break_point, loop_edge, actual_break_point, True)
@@ -614,6 +615,7 @@ class SsbGraphMinimizer:
                                         shape="ellipse",
                                     )
                                     actual_continue_point["op"].remove_marker()
+                                    actual_continue_point["op"].added_for_loop = True
                                     actual_continue_point["op"].add_marker(ForeverContinue(loop_id))
                                     es_to_delete.add(loop_edge)
                                     e = self._reconnect(g, continue_point, loop_edge, actual_continue_point, True)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index b19ca6f..1b1abda 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -54,8 +54,9 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
                 # the loop
                 logger.warning("While decompiling, tried to generate break_loop; outside loop!")
                 raise FallbackToJump()
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-            self.decompiler.write_stmnt("break_loop;")
+            if not self.start_vertex["op"].added_for_loop:
+                self.decompiler.source_map_add_jump(self.start_vertex["op"].offset)
+            self.decompiler.write_jump_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 2612665..171d7f0 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -53,8 +53,9 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             logger.warning("While decompiling, tried to generate continue; outside loop!")
             raise FallbackToJump()
         if not self._continue_is_implicit():
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-            self.decompiler.write_stmnt("continue;  // may be redundant")
+            if not self.start_vertex["op"].added_for_loop:
+                self.decompiler.source_map_add_jump(self.start_vertex["op"].offset)
+            self.decompiler.write_jump_stmnt("continue;  // may be redundant")
         return None
 
     def _is_in_its_loop(self) -> bool:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index f457129..6f6ca2a 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -48,8 +48,8 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
-        # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
-        self.decompiler.source_map_add_opcode(op.offset)
+        if not op.added_for_loop:
+            self.decompiler.source_map_add_jump(op.offset)
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
         exits = self.start_vertex.out_edges()
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 9a90224..ef90984 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -115,7 +115,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                             )
                             vertex_after = handler.write_content()
                             if vertex_after is not None:
-                                self.decompiler.write_stmnt("break;")
+                                self.decompiler.write_jump_stmnt("break;")
                             elif (
                                 not isinstance(handler.last_handler_in_block, LabelWriteHandler)
                                 or not handler.last_handler_in_block.switch_fell_through
@@ -126,7 +126,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                     root_op_before is None
                                     or root_op_before.op_code.name not in OPS_THAT_END_CONTROL_FLOW
                                 ):
-                                    self.decompiler.write_stmnt("break;")
+                                    self.decompiler.write_jump_stmnt("break;")
 
             next_vertex = find_switch_end_label(self.start_vertex.graph, m.switch_id)
             if next_vertex:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
index 3d0d005..db3d796 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/labels/forever_start.py
@@ -69,7 +69,7 @@ class ForeverWriteHandler(AbstractWriteHandler):
             ).write_content()
             if vertex_after is not None:
                 # The end of the loop was reached without a break
-                self.decompiler.write_stmnt("break_loop;")
+                self.decompiler.write_jump_stmnt("break_loop;")
                 self.set_vertex_after(vertex_after)
             self.decompiler.forever_start_handler_stack.pop()
             return self._vertex_after_forever
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 3aaa0b2..cd785d5 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -68,6 +68,8 @@ class ExplorerScriptSsbDecompiler:
     labels_already_printed: list[int] = []
     labels_used: list[int]
     smb: SourceMapBuilder | None
+    # Offset of a jump operation for which nothing has been written yet
+    _unwritten_jump: int | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
     # Since forever blocks break_loops do NOT have to be on the exact next level, we use a stack system instead!
@@ -98,6 +100,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_already_printed = []
         self.labels_used = []
         self.smb = None
+        self._unwritten_jump = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
         self.forever_start_handler_stack = []
@@ -109,6 +112,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_already_printed = []
         self.labels_used = []
         self._line_number = 1
+        self._unwritten_jump = None
         self.smb = SourceMapBuilder()
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
@@ -188,6 +192,7 @@ class ExplorerScriptSsbDecompiler:
 
     def write_stmnt(self, stmnt: str, line: bool = True) -> None:
         """Write a simple single line statement"""
+        self._unwritten_jump = None
         if line:
             self.write_line()
         self._line_number += stmnt.count("\n")
@@ -198,6 +203,15 @@ class ExplorerScriptSsbDecompiler:
         self._output += "\n"
         self._output += " " * (self.indent * NUMBER_OF_SPACES_PER_INDENT)
 
+    def write_jump_stmnt(self, stmnt: str) -> None:
+        """
+        Write a statement that leaves the current position. If it was written for a jump operation
+        (see source_map_add_jump), this adds the source map entry for that operation.
+        """
+        if self._unwritten_jump is not None:
+            self.source_map_add_opcode(self._unwritten_jump)
+        self.write_stmnt(stmnt)
+
     def write_return(self) -> None:
         self.write_stmnt("return;")
 
@@ -212,10 +226,10 @@ class ExplorerScriptSsbDecompiler:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump_stmnt(f"jump @label_{label_id};")
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump_stmnt(f"jump @label_{label_id};")
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -224,7 +238,14 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self.write_jump_stmnt(f"jump @label_{label_id};")
+
+    def source_map_add_jump(self, op_offset: int) -> None:
+        """
+        Has to be called for jump operations. The source map entry is only added if a statement is written for the jump,
+        that is, if write_jump_stmnt is called next. Otherwise the jump is implicit.
+        """
+        self._unwritten_jump = op_offset
 
     def source_map_add_opcode(self, op_offset: int) -> None:
         """Has to be called BEFORE writing the opcode."""
diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index d3f8a77..04d4801 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -418,6 +418,8 @@ class SsbLabelJump(SsbOperation):
     label: SsbLabel | None
     # Markers for this jump (type of jump)
     markers: list[LabelJumpMarker]
+    # Whether this is not an operation of the script, but was added behind the root to continue or leave a loop
+    added_for_loop: bool
 
     def __init__(self, root: SsbOperation, label: SsbLabel | None):
         if isinstance(root, SsbLabelJump):
@@ -432,6 +434,7 @@ class SsbLabelJump(SsbOperation):
         self._root = root
         self.label = label
         self.markers = []
+        self.added_for_loop = False
 
     @property
     def maybe_root(self) -> SsbOperation | None:
-- 
2.43.0


From ba19998008996ce4878c3dca1a96950a4ff9cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 41/54] fix: let the source map entries of elseif branches
 point at the elseif

They pointed at the line after it, because the elseif is written behind the closing
brace of the previous branch.
---
 .../write_handlers/label_jumps/if_start.py        |  2 +-
 explorerscript/ssb_converting/ssb_decompiler.py   | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 1f8dfc6..b113d62 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -237,7 +237,7 @@ class IfWriteHandler(AbstractWriteHandler):
 
         exits = v.out_edges()
 
-        self.decompiler.source_map_add_opcode(op.offset)
+        self.decompiler.source_map_add_opcode(op.offset, None if include_newline_in_header else "} ")
         opt_space = " " if not include_newline_in_header else ""
         not_str = "" if not m.is_not else " not"
         self.decompiler.write_stmnt(
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index cd785d5..15fab0e 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -247,12 +247,17 @@ class ExplorerScriptSsbDecompiler:
         """
         self._unwritten_jump = op_offset
 
-    def source_map_add_opcode(self, op_offset: int) -> None:
-        """Has to be called BEFORE writing the opcode."""
+    def source_map_add_opcode(self, op_offset: int, continued_line: str | None = None) -> None:
+        """
+        Has to be called BEFORE writing the opcode. Statements start in a new line after the indent,
+        unless continued_line is given: Then it's what is before the statement in the current line after the indent.
+        """
         assert self.smb is not None
-        # TODO: Assumes that all statements start in a new line after indent.
-        #       Might need this more flexible.
-        self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        column_number = self.indent * NUMBER_OF_SPACES_PER_INDENT
+        if continued_line is None:
+            self.smb.add_opcode(op_offset, self._line_number, column_number)
+        else:
+            self.smb.add_opcode(op_offset, self._line_number - 1, column_number + len(continued_line))
 
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
-- 
2.43.0


From 1e7f5be6cb585022f5cf9da40cff8a28af9cc2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 42/54] fix: compare source map entries by their content

Source maps with op entries never compared equal to the map they were serialised
from, since the entries were compared by identity.
---
 explorerscript/source_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 5389bab..32bf2de 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -149,6 +149,11 @@ class SourceMapping:
         self.line = line_number
         self.column = column
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, SourceMapping):
+            return False
+        return self.serialize() == other.serialize()
+
     def serialize(self) -> list[Any]:
         return [self.line, self.column]
 
-- 
2.43.0


From 941faf8e2c84facd27b16d3d07f31fa8f6db1833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 43/54] fix: restore the call site of deserialised macro source
 map entries as a tuple

---
 explorerscript/source_map.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 32bf2de..81d7f66 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -211,8 +211,15 @@ class MacroSourceMapping(SourceMapping):
 
     @classmethod
     def deserialize(cls, data_list: list[Any]) -> MacroSourceMapping:
+        called_in = data_list[4]
         return MacroSourceMapping(
-            data_list[0], data_list[1], data_list[2], data_list[3], data_list[4], data_list[5], data_list[6]
+            data_list[0],
+            data_list[1],
+            data_list[2],
+            data_list[3],
+            tuple(called_in) if called_in is not None else None,
+            data_list[5],
+            data_list[6],
         )
 
 
-- 
2.43.0


From 73c00048d0329859d3f79198545ff1fdebb862f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 44/54] fix: rewrite macro return addresses that are 0

---
 explorerscript/source_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 81d7f66..f97763e 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -358,7 +358,7 @@ class SourceMap:
         max_old_offset = max(new_mapping.keys())
 
         for m in self._mappings_macros.values():
-            if m.return_addr:
+            if m.return_addr is not None:
                 addr: int | None = m.return_addr
                 while addr not in new_mapping:
                     # if the return addr opcode was optimized away, we take the next index. TODO: Good idea?
-- 
2.43.0


From 83f9bec44fe918a637c3d8a767620667733db55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 45/54] fix: keep line breaks at the start and end of
 highlighted ExplorerScript

Lexers of Pygments remove them by default, so the tokens didn't contain all of the text.
---
 explorerscript/pygments/expslexer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/pygments/expslexer.py b/explorerscript/pygments/expslexer.py
index 1cc4061..1897479 100644
--- a/explorerscript/pygments/expslexer.py
+++ b/explorerscript/pygments/expslexer.py
@@ -23,6 +23,7 @@
 from __future__ import annotations
 
 import re
+from typing import Any
 
 from pygments.lexer import RegexLexer, include, words
 from pygments.token import Comment, Name, String, Text, Number
@@ -90,6 +91,11 @@ class ExplorerScriptLexer(RegexLexer):
 
     flags = re.MULTILINE | re.DOTALL
 
+    def __init__(self, **options: Any) -> None:
+        # By default lexers remove line breaks at the start and end of the text.
+        options.setdefault("stripnl", False)
+        super().__init__(**options)
+
     tokens = {
         "comments": [
             (r"/\*.*?\*/", Comment.Multiline),
-- 
2.43.0


From c42f68f3f85cae3b401bfb076ca4497d04557151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 46/54] fix: print jump targets of the compile CLI as positions
 of their operations

The internal offsets that were printed have gaps if operations were optimized away,
and the offsets themselves are not part of the JSON.
---
 explorerscript/cli/compile.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..c67c798 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -45,6 +45,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,11 +66,20 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_ops(ops: list[SsbOperation], positions: dict[int, int]) -> list[OpDict]:
+    """
+    positions are the positions of all ops by their offsets. The JSON doesn't contain the offsets,
+    jumps refer to the positions.
+    """
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        for param in op.params:
+        params = list(op.params)
+        if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+            # The compiler always adds the jump target as the last parameter.
+            assert isinstance(params[-1], int)
+            params[-1] = positions[params[-1]]
+        for param in params:
             if isinstance(param, int):
                 out_op["params"].append(param)
             elif isinstance(param, SsbOpParamFixedPoint):
@@ -94,29 +104,30 @@ def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
     routines: list[RoutineDict] = []
+    positions = {op.offset: i for i, op in enumerate((op for ops in routine_ops for op in ops), start=1)}
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, positions)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, positions)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, positions),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
-- 
2.43.0


From a283ebd31ba8feed61f60af212c814860324944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 47/54] fix: print the target -1 of a routine in the compile
 CLI

It was printed as null. Also removes the comparisons by identity that printed warnings.
---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index c67c798..ea6d890 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -114,19 +114,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to_name if info.linked_to_name is not None else info.linked_to,
                 "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to_name if info.linked_to_name is not None else info.linked_to,
                 "ops": build_ops(ops, positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to_name if info.linked_to_name is not None else info.linked_to,
                 "ops": build_ops(ops, positions),
             }
         else:
-- 
2.43.0


From 85c5db12fce37f7a0e013eba6d6167b8720d1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 48/54] fix: accept multiple --lookup arguments in the compile
 CLI

As documented. All but the last one were ignored.
---
 explorerscript/cli/compile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index ea6d890..2591802 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -145,7 +145,7 @@ if __name__ == "__main__":
         required=True,
         help="The JSON file containing the settings for the compiler.",
     )
-    parser.add_argument("--lookup", dest="lookup_paths", nargs="*", metavar="PATH", help="Lookup paths.")
+    parser.add_argument("--lookup", dest="lookup_paths", action="extend", nargs="*", metavar="PATH", help="Lookup paths.")
     parser.add_argument(
         "--source-map",
         dest="source_map",
-- 
2.43.0


From d563a659d4f5f3de5422604de16ef89c22902891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 49/54] fix: register coroutines with their routine IDs in the
 decompile CLI

The names of coroutines could not be found when decompiling.
---
 explorerscript/cli/decompile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..7f840d6 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -143,11 +143,11 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "GENERIC":
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "ACTOR":
@@ -159,7 +159,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "OBJECT":
@@ -171,7 +171,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "PERFORMER":
@@ -183,7 +183,7 @@ def read_routines(
                 linked_to = r["target_id"]
             else:
                 linked_to_name = str(r["target_id"])
-            named_coroutines.append(SsbCoroutine(-1, "n/a"))
+            named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         else:
-- 
2.43.0


From 3b2c2aafbd09cd2f99defb755d5c8e7799de841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 50/54] fix: accept numbers as coordinates of position marks in
 the decompile CLI

As documented.
---
 explorerscript/cli/decompile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 7f840d6..9857a10 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -81,7 +81,8 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
+def parse_pos_mark_arg(arg: str | int | float) -> tuple[int, int]:
+    arg_str = str(arg)
     arg_str_arr = arg_str.split(".")
     if len(arg_str_arr) < 2:
         return exps_int(arg_str), 0
-- 
2.43.0


From 15a020041e15f91b48058450a5a7d6cafcb1e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 51/54] fix: don't write strings and position marks where the
 syntax doesn't allow them

The decompiled text could not be compiled, if an operation with a special syntax had
a string or position mark as a parameter (for example passed to it by a macro).
---
 .../write_handlers/label_jumps/if_start.py    | 10 ++++++--
 .../label_jumps/switch_start.py               | 23 ++++++++++++++-----
 .../write_handlers/simple_ops/ctx.py          |  4 +++-
 .../write_handlers/simple_ops/flag.py         | 14 +++++++----
 .../simple_ops/message_switches.py            |  4 +++-
 .../simple_ops/message_switches_cases.py      |  3 +++
 .../ssb_converting/ssb_data_types.py          |  5 ++++
 7 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index b113d62..1501b67 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -31,7 +31,7 @@ from explorerscript.ssb_converting.decompiler.write_handlers.abstract import Abs
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handlers.label import LabelWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_data_types import SsbOperator
+from explorerscript.ssb_converting.ssb_data_types import SsbOperator, is_integer_like
 from explorerscript.ssb_converting.ssb_special_ops import IfEnd, IfStart, MultiIfStart, OPS_BRANCH, SsbLabel, SsbLabelJump
 from explorerscript.ssb_converting.util import Blk
 
@@ -129,6 +129,8 @@ class IfWriteHandler(AbstractWriteHandler):
 
     def _if_header_for(self, op: SsbOperation) -> str:
         # TODO: More error checking for parameters would probably be a good idea
+        if op.op_code.name in OPS_BRANCH and not all(is_integer_like(x) for x in op.params):
+            return self._operation_header_for(op)
         if op.op_code.name == "Branch":
             return f"{op.params[0]} {SsbOperator.EQ.notation} {op.params[1]}"
         if (
@@ -168,9 +170,13 @@ class IfWriteHandler(AbstractWriteHandler):
             return "not variation"
         if op.op_code.name in OPS_BRANCH:
             # There is no special syntax for this operation or not for its parameters
-            return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
+            return self._operation_header_for(op)
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
+    @staticmethod
+    def _operation_header_for(op: SsbOperation) -> str:
+        return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
+
     def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
         """Starting from the in_edge try to build as many elseif constructs as possible."""
         op: SsbOperation = in_edge.target_vertex["op"]
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index ef90984..5a887ad 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -34,8 +34,13 @@ from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handlers.label import LabelWriteHandler
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_data_types import SsbOperator
+from explorerscript.ssb_converting.ssb_data_types import (
+    SsbOperation,
+    SsbOperator,
+    SsbOpParamConstString,
+    SsbOpParamLanguageString,
+    is_integer_like,
+)
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
     SwitchStart,
@@ -174,6 +179,8 @@ class SwitchWriteHandler(AbstractWriteHandler):
             "ProcessSpecial",
         ]:
             return f'{op.op_code.name}({", ".join([str(x) for x in op.params])})'
+        if not all(is_integer_like(x) for x in op.params):
+            raise ValueError(f"The parameters of {op.op_code.name} can't be written in a switch header.")
         if op.op_code.name == OP_SWITCH_DUNGEON_MODE:
             return f"dungeon_mode({op.params[0]})"
         if op.op_code.name == "SwitchRandom":
@@ -190,16 +197,20 @@ class SwitchWriteHandler(AbstractWriteHandler):
 
     def _case_header_for(self, op: SsbOperation, is_switch_dungeon_mode: bool) -> str:
         # TODO: More error checking for parameters would probably be a good idea
-        if op.op_code.name == "Case":
-            if is_switch_dungeon_mode:
-                return f"{self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[0])}"  # type: ignore
-            return f"{op.params[0]}"
         if op.op_code.name == "CaseMenu":
+            if not isinstance(op.params[0], (SsbOpParamConstString, SsbOpParamLanguageString)):
+                raise ValueError("The text of a menu case must be a string.")
             if hasattr(op.params[0], "indent"):
                 op.params[0].indent = self.decompiler.indent
             return f"menu({op.params[0]})"
+        if not all(is_integer_like(x) for x in op.params):
+            raise ValueError(f"The parameters of {op.op_code.name} can't be written in a case header.")
         if op.op_code.name == "CaseMenu2":
             return f"menu2({op.params[0]})"
+        if op.op_code.name == "Case":
+            if is_switch_dungeon_mode:
+                return f"{self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[0])}"  # type: ignore
+            return f"{op.params[0]}"
         if op.op_code.name == "CaseScenario":
             # TODO: This will convert them into CaseValues. Might cause issues.
             return f"{SsbOperator(op.params[0]).notation} {op.params[1]}"  # type: ignore
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/ctx.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/ctx.py
index a09b0cc..eff5c41 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/ctx.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/ctx.py
@@ -32,7 +32,7 @@ from explorerscript.ssb_converting.decompiler.write_handlers.abstract import (
 )
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handler_manager import WriteHandlerManager
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation, is_integer_like
 from explorerscript.ssb_converting.ssb_special_ops import OPS_CTX_LIVES, OPS_CTX_OBJECT, OPS_CTX_PERFORMER
 from explorerscript.ssb_converting.util import Blk
 
@@ -57,6 +57,8 @@ class CtxSimpleOpWriteHandler(AbstractWriteHandler):
         self.decompiler.source_map_add_opcode(op.offset)
         if len(op.params) != 1:
             raise ValueError(f"Error reading operation for {op.op_code.name} ({op}). Must have exactly one argument.")
+        if not is_integer_like(op.params[0]):
+            raise ValueError(f"The argument of {op.op_code.name} can't be written as a context.")
 
         if op.op_code.name == OPS_CTX_LIVES:
             ctx = f"actor {op.params[0]}"
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index 0b0a6c6..51a7b91 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -27,7 +27,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbCalcOperator
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbCalcOperator, is_integer_like
 from explorerscript.ssb_converting.ssb_special_ops import (
     OPS_FLAG__CALC_BIT,
     OPS_FLAG__CALC_VALUE,
@@ -59,10 +59,14 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
         op: SsbOperation = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
         if (
-            op.op_code.name == OPS_FLAG__CALC_BIT
-            and str(op.params[0]) == self.decompiler.performance_progress_list_var_name
-        ) or (op.op_code.name == OPS_FLAG__CALC_VALUE and op.params[1] == SsbCalcOperator.ASSIGN.value):
-            # As an assignment this would be flag_SetPerformance or flag_Set.
+            not all(is_integer_like(x) for x in op.params)
+            or (
+                op.op_code.name == OPS_FLAG__CALC_BIT
+                and str(op.params[0]) == self.decompiler.performance_progress_list_var_name
+            )
+            or (op.op_code.name == OPS_FLAG__CALC_VALUE and op.params[1] == SsbCalcOperator.ASSIGN.value)
+        ):
+            # There is no assignment for this or it would be flag_SetPerformance or flag_Set.
             self.decompiler.write_stmnt(f"{op.op_code.name}({', '.join([str(x) for x in op.params])});")
         elif op.op_code.name == OPS_FLAG__CALC_BIT:
             self.decompiler.write_stmnt(f"{op.params[0]}[{op.params[1]}] = {op.params[2]};")
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 8ded2bc..df19bd5 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -31,7 +31,7 @@ from explorerscript.ssb_converting.decompiler.write_handlers.abstract import (
     NestedBlockDisallowedError,
 )
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
-from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation, is_integer_like
 from explorerscript.ssb_converting.ssb_special_ops import (
     OP_DEFAULT_TEXT,
     OP_MESSAGE_SWITCH_TALK,
@@ -64,6 +64,8 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
         self.decompiler.source_map_add_opcode(op.offset)
         if len(op.params) != 1:
             raise ValueError(f"Error reading operation for {self.op_name} ({op}). Must have exactly one argument.")
+        if not is_integer_like(op.params[0]):
+            raise ValueError(f"The argument of {self.op_name} can't be written as a message switch.")
         if self.op_name == OP_MESSAGE_SWITCH_TALK:
             self.decompiler.write_stmnt(f"message_SwitchTalk ({op.params[0]})")
         elif self.op_name == OP_MESSAGE_SWITCH_MONOLOGUE:
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py
index a2ec8d0..45a4c4c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches_cases.py
@@ -34,6 +34,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOperation,
     SsbOpParamConstString,
     SsbOpParamLanguageString,
+    is_integer_like,
 )
 from explorerscript.ssb_converting.ssb_special_ops import OP_CASE_TEXT, OP_DEFAULT_TEXT
 from explorerscript.ssb_converting.util import Blk
@@ -56,6 +57,8 @@ class MesageSwitchCasesSimpleOpWriteHandler(AbstractWriteHandler):
 
         if not isinstance(op.params[-1], (SsbOpParamConstString, SsbOpParamLanguageString)):
             raise ValueError("The texts of message switch cases must be strings.")
+        if not all(is_integer_like(x) for x in op.params[:-1]):
+            raise ValueError("The values of message switch cases can't be strings or position marks.")
 
         # The parent handler MUST be a simple block handler -> block handler
         # and it's handler MUST be a message switch handler
diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 6eeb915..4a21d0a 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -364,6 +364,11 @@ SsbOpParam = Union[
 ]
 
 
+def is_integer_like(param: SsbOpParam) -> bool:
+    """Whether the parameter can be written where ExplorerScript doesn't allow strings and position marks."""
+    return isinstance(param, (int, SsbOpParamFixedPoint, SsbOpParamConstant))
+
+
 class SsbOperation:
     offset: int
     op_code: SsbOpCode
-- 
2.43.0


From e1694417d3882e5e39a1ae4fa2c741297b00686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 52/54] fix: let a decompiler convert its routines more than
 once

convert() replaced the routines of the decompiler with the ones that contain labels,
so that calling it again gave another text or failed.
---
 explorerscript/ssb_converting/ssb_decompiler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 15fab0e..a10a6fc 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -113,6 +113,7 @@ class ExplorerScriptSsbDecompiler:
         self.labels_used = []
         self._line_number = 1
         self._unwritten_jump = None
+        self.forever_start_handler_stack = []
         self.smb = SourceMapBuilder()
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
@@ -120,16 +121,16 @@ class ExplorerScriptSsbDecompiler:
         try:
             # Step 1: Build labels
             resolver = OpsLabelJumpToResolver(self._routine_ops)
-            self._routine_ops = list(resolver)
+            routine_ops = list(resolver)
             has_any_calls = any(
                 any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-                for rtn in self._routine_ops
+                for rtn in routine_ops
             )
 
             # Step 2: Build and optimize execution graph
             logger.debug("Building base graph...")
             # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
@@ -166,7 +167,6 @@ class ExplorerScriptSsbDecompiler:
             # If an assertion failed or the script can not be written, then either there is a bug in the decompiler
             # or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
@@ -182,7 +182,7 @@ class ExplorerScriptSsbDecompiler:
 
             ssb_script_decompiler = SsbScriptSsbDecompiler(
                 self._routine_infos,
-                self._routine_ops,
+                raw_routine_backup_ops,
                 self._raw_named_coroutines,
             )
 
-- 
2.43.0


From f6c7a1daf1f22586d779566e7d5d98ab0acb4c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 53/54] fix: count the operations of each script on its own in
 the decompile CLI

The positions of operations (jump targets) depended on what was read before in the process.
---
 explorerscript/cli/decompile.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 9857a10..ab4efc2 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,9 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
-
 class OpDict(TypedDict):
     params: list[ParamDict]
     opcode: str
@@ -91,7 +88,10 @@ def parse_pos_mark_arg(arg: str | int | float) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter | None = None) -> list[SsbOperation]:
+    """The counter has to be the same one for all routines of a script, because it generates the op offsets."""
+    if counter is None:
+        counter = Counter()
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -135,6 +135,7 @@ def read_routines(
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
     routine_infos = []
     named_coroutines = []
+    counter = Counter()
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
     for r in routines:
         if "ops" not in r:
@@ -146,11 +147,11 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(len(routine_infos), r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -162,7 +163,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -174,7 +175,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
@@ -186,7 +187,7 @@ def read_routines(
                 linked_to_name = str(r["target_id"])
             named_coroutines.append(SsbCoroutine(len(routine_infos), "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0


From 05289f997ae2f3f5863b6572289344976398f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 54/54] fix: write a break for every empty switch case instead
 of a jump to the first one

---
 .../write_handlers/label_jumps/switch_start.py   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 5a887ad..7a902c9 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -25,7 +25,7 @@ from __future__ import annotations
 import logging
 from typing import TYPE_CHECKING
 
-from igraph import Vertex
+from igraph import Edge, Vertex
 
 from explorerscript.ssb_converting.decompiler.graph_building.graph_utils import (
     iterate_switch_edges_using_edges_and_op,
@@ -42,7 +42,9 @@ from explorerscript.ssb_converting.ssb_data_types import (
     is_integer_like,
 )
 from explorerscript.ssb_converting.ssb_special_ops import (
+    SsbLabel,
     SsbLabelJump,
+    SwitchEnd,
     SwitchStart,
     OPS_THAT_END_CONTROL_FLOW,
     OP_SWITCH_DUNGEON_MODE,
@@ -86,7 +88,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
             list_of_switch_cases = list(iterate_switch_edges_using_edges_and_op(exits, op))
             # Build a list of all edges that will be visited multiple times, make sure to generate a label for them
             for e, _, __ in list_of_switch_cases:
-                if e in already_printed_edges:
+                if e in already_printed_edges and not self._leads_to_end(e, m):
                     edges_that_will_be_visited_multiple_times.add(e)
                 already_printed_edges.add(e)
             already_printed_edges = set()  # reuse
@@ -105,7 +107,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         # If this will be visited multiple times, we need a label
                         if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
                             self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
-                        if e in already_printed_edges:
+                        if e in already_printed_edges and not self._leads_to_end(e, m):
                             # Write the label jump instead
                             self.decompiler.write_stmnt(f"jump @switch{m.switch_id}_{e.index};")
                         else:
@@ -158,6 +160,14 @@ class SwitchWriteHandler(AbstractWriteHandler):
             #    raise ValueError("An invalid if or loop was ended while waiting for a switch end.")
         return True
 
+    @staticmethod
+    def _leads_to_end(e: Edge, m: SwitchStart) -> bool:
+        """Whether the block of a case is empty, so that only a break needs to be written for it, no matter how often."""
+        op = e.target_vertex["op"]
+        return isinstance(op, SsbLabel) and any(
+            isinstance(mx, SwitchEnd) and m.switch_id == mx.switch_id for mx in op.markers
+        )
+
     @staticmethod
     def _switch_header_for(op: SsbOperation) -> str:
         # TODO: More error checking for parameters would probably be a good idea
-- 
2.43.0

