"""The compiler back end: contexts, jumps, blocks (C01, C03, C08, C10)."""
from pyvc import prog
from pyvc.core import L, contract, light

U = "explorerscript.ssb_converting.compiler.utils:"
H = "explorerscript.ssb_converting.compiler.compile_handlers."
A = H + "abstract:"
STMTH = "AbstractComplexStatementCompileHandler"
prog.FIELD_TYPES.update({
    ("CompilerCtx", "_loops"): "list[AbstractComplexLoopBlockCompileHandler]",
    ("CompilerCtx", "_switch_cases"): "list[CaseBlockCompileHandler | DefaultCaseBlockCompileHandler]",
    ("CompilerCtx", "macros"): "dict[str, ExplorerScriptMacro]",
    ("SsbLabelJumpBlueprint", "params"): "list[SsbOpParam]",
    ("AbstractComplexBlockCompileHandler", "_added_handlers"): f"list[{STMTH}]",
    ("AbstractFuncdefCompileHandler", "_added_handlers"): f"list[{STMTH}]",
    ("ArgListCompileHandler", "_added_handlers"): "list[ArgCompileHandler]",
    ("SsbOperation", "op_code"): "SsbOpCode",
    ("AbstractComplexLoopBlockCompileHandler", "_start_label"): "SsbLabel",
    ("AbstractComplexLoopBlockCompileHandler", "_end_label"): "SsbLabel",
    ("ForBlockCompileHandler", "_new_run_label"): "SsbLabel",
    ("ForBlockCompileHandler", "_block_label"): "SsbLabel",
    ("ForBlockCompileHandler", "_initial_label"): "SsbLabel",
    ("AbstractCompileHandler", "compiler_ctx"): "CompilerCtx",
})
SM = "self.compiler_ctx.source_map_builder"
OC, LC = "self.compiler_ctx.counter_ops", "self.compiler_ctx.counter_labels"

# ---- the stacks of enclosing loops and switches (C10: a stray break is refused, C01: where it goes)
contract(U + "CompilerCtx.__init__", "C10", modifies=["self.counter_ops", "self.source_map_builder", "self.collected_labels", "self.counter_labels", "self.macros", "self.performance_progress_list_var_name", "self._loops", "self._switch_cases"],
         ensures=["items(self._loops) == []", "items(self._switch_cases) == []", "same(self.counter_ops, counter_ops)", "same(self.macros, macros)", "same(self.collected_labels, collected_labels)",
                  "same(self.counter_labels, counter_labels)", "same(self.source_map_builder, source_map_builder)", "fresh(self._loops)", "fresh(self._switch_cases)",
                  "self.performance_progress_list_var_name == performance_progress_list_var_name"])
contract(U + "CompilerCtx.add_loop", "C10", params={"h": "AbstractComplexLoopBlockCompileHandler"}, modifies=["items(self._loops)"], ensures=["items(self._loops) == old(items(self._loops)) + [h]"])
contract(U + "CompilerCtx.remove_loop", "C10", requires=["len(self._loops) > 0"], modifies=["items(self._loops)"], ensures=["items(self._loops) == old(items(self._loops)[:-1])"])
contract(U + "CompilerCtx.add_switch_case", "C10", params={"h": "CaseBlockCompileHandler | DefaultCaseBlockCompileHandler"}, modifies=["items(self._switch_cases)"], ensures=["items(self._switch_cases) == old(items(self._switch_cases)) + [h]"])
contract(U + "CompilerCtx.remove_switch_case", "C10", requires=["len(self._switch_cases) > 0"], modifies=["items(self._switch_cases)"], ensures=["items(self._switch_cases) == old(items(self._switch_cases)[:-1])"])

# ---- jump blueprints
contract(U + "SsbLabelJumpBlueprint.__init__", "C01", params={"params": "list[SsbOpParam]"}, modifies=["self.compiler_ctx", "self.ctx", "self.op_code_name", "self.params", "self.number", "self.jump_is_positive"],
         ensures=["same(self.compiler_ctx, compiler_ctx)", "same(self.ctx, ctx)", "self.op_code_name == op_code_name", "same(self.params, params)", "self.number is None", "self.jump_is_positive == jump_is_positive"])
contract(U + "SsbLabelJumpBlueprint.set_index_number", "C01", modifies=["self.number"], ensures=["self.number == number"])
contract(U + "SsbLabelJumpBlueprint.set_jump_is_positive", "C01", modifies=["self.jump_is_positive"], ensures=["self.jump_is_positive == val"])
contract(U + "SsbLabelJumpBlueprint.build_for", "C01 C03 C08", modifies=["self.compiler_ctx.counter_ops.count", "dict(self.compiler_ctx.source_map_builder._mappings)"],
         ensures=["fresh(result)", "exactly(result, SsbLabelJump)", "same(result.label, label)", "result._root is not None", "fresh(result._root)", "exactly(result._root, SsbOperation)", "result._root.op_code.name == self.op_code_name",
                  "same(result._root.params, self.params)", "result._root.op_code.id == -1", "fresh(result._root.op_code)",
                  "result._root.offset == (old(self.compiler_ctx.counter_ops.count) + 1 if self.number is None else self.number)",
                  "self.compiler_ctx.counter_ops.count == old(self.compiler_ctx.counter_ops.count) + (1 if self.number is None else 0)",
                  "result._root.offset in self.compiler_ctx.source_map_builder._mappings",
                  "self.compiler_ctx.source_map_builder._mappings[result._root.offset].line == self.ctx.start.line - 1",
                  "self.compiler_ctx.source_map_builder._mappings[result._root.offset].column == self.ctx.start.column",
                  "result.offset == result._root.offset", "result.op_code.id == -1",
                  "without(table(self.compiler_ctx.source_map_builder._mappings), result._root.offset) == old(without(table(self.compiler_ctx.source_map_builder._mappings), self.compiler_ctx.counter_ops.count + 1 if self.number is None else self.number))"])

# ---- operations
GEN = [f"{SM}._mappings"]
GMOD = [f"{OC}.count", f"dict({SM}._mappings)"]
GPOST = ["{r}.op_code.name == op_name", "{r}.op_code.id == -1", "same({r}.params, params)", "exactly({r}, SsbOperation)", "fresh({r})", "fresh({r}.op_code)",
         f"{{r}}.offset == old({OC}.count) + 1", f"{OC}.count == old({OC}.count) + 1", f"{{r}}.offset in {SM}._mappings",
         f"{SM}._mappings[{{r}}.offset].line == self.ctx.start.line - 1", f"{SM}._mappings[{{r}}.offset].column == self.ctx.start.column",
         f"without(table({SM}._mappings), {{r}}.offset) == old(without(table({SM}._mappings), {OC}.count + 1))"]
GO = contract(A + "AbstractCompileHandler._generate_operation", "C01 C03 C08", params={"params": "list[SsbOpParam]"}, self_exact=False, modifies=GMOD, ensures=[g.format(r="result") for g in GPOST])
contract(A + "AbstractCompileHandler._generate_jump_operation", "C01 C03 C08", self_exact=False, modifies=GMOD, params={"params": "list[SsbOpParam]"},
         raises={"AssertionError": "not none_allowed and label is None"},
         ensures=["fresh(result)", "exactly(result, SsbLabelJump)", "same(result.label, label)", "none_allowed or label is not None", "result._root is not None", *[g.format(r="result._root") for g in GPOST], "result.offset == result._root.offset"])
contract(A + "AbstractCompileHandler._register_operation", "C01 C08", self_exact=False, modifies=[f"dict({SM}._mappings)"],
         ensures=["same(result, op)", f"{OC}.count in {SM}._mappings", f"{SM}._mappings[{OC}.count].line == self.ctx.start.line - 1", f"{SM}._mappings[{OC}.count].column == self.ctx.start.column",
                  f"without(table({SM}._mappings), {OC}.count) == old(without(table({SM}._mappings), {OC}.count))"])
contract(A + "AbstractCompileHandler._raise_add_error", "C10", self_exact=False, raises={"ValueError": "True"}, ensures=["False"])
contract(U + "does_op_end_control_flow", "C01 C03", requires=["not isinstance(op, SsbLabelJump) or op._root is not None"],
         ensures=["implies(previous_op is not None and previous_op.op_code.name in ('lives', 'object', 'performer'), result is False)",
                  "implies(not (previous_op is not None and previous_op.op_code.name in ('lives', 'object', 'performer')), iff(result, (op._root if isinstance(op, SsbLabelJump) else op).op_code.name in ('Jump', 'JumpCommon', 'Return', 'End', 'Hold', 'Destroy')))"])

# ---- statements: what every handler of a statement guarantees, whatever it is (C01, C03, C08, C10).
# Each concrete handler below is verified against this; blocks use it for the statements inside them.
MM = f"{SM}._mappings_macros"
CX = "self.compiler_ctx"
SMOD = [f"{OC}.count", f"{LC}.count", f"dict({SM}._mappings)", f"dict({MM})", f"{SM}._next_macro_called_in", f"items({SM}._pos_marks)", f"items({SM}._pos_marks_macros)",
        f"items({SM}._macro_context__stack)", f"dict({CX}.collected_labels)", f"items({CX}._loops)", f"items({CX}._switch_cases)"]
COUNTS = [f"{OC}.count >= old({OC}.count)", f"{LC}.count >= old({LC}.count)"]
STACKS = [f"items({CX}._loops) == old(items({CX}._loops))", f"items({CX}._switch_cases) == old(items({CX}._switch_cases))"]
GROWS = [f"old(domain({SM}._mappings)) <= domain({SM}._mappings)", f"old(domain({MM})) <= domain({MM})"]
def opok(seq, old=True):
    lim = f"old({OC}.count) < o.offset <= {OC}.count" if old else "True"
    return [f"all(isinstance(o, SsbLabel) or (fresh(o) and (o.offset in {SM}._mappings or o.offset in {MM})) for o in {seq})",
            f"all(isinstance(o, SsbLabel) or o.offset <= {OC}.count for o in {seq})",
            f"all(isinstance(o, SsbLabel) or o.offset > old({OC}.count) for o in {seq})",
            f"all(not isinstance(o, SsbLabelJump) or (o._root is not None and o.label is not None) for o in {seq})"]
LASTS = [f"len({CX}._loops) < 1 or same({CX}._loops[-1].compiler_ctx, {CX})", f"len({CX}._switch_cases) < 1 or same({CX}._switch_cases[-1].compiler_ctx, {CX})"]
SREQ = [f"not same({OC}, {LC})", f"not same({SM}._mappings, {MM})", *LASTS]
SRAISE = {"SsbCompilerError": "True", "ValueError": "True", "AssertionError": "True"}
SENS = [*COUNTS, *STACKS, *GROWS, *opok("result"), "fresh(result)"]
STMT = contract(A + STMTH + ".collect", "", interface=True, result="list[SsbOperation]", requires=SREQ, modifies=SMOD, ensures=SENS, raises=SRAISE, trusted="interface: verified for every concrete statement handler", self_exact=False)


def stmt(path, props="C01 C03 C08 C10", **k):
    k["ensures"] = [*k.pop("ensures", []), *SENS]
    k["requires"] = [*SREQ, *k.pop("requires", [])]
    k["modifies"] = [*SMOD, *k.pop("modifies", [])]
    k.setdefault("raises", SRAISE)
    k.setdefault("result", "list[SsbOperation]")
    return contract(H + path + ".collect", props, **k)


R0 = "result[0]"
def op1(name, params):
    """exactly one operation with the name and the parameters"""
    return ["len(result) == 1", "exactly(result[0], SsbOperation)", f"result[0].op_code.name == {name}", f"items(result[0].params) == {params}", f"result[0].offset == {OC}.count",
            f"{OC}.count == old({OC}.count) + 1", f"{SM}._mappings[result[0].offset].line == self.ctx.start.line - 1", f"{SM}._mappings[result[0].offset].column == self.ctx.start.column"]
LBL = "str(self.ctx.IDENTIFIER())"
def lab(r):
    return [f"{LBL} in {CX}.collected_labels", f"same({r}, {CX}.collected_labels[{LBL}])",
            f"implies({LBL} in old(domain({CX}.collected_labels)), same({r}, old({CX}.collected_labels[{LBL}])))", ]
for mod, cls, nm in (("jump", "Jump", "'Jump'"), ("call", "Call", "'Call'")):
    stmt(f"statements.{mod}:{cls}CompileHandler", ensures=["len(result) == 1", "exactly(result[0], SsbLabelJump)", f"result[0]._root.op_code.name == {nm}", "items(result[0]._root.params) == []", *lab("result[0].label"),
         f"result[0].offset == {OC}.count", f"{SM}._mappings[result[0].offset].line == self.ctx.start.line - 1", f"{SM}._mappings[result[0].offset].column == self.ctx.start.column"])
stmt("atoms.label:LabelCompileHandler", ensures=["len(result) == 1", "isinstance(result[0], SsbLabel)", *lab("result[0]"), f"{OC}.count == old({OC}.count)"])
AS = "assignments.assignment_"
stmt(AS + "adventure_log:AssignmentAdventureLogCompileHandler", ensures=["self.value is not None", *op1("'flag_SetAdventureLog'", "[self.value]")])
stmt(AS + "clear:AssignmentClearCompileHandler", ensures=["self.var_target is not None", *op1("'flag_Clear'", "[self.var_target]")])
stmt(AS + "initial:AssignmentInitialCompileHandler", ensures=["self.var_target is not None", *op1("'flag_Initial'", "[self.var_target]")])
stmt(AS + "dungeon_mode:AssignmentDungeonModeCompileHandler", ensures=["self.var_target is not None and self.value is not None", *op1("'flag_SetDungeonMode'", "[self.var_target, self.value]")])
stmt(AS + "regular:AssignmentRegularCompileHandler", ensures=[
    "self.var_target is not None and self.operator is not None and self.value is not None",
    "len(result) == 1", "exactly(result[0], SsbOperation)", f"result[0].offset == {OC}.count",
    f"{SM}._mappings[result[0].offset].line == self.ctx.start.line - 1", f"{SM}._mappings[result[0].offset].column == self.ctx.start.column",
    # X[i] = v / PERFORMANCE_PROGRESS_LIST[i] = v / X op= value(Y) / X = v / X op= v
    f"implies(self.ctx.INTEGER() is not None and str(self.var_target) == {CX}.performance_progress_list_var_name, result[0].op_code.name == 'flag_SetPerformance' and items(result[0].params) == [exps_int(str(self.ctx.INTEGER())), self.value])",
    f"implies(self.ctx.INTEGER() is not None and str(self.var_target) != {CX}.performance_progress_list_var_name, result[0].op_code.name == 'flag_CalcBit' and items(result[0].params) == [self.var_target, exps_int(str(self.ctx.INTEGER())), self.value])",
    "implies(self.ctx.INTEGER() is None and self.value_is_a_variable, result[0].op_code.name == 'flag_CalcVariable' and items(result[0].params) == [self.var_target, self.operator.value, self.value])",
    "implies(self.ctx.INTEGER() is None and not self.value_is_a_variable and self.operator == SsbCalcOperator.ASSIGN, result[0].op_code.name == 'flag_Set' and items(result[0].params) == [self.var_target, self.value])",
    "implies(self.ctx.INTEGER() is None and not self.value_is_a_variable and self.operator != SsbCalcOperator.ASSIGN, result[0].op_code.name == 'flag_CalcValue' and items(result[0].params) == [self.var_target, self.operator.value, self.value])"])
stmt(AS + "reset:AssignmentResetCompileHandler", ensures=["len(result) == 1", "exactly(result[0], SsbOperation)",
    "implies(self.ctx.DUNGEON_RESULT() is not None, result[0].op_code.name == 'flag_ResetDungeonResult' and items(result[0].params) == [])",
    "implies(self.ctx.DUNGEON_RESULT() is None, self.scn_var_target is not None and result[0].op_code.name == 'flag_ResetScenario' and items(result[0].params) == [self.scn_var_target])"])
stmt(AS + "scenario:AssignmentScenarioCompileHandler", ensures=["self.var_target is not None", *op1("'flag_SetScenario'", "[self.var_target, exps_int(str(self.ctx.INTEGER(0))), exps_int(str(self.ctx.INTEGER(1)))]")])

# loops and switches answer for the statements inside them (interface of the stack entries)
JUMP = ["fresh(result)", "exactly(result, SsbLabelJump)", "result._root is not None", "fresh(result._root)", "exactly(result._root, SsbOperation)", "result._root.op_code.name == 'Jump'", "items(result._root.params) == []",
        f"result._root.offset == old({OC}.count) + 1", "result.offset == result._root.offset", f"{OC}.count == old({OC}.count) + 1", f"result.offset in {SM}._mappings",
        f"without(table({SM}._mappings), result.offset) == old(without(table({SM}._mappings), {OC}.count + 1))", "result.label is not None"]
LH = "AbstractComplexLoopBlockCompileHandler"
TOLABEL = "same(result.label, (self._new_run_label if isinstance(self, ForBlockCompileHandler) else self._start_label))"
contract(A + f"{LH}.continue_loop", interface=True, result="SsbLabelJump", modifies=GMOD, ensures=[*JUMP, TOLABEL], self_exact=False, trusted="interface: both definitions are verified")
contract(A + f"{LH}.continue_loop", "C01 C10 C03", self_exact=False, result="SsbLabelJump", modifies=GMOD, requires=["not isinstance(self, ForBlockCompileHandler)"], ensures=[*JUMP, TOLABEL], apply=False, name=A + f"{LH}.continue_loop (as defined there)")
contract(A + f"{LH}.break_loop", "C01 C10 C03", self_exact=False, result="SsbLabelJump", modifies=GMOD, ensures=[*JUMP, "same(result.label, self._end_label)"])
contract(H + "blocks.loop.for_block:ForBlockCompileHandler.continue_loop", "C01 C03 C10", modifies=GMOD, result="SsbLabelJump", ensures=[*JUMP, "same(result.label, self._new_run_label)"])
for mod, cls in (("case_block", "CaseBlock"), ("default_case_block", "DefaultCaseBlock")):
    contract(H + f"blocks.switches.{mod}:{cls}CompileHandler.break_case", "C01 C10 C03", modifies=GMOD, raises={"AssertionError": "self._end_label is None"}, ensures=[*JUMP, "same(result.label, self._end_label)"])
    contract(H + f"blocks.switches.{mod}:{cls}CompileHandler.set_end_label", "C01", modifies=["self._end_label"], ensures=["same(self._end_label, end_label)"])
LOOPM = ["self.counter_ops.count", "dict(self.source_map_builder._mappings)"]
CJUMP = ["fresh(result)", "exactly(result, SsbLabelJump)", "result._root is not None", "fresh(result._root)", "exactly(result._root, SsbOperation)", "result._root.op_code.name == 'Jump'", "items(result._root.params) == []",
         "result.offset == result._root.offset", "result._root.offset == {c}.counter_ops.count", "{c}.counter_ops.count == old({c}.counter_ops.count) + 1", "result.offset in {c}.source_map_builder._mappings",
         "old(domain({c}.source_map_builder._mappings)) <= domain({c}.source_map_builder._mappings)", "result.label is not None"]
OWNCTX = ["same(h.compiler_ctx, self) for h in "]
contract(U + "CompilerCtx.continue_loop", "C01 C10", modifies=LOOPM, raises={"SsbCompilerError": "len(self._loops) < 1"}, result="SsbLabelJump", params={"ctx": "opaque"},
         requires=["len(self._loops) < 1 or same(self._loops[-1].compiler_ctx, self)"],
         ensures=["len(self._loops) >= 1", *[c.format(c="self") for c in CJUMP], "same(result.label, (self._loops[-1]._new_run_label if isinstance(self._loops[-1], ForBlockCompileHandler) else self._loops[-1]._start_label))"])
contract(U + "CompilerCtx.break_loop", "C01 C10", modifies=LOOPM, raises={"SsbCompilerError": "len(self._loops) < 1"}, result="SsbLabelJump", params={"ctx": "opaque"},
         requires=["len(self._loops) < 1 or same(self._loops[-1].compiler_ctx, self)"],
         ensures=["len(self._loops) >= 1", *[c.format(c="self") for c in CJUMP], "same(result.label, self._loops[-1]._end_label)"])
contract(U + "CompilerCtx.break_case", "C01 C10", modifies=LOOPM, raises={"SsbCompilerError": "len(self._switch_cases) < 1", "AssertionError": "len(self._switch_cases) > 0 and self._switch_cases[-1]._end_label is None"}, result="SsbLabelJump", params={"ctx": "opaque"},
         requires=["len(self._switch_cases) < 1 or same(self._switch_cases[-1].compiler_ctx, self)"],
         ensures=["len(self._switch_cases) >= 1", *[c.format(c="self") for c in CJUMP], "same(result.label, self._switch_cases[-1]._end_label)"])
CTRL = lambda tok, *post: " and ".join([])
LOOPTOP = f"{CX}._loops[-1]"
ONLY = "self.ctx.RETURN() is None and self.ctx.END() is None and self.ctx.HOLD() is None"
stmt("statements.control_statement:ControlStatementCompileHandler", ensures=[
    "implies(self.ctx.RETURN() is not None, len(result) == 1 and exactly(result[0], SsbOperation) and result[0].op_code.name == 'Return' and items(result[0].params) == [])",
    "implies(self.ctx.RETURN() is None and self.ctx.END() is not None, len(result) == 1 and exactly(result[0], SsbOperation) and result[0].op_code.name == 'End' and items(result[0].params) == [])",
    "implies(self.ctx.RETURN() is None and self.ctx.END() is None and self.ctx.HOLD() is not None, len(result) == 1 and exactly(result[0], SsbOperation) and result[0].op_code.name == 'Hold' and items(result[0].params) == [])",
    f"implies({ONLY} and self.ctx.CONTINUE() is not None, len({CX}._loops) >= 1 and len(result) == 1 and exactly(result[0], SsbLabelJump) and result[0]._root.op_code.name == 'Jump' and same(result[0].label, ({LOOPTOP}._new_run_label if isinstance({LOOPTOP}, ForBlockCompileHandler) else {LOOPTOP}._start_label)))",
    f"implies({ONLY} and self.ctx.CONTINUE() is None and self.ctx.BREAK() is not None, len({CX}._switch_cases) >= 1 and len(result) == 1 and exactly(result[0], SsbLabelJump) and result[0]._root.op_code.name == 'Jump' and same(result[0].label, {CX}._switch_cases[-1]._end_label))",
    f"implies({ONLY} and self.ctx.CONTINUE() is None and self.ctx.BREAK() is None and self.ctx.BREAK_LOOP() is not None, len({CX}._loops) >= 1 and len(result) == 1 and exactly(result[0], SsbLabelJump) and result[0]._root.op_code.name == 'Jump' and same(result[0].label, {LOOPTOP}._end_label))",
    # the entry of the statement is at its own place in the source
    f"implies(len(result) > 0, {SM}._mappings[result[0].offset].line == self.ctx.start.line - 1 and {SM}._mappings[result[0].offset].column == self.ctx.start.column)",
])
