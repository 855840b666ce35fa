"""Handlers of the small parts of statements: values, operators, arguments, headers (C01, C04, C08, C10)."""
from pyvc import prog
from pyvc.core import L, contract

from . import c_literals
from .c_backend import A, CX, GMOD, GPOST, H, LC, MM, OC, SENS, SM, SMOD, SRAISE, SREQ, STMTH, U, op1, stmt

SV = "SsbCompilerError"
T = "implies({t}, result == SsbCalcOperator.{o})"
AT = H + "atoms."

# ---- operators: the token decides, and the numbers are the ones the game uses
def chain(toks, typ):
    out, before = [], []
    for tok, val in toks:
        cond = " and ".join([f"not self.ctx.{b}()" for b in before] + [f"self.ctx.{tok}()"])
        out.append(f"implies({cond}, result.value == {val})")
        before.append(tok)
    return out, " and ".join(f"not self.ctx.{b}()" for b in before)


ens, none = chain([("OP_MINUS", 1), ("OP_PLUS", 2), ("OP_MULTIPLY", 3), ("OP_DIVIDE", 4), ("ASSIGN", 0)], "")
contract(AT + "assignment_operator:AssignOperatorCompileHandler.collect", "C01", raises={SV: none}, ensures=ens)
ens, none = chain([("OP_FALSE", 0), ("OP_TRUE", 1), ("OP_EQ", 2), ("OP_GE", 5), ("OP_LE", 6), ("CLOSE_SHARP", 3), ("OPEN_SHARP", 4), ("OP_NEQ", 7), ("OP_AND", 8), ("OP_XOR", 9), ("OP_BICH", 10)], "")
contract(AT + "conditional_operator:ConditionalOperatorCompileHandler.collect", "C01", raises={SV: none}, ensures=ens)

# texts: what the literals mean is checked on examples (C01, C04); here they are functions of the text
contract(U + "multiline_string_literal", trusted="a function of the text of the literal (checked on examples only)", result="str", params={"string": "opaque"}, ensures=["result == ghost('multiline', 'str', str(string))"])
I = "self.ctx.INTEGER()"
contract(AT + "integer_like:IntegerLikeCompileHandler.collect", "C01 C04 C10", raises={SV: "not self.ctx.INTEGER() and not self.ctx.DECIMAL() and not self.ctx.IDENTIFIER() and not self.ctx.VARIABLE()", "ValueError": "self.ctx.INTEGER() or self.ctx.DECIMAL()"},
         use=[c_literals.TOKEN],
         ensures=["implies(self.ctx.INTEGER(), result == exps_int(str(self.ctx.INTEGER())))",
                  "implies(not self.ctx.INTEGER() and self.ctx.DECIMAL(), isinstance(result, SsbOpParamFixedPoint))",
                  "implies(not self.ctx.INTEGER() and not self.ctx.DECIMAL() and self.ctx.IDENTIFIER(), isinstance(result, SsbOpParamConstant) and result.name == str(self.ctx.IDENTIFIER()))",
                  "implies(not self.ctx.INTEGER() and not self.ctx.DECIMAL() and not self.ctx.IDENTIFIER(), isinstance(result, SsbOpParamConstant) and result.name == str(self.ctx.VARIABLE()))"])
for mod, cls in (("scn_var", "ScnVar"), ("value_of", "ValueOf")):
    contract(AT + f"{mod}:{cls}CompileHandler.collect", "C01", raises={SV: "self.var_target is None"}, ensures=["same(result, self.var_target)"])
contract(AT + "position_marker:PositionMarkerCompileHandler.collect", "C01 C18", raises={"AssertionError": "self.x is None or self.y is None"},
         ensures=["result.x_relative == self.x[0]", "result.x_offset == self.x[1]", "result.y_relative == self.y[0]", "result.y_offset == self.y[1]", "result.name == singleline_string_literal(self.ctx.STRING_LITERAL())", "fresh(result)"])
contract(AT + "string:StringCompileHandler.collect", "C01", raises={SV: "not self.ctx.string_value() and self.lang_string_handler is None"},
         ensures=["implies(self.ctx.string_value(), isinstance(result, SsbOpParamConstString) and result.name == string_literal(self.ctx.string_value()))",
                  "implies(not self.ctx.string_value(), isinstance(result, SsbOpParamLanguageString) and result.strings is self.lang_string_handler.language_dict)"])
contract(AT + "lang_string:LangStringCompileHandler.collect", "C01", ensures=["result.strings is self.language_dict", "fresh(result)"])
contract(AT + "lang_string:LangStringCompileHandler.add", "C10 C01", params={"obj": "LangStringArgumentCompileHandler | LabelCompileHandler"}, modifies=["dict(self.language_dict)"], raises={"ValueError": "not isinstance(obj, LangStringArgumentCompileHandler)"},
         ensures=["str(obj.ctx.IDENTIFIER()) in self.language_dict", "self.language_dict[str(obj.ctx.IDENTIFIER())] == obj.collect()[1]",
                  "without(table(self.language_dict), str(obj.ctx.IDENTIFIER())) == old(without(table(self.language_dict), str(obj.ctx.IDENTIFIER())))"])

# ---- calls of operations
OPR = H + "operations."
contract(OPR + "arg:ArgCompileHandler.collect", "C01", raises=SRAISE, ensures=["self.arg_handler is not None"])
CTXOP = "self.ctx.inline_ctx() is not None"
FT = "str(self.ctx.inline_ctx().ctx_header().IDENTIFIER())"
contract(OPR + "arg_list:ArgListCompileHandler.collect", "C01 C08", result="list[SsbOpParam]", modifies=[f"items({SM}._pos_marks)"], raises=SRAISE, ensures=["fresh(result)", "len(result) == len(self._added_handlers)", f"items({SM}._pos_marks)[:len(old(items({SM}._pos_marks)))] == old(items({SM}._pos_marks))"],
         loops={0: L(inv=["len(ret) == len(done)", f"items({SM}._pos_marks)[:len(old(items({SM}._pos_marks)))] == old(items({SM}._pos_marks))"], types={"ret": "list[SsbOpParam]"})})
stmt("operations.operation:OperationCompileHandler", assume=[f"self.arg_list_handler is None or same(self.arg_list_handler.compiler_ctx, {CX})"], ensures=[
    f"len(result) == (2 if {CTXOP} else 1)", f"implies(self.arg_list_handler is None, items(result[-1].params) == [])", "exactly(result[-1], SsbOperation)", "exactly(result[0], SsbOperation)",
    "result[-1].op_code.name == str(self.ctx.IDENTIFIER())",
    f"implies({CTXOP}, self._for_id is not None and items(result[0].params) == [self._for_id] and result[0].op_code.name == ('lives' if {FT} == 'actor' else {FT}) and {FT} in ('actor', 'object', 'performer'))",
    f"result[-1].offset == {OC}.count", f"result[0].offset == old({OC}.count) + 1", f"{OC}.count == old({OC}.count) + len(result)",
    f"{SM}._mappings[result[-1].offset].line == self.ctx.start.line - 1", f"{SM}._mappings[result[-1].offset].column == self.ctx.start.column",
    f"{SM}._mappings[result[0].offset].line == self.ctx.start.line - 1", f"{SM}._mappings[result[0].offset].column == self.ctx.start.column"])

VARS = "[*self.var_target]"
# ---- headers of conditions
JB = ["fresh(result)", "exactly(result, SsbLabelJumpBlueprint)", "same(result.compiler_ctx, self.compiler_ctx)", "same(result.ctx, self.ctx)", "result.number is None", "fresh(result.params)"]
def jb(name, params, positive=True):
    return f"result.op_code_name == {name} and items(result.params) == {params}" + (" and result.jump_is_positive" if positive else "")
HD = H + "blocks.ifs.header."
PPL = f"(isinstance(self.var_target, (SsbOpParamConstant, SsbOpParamConstString, SsbOpParamPositionMarker)) and self.var_target.name == {CX}.performance_progress_list_var_name)"
IDX = "exps_int(str(self.ctx.INTEGER()))"
contract(HD + "bit:IfHeaderBitCompileHandler.collect", "C01 C10", raises={SV: f"self.var_target is None or self.ctx.NOT() is not None and not {PPL}", "ValueError": "True"},
         ensures=[*JB, f"implies({PPL}, {jb(repr('BranchPerformance'), f'[{IDX}, 1 if self.ctx.NOT() is None else 0]')})", f"implies(not {PPL}, {jb(repr('BranchBit'), f'[self.var_target, {IDX}]')})"])
contract(HD + "negatable:IfHeaderNegatableCompileHandler.collect", "C01", requires=["self.ctx.DEBUG() or self.ctx.EDIT() or self.ctx.VARIATION()"], ensures=[*JB,
         f"implies(self.ctx.DEBUG(), {jb(repr('BranchDebug'), '[1 if self.ctx.NOT() is None else 0]')})",
         f"implies(not self.ctx.DEBUG() and self.ctx.EDIT(), {jb(repr('BranchEdit'), '[1 if self.ctx.NOT() is None else 0]')})",
         f"implies(not self.ctx.DEBUG() and not self.ctx.EDIT(), {jb(repr('BranchVariation'), '[1 if self.ctx.NOT() is None else 0]')})"])
contract(HD + "operator:IfHeaderOperatorCompileHandler.collect", "C01", raises={SV: "self.var_target is None or self.operator is None or self.value is None"}, ensures=[*JB,
         "self.var_target is not None and self.operator is not None and self.value is not None",
         f"implies(self.value_is_a_variable, {jb(repr('BranchVariable'), '[self.var_target, self.operator.value, self.value]')})",
         f"implies(not self.value_is_a_variable and self.operator == SsbOperator.EQ, {jb(repr('Branch'), '[self.var_target, self.value]')})",
         f"implies(not self.value_is_a_variable and self.operator != SsbOperator.EQ, {jb(repr('BranchValue'), '[self.var_target, self.operator.value, self.value]')})"])
SCN = "[self.scn_var_target, exps_int(str(self.ctx.INTEGER(0))), exps_int(str(self.ctx.INTEGER(1)))]"
contract(HD + "scn:IfHeaderScnCompileHandler.collect", "C01 C10", raises={SV: "self.scn_var_target is None or self.operator is None or self.operator.value not in (2, 3, 4, 5, 6)", "ValueError": "True"}, ensures=[*JB,
         "self.scn_var_target is not None and self.operator is not None and self.operator.value in (2, 3, 4, 5, 6)",
         *[f"implies(self.operator.value == {v}, {jb(repr(n), SCN)})" for v, n in ((2, "BranchScenarioNow"), (3, "BranchScenarioAfter"), (4, "BranchScenarioBefore"), (5, "BranchScenarioNowAfter"), (6, "BranchScenarioNowBefore"))]])
CH = H + "blocks.switches.case_headers."
contract(CH + "menu:CaseHeaderMenuCompileHandler.collect", "C01", raises={SV: "self.value is None"}, ensures=[*JB, "self.value is not None", f"implies(self.is_menu_2, {jb(repr('CaseMenu2'), '[self.value]')})", f"implies(not self.is_menu_2, {jb(repr('CaseMenu'), '[self.value]')})"])
contract(CH + "op:CaseHeaderOpCompileHandler.collect", "C01", raises={SV: "self.value is None or self.operator is None"}, ensures=[*JB, "self.value is not None and self.operator is not None",
         f"implies(self.value_is_a_variable, {jb(repr('CaseVariable'), '[self.operator.value, self.value]')})", f"implies(not self.value_is_a_variable, {jb(repr('CaseValue'), '[self.operator.value, self.value]')})"])
HHC = "self._header_cmplx_handler"
HSAME = f"{HHC} is None or same({HHC}.compiler_ctx, {CX})"
contract(H + "blocks.switches.case_header:CaseHeaderCompileHandler.collect", "C01", raises={SV: "True", "ValueError": "True"}, assume=[HSAME], ensures=[
         "same(result.compiler_ctx, self.compiler_ctx)",
         "fresh(result)", "exactly(result, SsbLabelJumpBlueprint)", "result.number is None", "fresh(result.params)", "result.jump_is_positive", "result.op_code_name in ('Case', 'CaseValue', 'CaseVariable', 'CaseMenu', 'CaseMenu2')",
         "iff(isinstance(self._header_cmplx_handler, IntegerLikeCompileHandler), result.op_code_name == 'Case')",
         "implies(result.op_code_name == 'Case', same(result.ctx, self.ctx) and len(result.params) == 1)"])
contract(H + "blocks.ifs.if_header:IfHeaderCompileHandler.set_positive", "C01", modifies=["self._is_positive"], ensures=["self._is_positive == positive"])
contract(H + "blocks.ifs.if_header:IfHeaderCompileHandler.collect", "C01 C10", raises=SRAISE, requires=SREQ, modifies=SMOD,
         assume=[HSAME,
                 "not isinstance(self._header_cmplx_handler, IfHeaderNegatableCompileHandler) or self._header_cmplx_handler.ctx.DEBUG() or self._header_cmplx_handler.ctx.EDIT() or self._header_cmplx_handler.ctx.VARIATION()"],
         ensures=["fresh(result)", "exactly(result, SsbLabelJumpBlueprint)", "result.number is None", "result.jump_is_positive == self._is_positive", "result.op_code_name.startswith('Branch')", "same(result.compiler_ctx, self.compiler_ctx)",
                  "implies(isinstance(self._header_cmplx_handler, OperationCompileHandler), same(result.ctx, self.ctx))", *[x for x in SENS if "result" not in x]])
# ---- headers of switches
SH = H + "blocks.switches.switch_headers."
SOP = ["exactly(result, SsbOperation)", "fresh(result)", f"result.offset == {OC}.count", f"{OC}.count == old({OC}.count) + 1", f"result.offset in {SM}._mappings", f"{SM}._mappings[result.offset].line == self.ctx.start.line - 1", f"{SM}._mappings[result.offset].column == self.ctx.start.column",
       f"without(table({SM}._mappings), result.offset) == old(without(table({SM}._mappings), {OC}.count + 1))"]
def sop(name, params):
    return f"result.op_code.name == {name!r} and items(result.params) == {params}"
contract(SH + "dungeon_mode:SwitchHeaderDungeonModeCompileHandler.collect", "C01 C08", modifies=GMOD, raises={SV: "self.value is None"}, ensures=[*SOP, "self.value is not None", sop("SwitchDungeonMode", "[self.value]")])
contract(SH + "random:SwitchHeaderRandomCompileHandler.collect", "C01 C08", modifies=GMOD, raises={SV: "self.value is None"}, ensures=[*SOP, "self.value is not None", sop("SwitchRandom", "[self.value]")])
contract(SH + "sector:SwitchHeaderSectorCompileHandler.collect", "C01 C08", modifies=GMOD, ensures=[*SOP, sop("SwitchSector", "[]")])
contract(SH + "scn:SwitchHeaderScnCompileHandler.collect", "C01 C08 C10", modifies=GMOD, raises={SV: f"self.scn_var_target is None or {IDX} not in (0, 1)", "ValueError": "True"}, ensures=[*SOP, "self.scn_var_target is not None",
         f"implies({IDX} == 0, {sop('SwitchScenario', '[self.scn_var_target]')})", f"implies({IDX} == 1, {sop('SwitchScenarioLevel', '[self.scn_var_target]')})", f"{IDX} in (0, 1)"])
HH = "self._header_cmplx_handler"
contract(H + "blocks.switches.switch_header:SwitchHeaderCompileHandler.collect", "C01 C08", requires=SREQ, modifies=SMOD, raises=SRAISE,
         assume=[f"{HH} is None or same({HH}.compiler_ctx, {CX})"],
         ensures=["exactly(result, SsbOperation)", "fresh(result)", f"result.offset == {OC}.count", f"{OC}.count > old({OC}.count)", f"result.offset in {SM}._mappings", *[x for x in SENS if "result" not in x],
                  f"implies(isinstance({HH}, IntegerLikeCompileHandler), result.op_code.name == 'Switch' and len(result.params) == 1)"])
