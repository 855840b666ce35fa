"""Small functions: what remains of add(), markers of jumps and labels, the listing of position marks, dispatch of the tree to handlers."""
from pyvc import prog
from pyvc.core import C, L, contract, light

from .c_add import ANY, AS, AT, CV, IFB, IL, LO, P, SH, SV, SWB, VO, adds
from .c_backend import A, CX, H

# ---- what is refused, and the parts given in an order
for path in (AT + "assignment_operator:AssignOperator", AT + "conditional_operator:ConditionalOperator", AT + "integer_like:IntegerLike", AT + "label:Label", AT + "lang_string_arg:LangStringArgument", AT + "position_marker_arg:PositionMarkerArg",
             SH + "sector:SwitchHeaderSector", H + "statements.call:Call", H + "statements.control_statement:ControlStatement", H + "statements.jump:Jump"):
    contract(path + "CompileHandler.add", "C10", params={"obj": "opaque"}, raises={"ValueError": "True"}, ensures=["False"])
contract(H + "null:NullCompileHandler.add", "C10", params={"obj": "opaque"}, raises={"AssertionError": "True"}, ensures=["False"])
contract(H + "null:NullCompileHandler.collect", "C10", raises={"AssertionError": "True"}, ensures=["False"])
# first the target, then the value
PAIR = dict(params={"obj": ANY}, raises={"ValueError": "True", SV: "True"})
contract(AS + "dungeon_mode:AssignmentDungeonModeCompileHandler.add", P, modifies=["self.var_target", "self.value"], **PAIR,
         ensures=[f"isinstance(obj, {IL})", "old(self.var_target is None or self.value is None)", "implies(old(self.var_target) is None, same(self.value, old(self.value)))", "implies(old(self.var_target) is not None, same(self.var_target, old(self.var_target)))"],
         checks=["same(self.var_target if old(self.var_target) is None else self.value, returned('collect'))"])


def operand(path, op, target="self.var_target"):
    T = f"isinstance(obj, {IL})"
    contract(path + ".add", P, modifies=[*([target] if target else []), "self.operator", "self.value", "self.value_is_a_variable"], **PAIR,
             ensures=[f"isinstance(obj, ({IL}, {op}, {VO}))", f"implies(isinstance(obj, {op}), same(self.value, old(self.value)) and self.value_is_a_variable == old(self.value_is_a_variable))",
                      f"implies(isinstance(obj, {VO}), self.value_is_a_variable and same(self.operator, old(self.operator)))", f"implies({T}, same(self.operator, old(self.operator)))",
                      *([f"implies(not {T} or old({target}) is not None, same({target}, old({target})))", f"implies({T} and old({target}) is not None, old(self.value) is None and not self.value_is_a_variable)",
                         f"implies({T} and old({target}) is None, same(self.value, old(self.value)) and self.value_is_a_variable == old(self.value_is_a_variable))"] if target else [f"implies({T}, not self.value_is_a_variable)"])],
             checks=[f"not isinstance(obj, {op}) or same(self.operator, returned('collect'))", f"not isinstance(obj, {VO}) or same(self.value, returned('collect'))",
                     f"not {T} or same(self.value if old({target or 'self'}) is not None else {target or 'self.value'}, returned('collect'))"])


operand(AS + "regular:AssignmentRegularCompileHandler", "AssignOperatorCompileHandler")
operand(IFB + "header.operator:IfHeaderOperatorCompileHandler", "ConditionalOperatorCompileHandler")
operand(SWB + "case_headers.op:CaseHeaderOpCompileHandler", "ConditionalOperatorCompileHandler", None)
contract(IFB + "header.negatable:IfHeaderNegatableCompileHandler.add", "C10", params={"obj": "opaque"}, raises={"ValueError": "True"}, ensures=["False"])
contract(AT + "position_marker_arg:PositionMarkerArgCompileHandler.collect", "C01 C18", raises={"ValueError": "True", SV: "True"}, result="tuple[int, int]", checks=["result == returned('parse_position_marker_arg')"])
contract(AT + "position_marker:PositionMarkerCompileHandler.add", "C01 C18", params={"obj": ANY}, modifies=["self.x", "self.y"], raises={"ValueError": "True", SV: "True"},
         ensures=["isinstance(obj, PositionMarkerArgCompileHandler)", "implies(old(self.x) is not None, self.x == old(self.x))", "implies(old(self.x) is None, self.y == old(self.y))"],
         checks=["(self.x if old(self.x) is None else self.y) == returned('collect')"])
contract(H + "functions.for_target_def:ForTargetDefCompileHandler.add", "C03 C10", params={"obj": ANY}, modifies=["self._linked_to_target", "items(self._added_handlers)"], raises={"ValueError": "True", SV: "True"},
         ensures=["isinstance(obj, IntegerLikeCompileHandler) or items(self._added_handlers) == old(items(self._added_handlers)) + [obj]", "implies(isinstance(obj, IntegerLikeCompileHandler), items(self._added_handlers) == old(items(self._added_handlers)))"],
         checks=["not isinstance(obj, IntegerLikeCompileHandler) or same(self._linked_to_target, returned('collect'))"])
CASE = SWB + "case_block:CaseBlockCompileHandler."
contract(CASE + "has_sub_block_handlers", "C01", apply=False, ensures=["result == (len(self._added_handlers) > 0)"])
contract(SWB + "default_case_block:DefaultCaseBlockCompileHandler.has_sub_block_handlers", "C01", apply=False, ensures=["result == (len(self._added_handlers) > 0)"])
contract(CASE + "collect_header_handler", "C01", apply=False, raises={"AssertionError": "self._case_header_handler is None"}, ensures=["same(result, self._case_header_handler)"])
contract(H + "abstract:AbstractComplexBlockCompileHandler.get_start_label", "C01", apply=False, ensures=["same(result, self.start_label)"])
contract(H + "abstract:AbstractComplexBlockCompileHandler.get_processed_header_jumps", "C01", apply=False, ensures=["same(result, self.processed_header_jumps)"])
contract(H + "abstract:AbstractComplexBlockCompileHandler.set_processed_header_jumps", "C01", apply=False, modifies=["self.processed_header_jumps"], ensures=["same(self.processed_header_jumps, val)"])

# ---- markers
SO = "explorerscript.ssb_converting.ssb_special_ops:"
contract(SO + "SsbLabelJump.add_marker", "C02", apply=False, modifies=["items(self.markers)"], raises={"ValueError": "len(self.markers) > 0"}, ensures=["items(self.markers) == [m]"])
contract(SO + "SsbLabelJump.remove_marker", "C02", apply=False, modifies=["items(self.markers)"], ensures=["items(self.markers) == old(items(self.markers)[1:])"])
contract(SO + "SsbLabelJump.get_marker", "C02", apply=False, ensures=["implies(len(self.markers) > 0, same(result, self.markers[0]))", "implies(len(self.markers) == 0, result is None)"])
contract(SO + "SsbLabelJump.unset_root", "C02", apply=False, modifies=["self._root"], ensures=["self._root is None"])
contract(SO + "SsbLabel.add_marker", "C02", apply=False, modifies=["items(self.markers)"], ensures=["items(self.markers) == old(items(self.markers)) + [m]"])
contract(SO + "MultiIfStart.add_if", "C02 C13", apply=False, modifies=["items(self.original_ssb_ifs_ops)"], ensures=["items(self.original_ssb_ifs_ops) == old(items(self.original_ssb_ifs_ops)) + [ssb_if]"])

# ---- the listing of position marks
PV = CV + "position_mark_visitor:PositionMarkVisitor."
prog.FIELD_TYPES.update({("PositionMarkVisitor", "compiler_ctx"): "CompilerCtx"})
contract(PV + "defaultResult", "C18", result="list[SourceMapPositionMark]", ensures=["fresh(result)", "items(result) == []"])
contract(PV + "visitTerminal", "C18", params={"node": "opaque"}, ensures=["result is None"])
contract(PV + "visitPosition_marker_arg", "C18", params={"ctx": "opaque"}, ensures=["fresh(result)", "exactly(result, PositionMarkerArgCompileHandler)", "same(result.ctx, ctx)"])
contract(PV + "aggregateResult", "C18", params={"aggregate": "list[SourceMapPositionMark]", "nextResult": "list[SourceMapPositionMark] | SourceMapPositionMark | None"}, modifies=["items(aggregate)"], result="list[SourceMapPositionMark]",
         ensures=["implies(isinstance(nextResult, list), items(result) == old(items(aggregate)) + old(items(nextResult)))", "implies(isinstance(nextResult, SourceMapPositionMark), items(result) == old(items(aggregate)) + [nextResult])",
                  "implies(nextResult is None, items(result) == old(items(aggregate)))"])
