"""What a handler does with the parts it is given: which field takes which part, and what is refused (C01, C10); routine definitions."""
from pyvc import prog
from pyvc.core import L, contract

from .c_backend import A, COUNTS, CX, GROWS, H, OC, SM, SMOD, SRAISE, SREQ, STACKS, STMTH, U, opok

CV = "explorerscript.ssb_converting.compiler.compiler_visitor."
SV = "SsbCompilerError"
IL, VO, SVH = "IntegerLikeCompileHandler", "ValueOfCompileHandler", "ScnVarCompileHandler"
ANY = "AbstractCompileHandler"


def adds(path, props, *cases, refuse="True", extra=(), raises=None, **k):
    """cases: (class, 'ref' | 'list' | 'val', field)"""
    fields = sorted({c[2] for c in cases})
    accepted = "(" + ", ".join(c[0] for c in cases) + ",)"
    mods, ens, checks = [], [f"isinstance(obj, {accepted})"], []
    val = False
    for i, (cls, kind, f) in enumerate(cases):
        F = f"self.{f}"
        IS = f"(isinstance(obj, {cls})" + "".join(f" and not isinstance(obj, {c[0]})" for c in cases[:i]) + ")"
        if kind == "list":
            ens.append(f"implies({IS}, items({F}) == old(items({F})) + [obj])")
            ens.append(f"implies(not {IS}, items({F}) == old(items({F})))")
            mods.append(f"items({F})")
        elif kind == "ref":
            ens.append(f"implies({IS}, same({F}, obj))")
            mods.append(F)
        else:
            val = True
            checks.append(f"not isinstance(obj, {cls}) or same({F}, returned('collect'))")
            mods.append(F)
    for f in fields:
        cs = [c for c in cases if c[2] == f and c[1] != "list"]
        if cs:
            ens.append(f"implies(not isinstance(obj, ({', '.join(c[0] for c in cs)},)), same(self.{f}, old(self.{f})))")
    rs = {"ValueError": "True" if val else f"not isinstance(obj, {accepted})"}
    if val:
        rs[SV] = "True"
    rs.update(raises or {})
    contract(path + ".add", props, params={"obj": k.pop("obj", ANY)}, raises=rs, modifies=list(dict.fromkeys(mods + list(k.pop("modifies", [])))), ensures=[*ens, *extra], checks=checks + list(k.pop("checks", [])), **k)


P = "C01 C10"
AS = H + "assignments.assignment_"
for mod, cls, f in (("adventure_log:AssignmentAdventureLog", IL, "value"), ("clear:AssignmentClear", IL, "var_target"), ("initial:AssignmentInitial", IL, "var_target"), ("scenario:AssignmentScenario", IL, "var_target"), ("reset:AssignmentReset", SVH, "scn_var_target")):
    adds(AS + mod + "CompileHandler", P, (cls, "val", f))
AT = H + "atoms."
adds(AT + "scn_var:ScnVarCompileHandler", P, (IL, "val", "var_target"))
adds(AT + "value_of:ValueOfCompileHandler", P, (IL, "val", "var_target"))
adds(AT + "string:StringCompileHandler", P + " C04", ("LangStringCompileHandler", "ref", "lang_string_handler"))
IFB, SWB, LO = H + "blocks.ifs.", H + "blocks.switches.", H + "blocks.loop."
adds(IFB + "else_block:ElseBlockCompileHandler", P, (STMTH, "list", "_added_handlers"))
adds(IFB + "elseif_block:ElseIfBlockCompileHandler", P, (STMTH, "list", "_added_handlers"), ("IfHeaderCompileHandler", "list", "_if_header_handlers"), requires=["not same(self._added_handlers, self._if_header_handlers)"])
adds(IFB + "if_block:IfBlockCompileHandler", P, ("IfHeaderCompileHandler", "list", "_if_header_handlers"), ("ElseIfBlockCompileHandler", "list", "_else_if_handlers"), ("ElseBlockCompileHandler", "ref", "_else_handler"), (STMTH, "list", "_added_handlers"),
     requires=["not same(self._added_handlers, self._if_header_handlers)", "not same(self._added_handlers, self._else_if_handlers)", "not same(self._if_header_handlers, self._else_if_handlers)"])
adds(IFB + "header.bit:IfHeaderBitCompileHandler", P, (IL, "val", "var_target"))
adds(IFB + "header.scn:IfHeaderScnCompileHandler", P, (SVH, "val", "scn_var_target"), ("ConditionalOperatorCompileHandler", "val", "operator"))
HC = "(IfHeaderBitCompileHandler, IfHeaderOperatorCompileHandler, IfHeaderNegatableCompileHandler, IfHeaderScnCompileHandler, OperationCompileHandler)"
contract(IFB + "if_header:IfHeaderCompileHandler.add", P, params={"obj": ANY}, modifies=["self._header_cmplx_handler"], raises={"ValueError": f"not isinstance(obj, {HC})"}, ensures=[f"isinstance(obj, {HC})", "same(self._header_cmplx_handler, obj)"])
CC = "(CaseHeaderMenuCompileHandler, CaseHeaderOpCompileHandler, IntegerLikeCompileHandler)"
contract(SWB + "case_header:CaseHeaderCompileHandler.add", P, params={"obj": ANY}, modifies=["self._header_cmplx_handler"], raises={"ValueError": f"not isinstance(obj, {CC})"}, ensures=[f"isinstance(obj, {CC})", "same(self._header_cmplx_handler, obj)"])
WC = "(SwitchHeaderDungeonModeCompileHandler, SwitchHeaderRandomCompileHandler, SwitchHeaderScnCompileHandler, SwitchHeaderSectorCompileHandler, IntegerLikeCompileHandler, OperationCompileHandler)"
contract(SWB + "switch_header:SwitchHeaderCompileHandler.add", P, params={"obj": ANY}, modifies=["self._header_cmplx_handler"], raises={"ValueError": f"not isinstance(obj, {WC})"}, ensures=[f"isinstance(obj, {WC})", "same(self._header_cmplx_handler, obj)"])
AC = "(IntegerLikeCompileHandler, StringCompileHandler, PositionMarkerCompileHandler)"
contract(H + "operations.arg:ArgCompileHandler.add", P, params={"obj": ANY}, modifies=["self.arg_handler"], raises={"ValueError": f"not isinstance(obj, {AC})"}, ensures=[f"isinstance(obj, {AC})", "same(self.arg_handler, obj)"])
adds(H + "operations.arg_list:ArgListCompileHandler", P, ("ArgCompileHandler", "list", "_added_handlers"))
adds(H + "operations.macro_call:MacroCallCompileHandler", P, ("ArgListCompileHandler", "ref", "arg_list_handler"))
adds(H + "operations.operation:OperationCompileHandler", P, ("ArgListCompileHandler", "ref", "arg_list_handler"), (IL, "val", "_for_id"))
adds(LO + "forever_block:ForeverBlockCompileHandler", P, (STMTH, "list", "_added_handlers"))
# the header of a loop is read when it is given, with everything it needs taken from the context of the loop
LOOPH = dict(assume=[f"not isinstance(obj, IfHeaderCompileHandler) or same(obj.compiler_ctx, {CX})"])
STEP = [f"implies(isinstance(obj, IfHeaderCompileHandler), self._branch_blueprint is not None and self._branch_blueprint.number is None)"]
HB = "self._branch_blueprint"
contract(LO + "while_block:WhileBlockCompileHandler.add", P, params={"obj": ANY}, requires=[*SREQ, f"not same(self._added_handlers, {CX}._loops)", f"not same(self._added_handlers, {CX}._switch_cases)"], raises=SRAISE, modifies=[*SMOD, HB, "items(self._added_handlers)"], **LOOPH,
         ensures=[f"isinstance(obj, ({STMTH}, IfHeaderCompileHandler))", f"implies(isinstance(obj, {STMTH}), items(self._added_handlers) == old(items(self._added_handlers)) + [obj] and same({HB}, old({HB})))", *STEP, *COUNTS, *STACKS, *GROWS],
         checks=[f"not isinstance(obj, IfHeaderCompileHandler) or same({HB}, returned('collect'))"])
S1, S2 = "self._init_statement_handler", "self._end_statement_handler"
contract(LO + "for_block:ForBlockCompileHandler.add", P, params={"obj": ANY}, requires=[*SREQ, f"not same(self._added_handlers, {CX}._loops)", f"not same(self._added_handlers, {CX}._switch_cases)"], raises=SRAISE, modifies=[*SMOD, HB, S1, S2, "items(self._added_handlers)"], **LOOPH,
         ensures=[f"isinstance(obj, ({STMTH}, IfHeaderCompileHandler))", *STEP, *COUNTS, *STACKS, *GROWS,
                  f"implies(isinstance(obj, {STMTH}) and old({S1}) is None, same({S1}, obj) and same({S2}, old({S2})) and items(self._added_handlers) == old(items(self._added_handlers)))",
                  f"implies(isinstance(obj, {STMTH}) and old({S1}) is not None and old({S2}) is None, same({S2}, obj) and same({S1}, old({S1})) and items(self._added_handlers) == old(items(self._added_handlers)))",
                  f"implies(isinstance(obj, {STMTH}) and old({S1}) is not None and old({S2}) is not None, items(self._added_handlers) == old(items(self._added_handlers)) + [obj] and same({S1}, old({S1})) and same({S2}, old({S2})))"],
         checks=[f"not isinstance(obj, IfHeaderCompileHandler) or same({HB}, returned('collect'))"])
adds(SWB + "case_block:CaseBlockCompileHandler", P, (STMTH, "list", "_added_handlers"), ("CaseHeaderCompileHandler", "ref", "_case_header_handler"), ("StringCompileHandler", "ref", "_added_string_handler"), modifies=["self.is_message_case"],
     extra=["self.is_message_case == (old(self.is_message_case) or isinstance(obj, StringCompileHandler))"])
adds(SWB + "default_case_block:DefaultCaseBlockCompileHandler", P, (STMTH, "list", "_added_handlers"), ("StringCompileHandler", "ref", "_added_string_handler"), modifies=["self.is_message_case"],
     extra=["self.is_message_case == (old(self.is_message_case) or isinstance(obj, StringCompileHandler))"])
# two defaults are refused
DD = {SV: "isinstance(obj, DefaultCaseBlockCompileHandler) and self._default_handler is not None"}
ONE = ["implies(isinstance(obj, DefaultCaseBlockCompileHandler), old(self._default_handler) is None)"]
adds(SWB + "message_switch:MessageSwitchCompileHandler", P, ("CaseBlockCompileHandler", "list", "_case_handlers"), ("DefaultCaseBlockCompileHandler", "ref", "_default_handler"), (IL, "ref", "_switch_header_handler"), raises=DD, extra=ONE)
adds(SWB + "switch_block:SwitchBlockCompileHandler", P, ("CaseBlockCompileHandler", "list", "_case_handlers"), ("DefaultCaseBlockCompileHandler", "ref", "_default_handler"), ("SwitchHeaderCompileHandler", "ref", "_switch_header_handler"), raises=DD,
     modifies=["self._default_handler_index"], extra=[*ONE, "self._default_handler_index == (len(self._case_handlers) if isinstance(obj, DefaultCaseBlockCompileHandler) else old(self._default_handler_index))"])
SH = SWB + "switch_headers."
adds(SH + "dungeon_mode:SwitchHeaderDungeonModeCompileHandler", P, (IL, "val", "value"))
adds(SH + "random:SwitchHeaderRandomCompileHandler", P, (IL, "val", "value"))
adds(SH + "scn:SwitchHeaderScnCompileHandler", P, (SVH, "val", "scn_var_target"))
adds(SWB + "case_headers.menu:CaseHeaderMenuCompileHandler", P, (IL, "val", "value"), ("StringCompileHandler", "val", "value"))
# a with-block: one statement, no label
WS = "(OperationCompileHandler, ControlStatementCompileHandler, JumpCompileHandler, CallCompileHandler, AbstractAssignmentCompileHandler)"
contract(H + "blocks.ctxs.ctx_block:CtxBlockCompileHandler.add", P, params={"obj": ANY}, modifies=["self._sub_stmt", "self._for_id"], raises={SV: "True", "ValueError": "True"},
         ensures=["not isinstance(obj, LabelCompileHandler)", f"isinstance(obj, ({WS[1:-1]}, {IL}))", f"implies(isinstance(obj, {WS}), same(self._sub_stmt, obj) and old(self._sub_stmt) is None and same(self._for_id, old(self._for_id)))",
                  f"implies(isinstance(obj, {IL}), same(self._sub_stmt, old(self._sub_stmt)))"], checks=[f"not isinstance(obj, {IL}) or same(self._for_id, returned('collect'))"])

# ---- routines: their kind and target, and everything their statements give, in order
FD = H + "functions."
ID0 = "self.ctx.INTEGER()"
contract(A + "AbstractFuncdefCompileHandler.collect_ops", "C01 C03 C08 C10", self_exact=False, result="list[SsbOperation]", requires=SREQ, modifies=SMOD, raises=SRAISE, ensures=[*COUNTS, *STACKS, *GROWS, *opok("result"), "fresh(result)"],
         loops={0: L(inv=[*COUNTS, *STACKS, *GROWS, *opok("ops")], types={"ops": "list[SsbOperation]"}, assume=[f"same(done[-1].compiler_ctx, {CX})"], step=["items(ops) == before(items(ops)) + items(returned('collect'))"])})
RI = ["fresh({i})", "exactly({i}, SsbRoutineInfo)"]
def fdef(path, i, o, ens, **k):
    contract(FD + path + ".collect", "C01 C03 C10", requires=SREQ, modifies=SMOD, raises=SRAISE, ensures=[*[x.format(i=i) for x in RI], *COUNTS, *STACKS, *GROWS, *opok(o), *[e.replace("INFO", i) for e in ens]], checks=[f"same({o}, returned('collect_ops'))"], **k)
fdef("simple_def:SimpleDefCompileHandler", "result[0]", "result[1]", ["INFO.type == SsbRoutineType.GENERIC", "INFO.linked_to == 0"], result="tuple[SsbRoutineInfo, list[SsbOperation]]")
fdef("coro_def:CoroDefCompileHandler", "result[1]", "result[2]", ["INFO.type == SsbRoutineType.COROUTINE", "INFO.linked_to == 0", "result[0] == str(self.ctx.IDENTIFIER())"], result="tuple[str, SsbRoutineInfo, list[SsbOperation]]")
TGT = "(str(self.ctx.for_target_def_target().FOR_TARGET()) == 'for_{t}' or str(self.ctx.for_target_def_target().IDENTIFIER()) == '{t}')"
TA, TO, TP = (TGT.format(t=t) for t in ("actor", "object", "performer"))
LT = "self._linked_to_target"
fdef("for_target_def:ForTargetDefCompileHandler", "result[0]", "result[1]", [f"{TA} or {TO} or {TP}", f"implies({TA}, INFO.type == SsbRoutineType.ACTOR)", f"implies(not {TA} and {TO}, INFO.type == SsbRoutineType.OBJECT)", f"implies(not {TA} and not {TO}, INFO.type == SsbRoutineType.PERFORMER)",
     f"implies(isinstance({LT}, int), INFO.linked_to == {LT} and INFO.linked_to_name is None)", f"implies(isinstance({LT}, SsbOpParamConstant), (INFO.linked_to == -1 and INFO.linked_to_name == {LT}.name))"], result="tuple[SsbRoutineInfo, list[SsbOperation]]")
contract(FD + "macro_def:MacroDefCompileHandler.collect", "C01 C03 C05", result="list[SsbOperation]", requires=SREQ, modifies=SMOD, raises=SRAISE, ensures=[*COUNTS, *STACKS, *GROWS, *opok("result")], checks=["same(result, returned('collect_ops'))"])
contract(FD + "macro_def:MacroDefCompileHandler.get_new_routine_id", "C01", ensures=["result == -1"])
contract(FD + "macro_def:MacroDefCompileHandler.get_name", "C05", ensures=["result == str(self.ctx.IDENTIFIER())"])
contract(FD + "coro_def:CoroDefCompileHandler.get_new_routine_id", "C01", ensures=["result == old_id + 1"])
for c in ("simple_def:SimpleDef", "for_target_def:ForTargetDef"):
    contract(FD + c + "CompileHandler.get_new_routine_id", "C01 C10", raises={"ValueError": "True"}, ensures=[f"result == exps_int(str({ID0}))"])

RV = CV + "routine_visitor:RoutineVisitor."
prog.FIELD_TYPES.update({("RoutineVisitor", "routine_infos"): "list[SsbRoutineInfo | None]", ("RoutineVisitor", "routine_ops"): "list[list[SsbOperation]]", ("RoutineVisitor", "named_coroutines"): "list[str | list[SsbOperation]]", ("RoutineVisitor", "routine_end_ops"): "dict[int, SsbOperation]"})
TABS = ["len(self.routine_infos) == len(self.routine_ops)", "len(self.routine_ops) == len(self.named_coroutines)"]
contract(RV + "_enlarge_routine_info", "C03 C10", requires=[*TABS, "not same(self.routine_ops, self.named_coroutines)", "not same(self.routine_infos, self.named_coroutines)", "not same(self.routine_infos, self.routine_ops)"], modifies=["items(self.routine_infos)", "items(self.routine_ops)", "items(self.named_coroutines)"],
         raises={SV: "self._active_routine_id != len(self.routine_infos)"},
         ensures=[*TABS, "len(self.routine_infos) == old(len(self.routine_infos)) + 1", "self._active_routine_id == old(len(self.routine_infos))", "items(self.routine_infos)[:-1] == old(items(self.routine_infos))", "items(self.routine_ops)[:-1] == old(items(self.routine_ops))", "items(self.named_coroutines)[:-1] == old(items(self.named_coroutines))"])
AO = "self.routine_ops[self._active_routine_id]"
NEED = f"(ctx.func_suite().func_alias() is None and (len({AO}) == 0 or isinstance({AO}[-1], SsbLabel)))"
contract(RV + "_reserve_end_op", "C01 C03 C08", params={"ctx": "opaque"}, requires=["0 <= self._active_routine_id < len(self.routine_ops)", "self._active_routine_id not in self.routine_end_ops", "same(self.source_map_builder, self.compiler_ctx.source_map_builder)"], modifies=[f"{OC}.count", f"dict({SM}._mappings)", "dict(self.routine_end_ops)"],
         ensures=[f"iff({NEED}, self._active_routine_id in self.routine_end_ops)", f"implies({NEED}, {OC}.count == old({OC}.count) + 1 and self.routine_end_ops[self._active_routine_id].offset == {OC}.count and self.routine_end_ops[self._active_routine_id].op_code.name == 'Return' and {OC}.count in {SM}._mappings)",
                  f"implies(not {NEED}, {OC}.count == old({OC}.count))", f"old(domain({SM}._mappings)) <= domain({SM}._mappings)"])
