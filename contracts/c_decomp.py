"""Writing the text of a decompiled script and where its statements are (C09), the statements that are written (C02)."""
from pyvc import core, prog
from pyvc.core import L, contract, light

D = "explorerscript.ssb_converting.ssb_decompiler:ExplorerScriptSsbDecompiler."
W = "explorerscript.ssb_converting.decompiler.write_handlers."
S = "explorerscript.ssb_script.ssb_converting.ssb_decompiler:SsbScriptSsbDecompiler."
core.OPQ_ATTR["[op]"] = "SsbOperation"
core.OPQ_ATTR["[is_else]"] = "bool"
core.OPQ_ATTR["[switch_ops]"] = "list[SwitchCaseOperation] | None"
core.OPQ_CALL = ["*.have_written_default", "*.called"]
prog.FIELD_TYPES[("BlockWriteHandler", "check_end_block")] = "opaque | None"
# the line counter is the number of the line (from 1) that the end of the output is in
def inv(x):
    return f"{x}._line_number == 1 + {x}._output.count('\\n')"
NEWLINE = "'\\n' + ' ' * ({0}.indent * 4)"

contract(D + "write_line", "C02 C09", modifies=["self._output", "self._line_number"],
         requires=["self.indent >= 0"],
         ensures=["self._output == old(self._output) + '\\n' + ' ' * (self.indent * 4)", "self._line_number == old(self._line_number) + 1",
                  f"implies(old({inv('self')}), {inv('self')})"])
contract(D + "write_stmnt", "C02 C09", modifies=["self._output", "self._line_number", "self._unwritten_jump"],
         requires=["self.indent >= 0"],
         ensures=["self._output == old(self._output) + ('\\n' + ' ' * (self.indent * 4) if line else '') + stmnt",
                  "self._line_number == old(self._line_number) + (1 if line else 0) + stmnt.count('\\n')",
                  f"implies(old({inv('self')}), {inv('self')})",
                  "self._unwritten_jump is None"])
JUMPED = "implies(old(self._unwritten_jump) is not None, old(self._unwritten_jump) in self.smb._mappings and self.smb._mappings[old(self._unwritten_jump)].line == old(self._line_number) and self.smb._mappings[old(self._unwritten_jump)].column == self.indent * 4)"
TEXT = ["self._output", "self._line_number", "self._unwritten_jump"]


def written(text):
    return [f"self._output == old(self._output) + '\\n' + ' ' * (self.indent * 4) + {text}", f"self._line_number == old(self._line_number) + 1 + ({text}).count('\\n')",
            f"implies(old({inv('self')}), {inv('self')})", "self._unwritten_jump is None"]


contract(D + "write_jump_stmnt", "C02 C09", modifies=[*TEXT, "dict(self.smb._mappings)"], requires=["self.indent >= 0", "self.smb is not None"],
         ensures=[*written("stmnt"), JUMPED,
                  "implies(old(self._unwritten_jump) is not None, without(mapping(self.smb._mappings), old(self._unwritten_jump)) == old(without(mapping(self.smb._mappings), self._unwritten_jump)))",
                  "implies(old(self._unwritten_jump) is None, mapping(self.smb._mappings) == old(mapping(self.smb._mappings)))"])
for _k in ("return", "end", "hold"):
    contract(D + f"write_{_k}", "C02 C09", modifies=TEXT, requires=["self.indent >= 0"], ensures=written(f"'{_k};'"))
contract(D + "source_map_add_jump", "C01 C09", modifies=["self._unwritten_jump"], ensures=["self._unwritten_jump == op_offset"])
contract(D + "source_map_add_opcode", "C09", modifies=["dict(self.smb._mappings)"], requires=["self.smb is not None"],
         ensures=["op_offset in self.smb._mappings", "fresh(self.smb._mappings[op_offset])",
                  "self.smb._mappings[op_offset].line == self._line_number - (1 if continued_line is not None else 0)",
                  "self.smb._mappings[op_offset].column == self.indent * 4 + (len(continued_line) if continued_line is not None else 0)",
                  "without(mapping(self.smb._mappings), op_offset) == old(without(mapping(self.smb._mappings), op_offset))"])
contract(D + "source_map_add_position_mark", "C09 C18", modifies=["items(self.smb._pos_marks)"], requires=["self.smb is not None"],
         ensures=["len(self.smb._pos_marks) == old(len(self.smb._pos_marks)) + 1", "items(self.smb._pos_marks)[:-1] == old(items(self.smb._pos_marks))",
                  *[f"self.smb._pos_marks[-1].{a} == {b}" for a, b in [("line_number", "self._line_number"), ("column_number", "self.indent * 4"), ("end_line_number", "self._line_number"),
                    ("end_column_number", "self.indent * 4 + length"), *[(x, "param." + x) for x in ("name", "x_offset", "y_offset", "x_relative", "y_relative")]]]])
WR = "(not (isinstance(previous_op, SsbLabelJump) and isinstance(previous_op.get_marker(), (ForeverContinue, ForeverBreak))))"
# a jump to a label is written, except where it is the continue or the break_loop of a loop
contract(D + "write_label_jump", "C02 C09", params={"previous_op": "SsbOperation | None"}, requires=["self.indent >= 0", "self.smb is not None"],
         modifies=[*TEXT, "dict(self.smb._mappings)", "items(self.labels_used)"],
         ensures=["items(self.labels_used) == old(items(self.labels_used)) + [label_id]",
                  *[f"implies({WR}, {x})" for x in ("self._output == old(self._output) + '\\n' + ' ' * (self.indent * 4) + 'jump @label_' + str(label_id) + ';'", "self._unwritten_jump is None", JUMPED)],
                  f"implies(not {WR}, self._output == old(self._output) and mapping(self.smb._mappings) == old(mapping(self.smb._mappings)))",
                  f"implies(old({inv('self')}), {inv('self')})"])

# ---------------------------------------------------------------- write handlers: one operation
DS = "self.decompiler"
READY = [f"{DS}.indent >= 0", f"{DS}.smb is not None"]
DTEXT = [f"{DS}._output", f"{DS}._line_number", f"{DS}._unwritten_jump"]
DMAP = f"dict({DS}.smb._mappings)"


def stmnt(text, *, cond=None, op="self.start_vertex['op']"):
    """The statement stands in its own line and the source map says where the operation is."""
    e = [f"{DS}._output == old({DS}._output) + '\\n' + ' ' * ({DS}.indent * 4) + {text}", f"{DS}._unwritten_jump is None"]
    return [f"implies({cond}, {x})" if cond else x for x in e]


def at_op(cond=None, op="self.start_vertex['op']"):
    e = [f"{op}.offset in {DS}.smb._mappings", f"{DS}.smb._mappings[{op}.offset].line == old({DS}._line_number)", f"{DS}.smb._mappings[{op}.offset].column == {DS}.indent * 4",
         f"without(mapping({DS}.smb._mappings), {op}.offset) == old(without(mapping({DS}.smb._mappings), {op}.offset))"]
    return [f"implies({cond}, {x})" if cond else x for x in e]


KEEPS = f"implies(old({inv(DS)}), {inv(DS)})"
EX = "self.start_vertex.out_edges()"
NEXT = [f"implies(len({EX}) == 1, same(result, {EX}[0].target_vertex))", f"implies(len({EX}) == 0, result is None)"]
OP = "self.start_vertex['op']"
# Every handler leaves the line counter right, the indentation as it was and only appends to the text; loops are properly nested.
INTENS = [inv(DS), f"{DS}.indent == old({DS}.indent)", f"{DS}._output.startswith(old({DS}._output))", f"items({DS}.forever_start_handler_stack) == old(items({DS}.forever_start_handler_stack))"]
EXC = INTENS[:3]
INTREQ = [*READY, inv(DS)]
INTMOD = [*DTEXT, f"{DS}.indent", DMAP, "items(*:int)", "items(*:ForeverWriteHandler)", "items(*:opaque)", "items(*:SourceMapPositionMark)",
          *[f"*.{x}" for x in ("_vertex_after_forever", "force_write", "have_written_default", "called", "_next_vertex", "last_handler_in_block", "last_vertex", "ended_on_jump", "op_name", "m", "indent")]]
NEVER = ["FallbackToJump"]
contract(W + "abstract:AbstractWriteHandler.__init__", "C02 C09", modifies=["self.start_vertex", "self.decompiler", "self.parent", "self.ended_on_jump"],
         ensures=["same(self.start_vertex, start_vertex)", "same(self.decompiler, decompiler)", "same(self.parent, parent)", "self.ended_on_jump == False"])
contract(W + "simple_ops.keyword:KeywordSimpleOpWriteHandler.write_content", "C02 C09", result="opaque | None", requires=INTREQ, exc=EXC, modifies=[*DTEXT, DMAP],
         raises={"ValueError": f"len({OP}.params) > 0 or {OP}.op_code.name not in ('Return', 'End', 'Hold') or len({EX}) > 1"},
         ensures=[*stmnt(f"('return;' if {OP}.op_code.name == 'Return' else 'end;' if {OP}.op_code.name == 'End' else 'hold;')"), *at_op(), *INTENS, *NEXT])


def fstr(s, op=OP):
    """The text with {i} standing for the i-th parameter as an expression."""
    out = []
    for k, part in enumerate(s.replace("{", "}").split("}")):
        if k % 2 == 0:
            if part:
                out.append(repr(part))
        else:
            out.append(f"str({op}.params[{part}])" if part.isdigit() else f"str({part})")
    return "(" + " + ".join(out) + ")"


PPL = f"{DS}.performance_progress_list_var_name"
CALC = f"SsbCalcOperator({OP}.params[1]).notation"
FLAGS = [
    ("flag_CalcBit", "{0}[{1}] = {2};"), ("flag_CalcValue", "{0} {" + CALC + "} {2};"), ("flag_CalcVariable", "{0} {" + CALC + "} value({2});"),
    ("flag_Clear", "clear {0};"), ("flag_Initial", "init {0};"), ("flag_Set", "{0} = {1};"), ("flag_ResetDungeonResult", "reset dungeon_result;"),
    ("flag_ResetScenario", "reset scn({0});"), ("flag_SetAdventureLog", "adventure_log = {0};"), ("flag_SetPerformance", "{" + PPL + "}[{0}] = {1};"),
    ("flag_SetScenario", "{0} = scn[{1}, {2}];"),
]
PLAIN = (f"(not all(is_integer_like(x) for x in {OP}.params) or ({OP}.op_code.name == 'flag_CalcBit' and str({OP}.params[0]) == {PPL})"
         f" or ({OP}.op_code.name == 'flag_CalcValue' and {OP}.params[1] == SsbCalcOperator.ASSIGN.value))")
contract(W + "simple_ops.flag:FlagSimpleOpWriteHandler.write_content", "C02 C09", result="opaque | None", requires=INTREQ, modifies=[*DTEXT, DMAP], any_exc=True, exc=EXC, never=NEVER,
         ensures=[*stmnt(f"{OP}.op_code.name + '(' + ', '.join([str(x) for x in {OP}.params]) + ');'", cond=PLAIN),
                  *[x for n, t in FLAGS for x in stmnt(fstr(t), cond=f"{OP}.op_code.name == {n!r} and not {PLAIN}")[:1]],
                  f"{DS}._unwritten_jump is None", *at_op(), *INTENS, *NEXT])
core.OPQ_METH["out_edges"] = core.OPQ_METH["in_edges"] = "list[opaque]"
contract(W + "label_jumps.jump:JumpWriteHandler.write_content", "C01 C02 C09", result="opaque | None", modifies=[f"{DS}._unwritten_jump"], requires=INTREQ, any_exc=True, exc=EXC, never=NEVER,
         ensures=[*INTENS, f"{DS}._unwritten_jump == (old({DS}._unwritten_jump) if {OP}.added_for_loop else {OP}.offset)", f"same(result, {EX}[0].target_vertex)", f"len({EX}) == 1"])
contract(W + "label_jumps.call:CallWriteHandler.write_content", "C02 C09", result="opaque | None", requires=INTREQ, modifies=[*DTEXT, DMAP, f"items({DS}.labels_used)"], any_exc=True, exc=EXC, never=NEVER,
         ensures=[*stmnt(f"'call @label_' + str({OP}.label.id) + ';'"), *at_op(), *INTENS, f"items({DS}.labels_used) == old(items({DS}.labels_used)) + [{OP}.label.id]",
                  f"implies(len({EX}) == 1, same(result, {EX}[0].target_vertex))"])
contract(W + "label:LabelWriteHandler._write_label", "C02 C09", requires=READY, modifies=[*DTEXT, f"items({DS}.labels_already_printed)"],
         ensures=[*stmnt("'@label_' + str(label.id) + ';'"), KEEPS, f"items({DS}.labels_already_printed) == old(items({DS}.labels_already_printed)) + [label.id]"])

# ---------------------------------------------------------------- write handlers in general
contract(W + "abstract:AbstractWriteHandler.write_content", "", interface=True, result="opaque | None", requires=INTREQ, modifies=INTMOD, ensures=INTENS, exc=EXC, never=NEVER, any_exc=True,
         trusted="interface: verified for every write handler", self_exact=False)
contract(W + "block:BlockWriteHandler.write_content", "C02 C09", result="opaque | None", requires=INTREQ, modifies=INTMOD, ensures=INTENS, exc=EXC, never=NEVER, any_exc=True,
         loops={0: L(inv=[inv(DS), f"{DS}.indent == old({DS}.indent)", f"{DS}._output.startswith(old({DS}._output))", f"items({DS}.forever_start_handler_stack) == old(items({DS}.forever_start_handler_stack))"])})
contract(W + "routine:RoutineWriteHandler._write_routine_header", "C02 C09", requires=INTREQ, modifies=DTEXT, any_exc=True, exc=EXC, never=NEVER, ensures=INTENS)
contract(W + "routine:RoutineWriteHandler.write_content", "C02 C09", result="None", requires=INTREQ, modifies=INTMOD, ensures=INTENS, exc=EXC, never=NEVER, any_exc=True)

contract("explorerscript.ssb_converting.decompiler.write_handler_manager:WriteHandlerManager.get_for", "C02 C09", params={"v": "opaque", "vertex_that_started_block": "opaque | None"}, any_exc=True, never=NEVER,
         ensures=["fresh(result)", "same(result.decompiler, decompiler)", "same(result.start_vertex, v)", "same(result.parent, parent)", "implies(not isinstance(v['op'], SsbLabelJump), result.ended_on_jump == False)",
                  "implies(isinstance(v['op'], SsbLabel), exactly(result, LabelWriteHandler))", "implies(isinstance(v['op'], SsbForeignLabel), exactly(result, ForeignLabelWriteHandler))",
                  "implies(isinstance(v['op'], SsbLabelJump), exactly(result, LabelJumpWriteHandler))",
                  "implies(not isinstance(v['op'], (SsbLabel, SsbForeignLabel, SsbLabelJump)), exactly(result, SimpleOperationWriteHandler))"])

def handler(path, *ens, props="C02 C09", req=(), **k):
    """A handler that meets the interface and more."""
    k.setdefault("result", "opaque | None")
    k.setdefault("exc", EXC)
    k.setdefault("never", NEVER)
    contract(W + path + ".write_content", props, requires=[*INTREQ, *req], modifies=INTMOD, ensures=[*INTENS, *ens], any_exc=True, **k)


handler("foreign_label:ForeignLabelWriteHandler", "result is None")
handler("label:LabelWriteHandler")
handler("labels.forever_start:ForeverWriteHandler")
handler("label_jumps.forever_break:ForeverBreakWriteHandler", "result is None", exc=INTENS, never=[])
handler("label_jumps.forever_continue:ForeverContinueWriteHandler", "result is None", exc=INTENS, never=[])
handler("label_jump:LabelJumpWriteHandler")
handler("simple_op:SimpleOperationWriteHandler")
handler("simple_ops.ctx:CtxSimpleOpWriteHandler")
handler("simple_ops.message_switches:MesageSwitchSimpleOpWriteHandler")
handler("simple_ops.message_switches_cases:MesageSwitchCasesSimpleOpWriteHandler")
TOSTR = "the text of a parameter at the current indentation: str(param) in the contracts; that .indent of the parameter is written is left out (no contract depends on it)"
contract(W + "simple_ops.simple:SimpleSimpleOpWriteHandler._single_param_to_string", "", ensures=["result == str(param)"], let={"result_is": "str(param)"}, trusted=TOSTR)
contract(S + "_single_param_to_string", "", ensures=["result == str(param)"], let={"result_is": "str(param)"}, trusted=TOSTR)
MARKS = f"[p for p in {OP}.params if isinstance(p, SsbOpParamPositionMarker)]"
handler("simple_ops.simple:SimpleSimpleOpWriteHandler", *stmnt(f"{OP}.op_code.name + ('<' + inline_ctx + '>' if inline_ctx else '') + '(' + ', '.join([str(x) for x in {OP}.params]) + ');'"), *at_op(), *NEXT,
        f"len({DS}.smb._pos_marks) == old(len({DS}.smb._pos_marks)) + len({MARKS})",
        params={"inline_ctx": "str | None"},
        loops={0: L(inv=[f"len({DS}.smb._pos_marks) == old(len({DS}.smb._pos_marks)) + len([p for p in done if isinstance(p, SsbOpParamPositionMarker)])"])})


# ---------------------------------------------------------------- headers of ifs and switches
def headers(table, default):
    return [f"implies({c}, result == {fstr(t, 'op')})" for c, t in table] + [default]


ALLINT = "all(is_integer_like(x) for x in op.params)"
CALLTEXT = "op.op_code.name + '(' + ', '.join([str(x) for x in op.params]) + ')'"
NOTATION = "SsbOperator(op.params[1]).notation"
PPLN = f"{DS}.performance_progress_list_var_name"
BRANCHES = [
    ("Branch", "True", "{0} == {1}"), ("BranchBit", f"str(op.params[0]) != {PPLN}", "{0}[{1}]"),
    ("BranchDebug", "op.params[0] == 1", "debug"), ("BranchDebug", "op.params[0] == 0", "not debug"), ("BranchEdit", "op.params[0] == 1", "edit"), ("BranchEdit", "op.params[0] == 0", "not edit"),
    ("BranchVariation", "op.params[0] == 1", "variation"), ("BranchVariation", "op.params[0] == 0", "not variation"),
    ("BranchPerformance", "op.params[1] == 1", "{" + PPLN + "}[{0}]"), ("BranchPerformance", "op.params[1] == 0", "not {" + PPLN + "}[{0}]"),
    ("BranchScenarioNow", "True", "scn({0}) == [{1}, {2}]"), ("BranchScenarioNowAfter", "True", "scn({0}) >= [{1}, {2}]"), ("BranchScenarioNowBefore", "True", "scn({0}) <= [{1}, {2}]"),
    ("BranchScenarioAfter", "True", "scn({0}) > [{1}, {2}]"), ("BranchScenarioBefore", "True", "scn({0}) < [{1}, {2}]"),
    ("BranchValue", "op.params[1] != SsbOperator.EQ.value", "{0} {" + NOTATION + "} {2}"), ("BranchVariable", "True", "{0} {" + NOTATION + "} value({2})"),
]
contract(W + "label_jumps.if_start:IfWriteHandler._operation_header_for", "C02", ensures=[f"result == {CALLTEXT}"])
IFH = contract(W + "label_jumps.if_start:IfWriteHandler._if_header_for", "C02", any_exc=True, never=NEVER, ensures=[
    *[f"implies({ALLINT} and op.op_code.name == {n!r} and {c}, result == {fstr(t, 'op')})" for n, c, t in BRANCHES],
    # everything else is written as the operation
    f"implies(not ({ALLINT} and ({' or '.join(f'op.op_code.name == {n!r} and {c}' for n, c, t in BRANCHES)})), op.op_code.name in OPS_BRANCH and result == {CALLTEXT})"])
SWITCHES = [("SwitchDungeonMode", "dungeon_mode({0})"), ("SwitchRandom", "random({0})"), ("SwitchScenario", "scn({0})[0]"), ("SwitchScenarioLevel", "scn({0})[1]"), ("SwitchSector", "sector()"), ("Switch", "{0}")]
contract(W + "label_jumps.switch_start:SwitchWriteHandler._switch_header_for", "C02", any_exc=True, never=NEVER, ensures=[
    *[f"implies(op.op_code.name == {n!r}, {ALLINT} and result == {fstr(t, 'op')})" for n, t in SWITCHES],
    f"implies(op.op_code.name not in {tuple(n for n, _ in SWITCHES)!r}, result == {CALLTEXT})"])
CASES = [("CaseMenu2", "menu2({0})"), ("CaseScenario", "{SsbOperator(op.params[0]).notation} {1}"), ("CaseValue", "{SsbOperator(op.params[0]).notation} {1}"),
         ("CaseVariable", "{SsbOperator(op.params[0]).notation} value({1})")]
contract(W + "label_jumps.switch_start:SwitchWriteHandler._case_header_for", "C02", any_exc=True, never=NEVER, exc=[f"{DS}.indent == old({DS}.indent)"], modifies=["*.indent"], ensures=[
    f"{DS}.indent == old({DS}.indent)",
    "implies(op.op_code.name == 'CaseMenu', isinstance(op.params[0], (SsbOpParamConstString, SsbOpParamLanguageString)) and result == 'menu(' + str(op.params[0]) + ')')",
    *[f"implies(op.op_code.name == {n!r}, {ALLINT} and result == {fstr(t, 'op')})" for n, t in CASES],
    f"implies(op.op_code.name == 'Case' and not is_switch_dungeon_mode, {ALLINT} and result == str(op.params[0]))",
    "implies(op.op_code.name == 'Case' and is_switch_dungeon_mode, result == str(self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[0])))"])

HEAD = "header_str + (' not' if op.get_marker().is_not else '') + ' ( '"
contract(W + "label_jumps.if_start:IfWriteHandler._write_if_header", "C02 C09", params={"v": "opaque"}, result="tuple[opaque, opaque]", use=[light(IFH)], requires=INTREQ, modifies=[*DTEXT, DMAP], any_exc=True, exc=EXC, never=NEVER,
         ensures=[*INTENS, "op.offset in self.decompiler.smb._mappings", f"{DS}._unwritten_jump is None",
                  # in the line of the closing brace of the block before it ("} elseif") or in a line of its own
                  f"self.decompiler.smb._mappings[op.offset].line == old({DS}._line_number) - (0 if include_newline_in_header else 1)",
                  f"self.decompiler.smb._mappings[op.offset].column == {DS}.indent * 4 + (0 if include_newline_in_header else 2)",
                  f"implies(include_newline_in_header, {DS}._output.startswith(old({DS}._output) + '\\n' + ' ' * ({DS}.indent * 4) + {HEAD}))",
                  f"implies(not include_newline_in_header, {DS}._output.startswith(old({DS}._output) + ' ' + {HEAD}))"])
handler("label_jumps.if_start:IfWriteHandler")
contract(W + "label_jumps.if_start:IfWriteHandler._build_else_if_chain", "C02 C09", params={"in_edge": "opaque"}, result="opaque | None", requires=INTREQ, modifies=INTMOD, ensures=INTENS, exc=EXC, never=NEVER, any_exc=True,
         loops={0: L(inv=INTENS)})
contract("explorerscript.ssb_converting.decompiler.graph_building.graph_utils:iterate_switch_edges_using_edges_and_op", "", params={"case_edges": "list[opaque]"},
         result="list[tuple[opaque, list[SwitchCaseOperation], bool]]", any_exc=True, never=NEVER, trusted="what the cases of a switch are is left open; nothing is modified")
core.OPQ_ATTR["vs"] = "list[opaque]"
contract("explorerscript.ssb_converting.decompiler.graph_building.graph_utils:find_switch_end_label", "C02", params={"g": "opaque"}, result="opaque | None", raises={}, never=NEVER, loops={0: L(inv=[])},
         ensures=["implies(result is not None, isinstance(result['op'], SsbLabel) and any(isinstance(m, SwitchEnd) and m.switch_id == switch_id for m in result['op'].markers))"])
INSIDE = [INTENS[0], f"{DS}.indent == old({DS}.indent) + 1", *INTENS[2:]]
CFH = next(c for c in core.ORDER if c.target.endswith("_case_header_for"))
SFH = next(c for c in core.ORDER if c.target.endswith("_switch_header_for"))
handler("label_jumps.switch_start:SwitchWriteHandler", loops={1: L(inv=INSIDE), 2: L(inv=INSIDE)}, use=[light(CFH, 0), light(SFH)])

# ---------------------------------------------------------------- SsbScript
contract(S + "_write_line", "C02 C07 C09", modifies=["self._output", "self._line_number"], requires=["self.indent >= 0"],
         ensures=["self._output == old(self._output) + '\\n' + ' ' * (self.indent * 4)", "self._line_number == old(self._line_number) + 1", f"implies(old({inv('self')}), {inv('self')})"])
contract(S + "write_stmnt", "C02 C07 C09", modifies=["self._output", "self._line_number"], requires=["self.indent >= 0"],
         ensures=["self._output == old(self._output) + ('\\n' + ' ' * (self.indent * 4) if line else '') + stmnt",
                  "self._line_number == old(self._line_number) + (1 if line else 0) + stmnt.count('\\n')", f"implies(old({inv('self')}), {inv('self')})"])
ROOT = "(op.root if isinstance(op, SsbLabelJump) else op)"
STEXT = (f"{ROOT}.op_code.name + '(' + ', '.join([str(x) for x in {ROOT}.params]) + ((', ' if len({ROOT}.params) > 0 else '') + '@label_' + str(op.label.id) if isinstance(op, SsbLabelJump) else '') + ');'")
SB = "self._source_map_builder"
KEEP = [inv("self"), "self.indent == old(self.indent)", "self._output.startswith(old(self._output))"]
contract(S + "_read_op", "C02 C07 C09", requires=["self.indent >= 0", f"{SB} is not None", inv("self")], modifies=["self._output", "self._line_number", f"dict({SB}._mappings)", f"items({SB}._pos_marks)"], any_exc=True,
         ensures=[*KEEP, f"self._output == old(self._output) + '\\n' + ' ' * (self.indent * 4) + {STEXT}",
                  f"op.offset in {SB}._mappings", f"{SB}._mappings[op.offset].line == old(self._line_number)", f"{SB}._mappings[op.offset].column == self.indent * 4",
                  f"without(mapping({SB}._mappings), op.offset) == old(without(mapping({SB}._mappings), op.offset))",
                  f"len({SB}._pos_marks) == old(len({SB}._pos_marks)) + len([p for p in {ROOT}.params if isinstance(p, SsbOpParamPositionMarker)])"],
         loops={0: L(inv=[f"{SB} is not None", f"len({SB}._pos_marks) == old(len({SB}._pos_marks)) + len([p for p in done if isinstance(p, SsbOpParamPositionMarker)])"])})
KIND = "{SsbRoutineType.ACTOR: ' for actor ', SsbRoutineType.OBJECT: ' for object ', SsbRoutineType.PERFORMER: ' for performer '}"
def rhead(info, rid, names):
    out = [f"implies({info}.type == SsbRoutineType.COROUTINE, {rid} in {names} and TEXT == 'coro ' + str({names}[{rid}]))", f"implies({info}.type == SsbRoutineType.GENERIC, TEXT == 'def ' + str({rid}))"]
    return out + [f"implies({info}.type == SsbRoutineType.{k.upper()}, TEXT == 'def ' + str({rid}) + ' for {k} ' + {info}.linked_to_repr)" for k in ("actor", "object", "performer")]


contract(S + "_write_routine_header", "C02 C07 C09", requires=["self.indent >= 0", inv("self")], modifies=["self._output", "self._line_number"], any_exc=True,
         ensures=[*KEEP, *[e.replace("TEXT ==", "self._output == old(self._output) + '\\n' + ' ' * (self.indent * 4) +") for e in rhead("r_info", "r_id", "self._named_coroutines")]])
contract("explorerscript.ssb_converting.decompiler.label_jump_to_resolver:OpsLabelJumpToResolver.__iter__", "C02 C07", result="list[list[SsbOperation]]", raises={}, ensures=["len(result) == len(self.routines)"],
         loops={0: L(types={"yielded": "list[list[SsbOperation]]"}, inv=["len(yielded) == len(done)", "len(done) == 0 or len(yielded[-1]) >= len(done[-1])"], step=["items(yielded)[:-1] == before(items(yielded))", "items(yielded[-1]) == items(returned('_iter_routine'))"])})
contract(S + "convert", "C02 C07 C09", requires=[], modifies=["self._output", "self._line_number", "self.indent", "self._source_map_builder", "self._routine_ops", "*.referenced_from_other_routine", "*.force_write"], any_exc=True, budget=3.0,
         ensures=[inv("self"), "result[0] == self._output", "self._output.startswith(prefix)", "self.indent == 0", f"same(result[1]._mappings, {SB}._mappings)"],
         loops={0: L(inv=[inv("self"), "self.indent == 0", "self._output.startswith(prefix)"]), 1: L(inv=[inv("self"), "self.indent == 1", "self._output.startswith(prefix)"])})
