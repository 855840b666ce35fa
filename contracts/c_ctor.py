"""Constructors: every object starts with its own empty state (C11, C12: nothing is shared between two of them or with the class) and
with what it was given.

One line per class: module:class, properties, what the parent constructor sets (by group), then attribute=value. A value is a
parameter, a literal, [] or {} (a new empty list or dict).
"""
from pyvc.core import contract

CH = "explorerscript.ssb_converting.compiler.compile_handlers."
WH = "explorerscript.ssb_converting.decompiler.write_handlers."
SO = "explorerscript.ssb_converting.ssb_special_ops:"
DT = "explorerscript.ssb_converting.ssb_data_types:"
HANDLER = {"ctx": "ctx", "compiler_ctx": "compiler_ctx", "_added_handlers": "[]"}
COMPLEX = {**HANDLER, "_header_jump_blueprints": "[]", "processed_header_jumps": "[]", "start_label": "None", "end_label": "None"}
WRITER = {"start_vertex": "start_vertex", "decompiler": "decompiler", "parent": "parent", "ended_on_jump": "False"}


def state(attrs):
    out = []
    for a, v in attrs.items():
        if v == "[]":
            out += [f"fresh(self.{a})", f"items(self.{a}) == []"]
        elif v == "{}":
            out += [f"fresh(self.{a})", f"len(self.{a}) == 0", f"domain(self.{a}) == set()"]
        elif v == "None":
            out.append(f"self.{a} is None")
        elif v.isidentifier() and v not in ("True", "False"):
            out.append(f"same(self.{a}, {v})")
        else:
            out.append(f"self.{a} == {v}")
    return out


def ctor(target, props, base, more, **kw):
    attrs = {**base, **dict(x.split("=", 1) for x in more.split())}
    contract(target + ".__init__", props, modifies=[f"self.{a}" for a in attrs], ensures=state(attrs), apply=False, **kw)


for line in """
assignments.assignment_adventure_log:AssignmentAdventureLog value=None
assignments.assignment_clear:AssignmentClear var_target=None
assignments.assignment_dungeon_mode:AssignmentDungeonMode var_target=None value=None
assignments.assignment_initial:AssignmentInitial var_target=None
assignments.assignment_regular:AssignmentRegular var_target=None operator=None value=None value_is_a_variable=False
assignments.assignment_reset:AssignmentReset scn_var_target=None
assignments.assignment_scenario:AssignmentScenario var_target=None
atoms.lang_string:LangString language_dict={}
atoms.position_marker:PositionMarker x=None y=None
atoms.scn_var:ScnVar var_target=None
atoms.string:String lang_string_handler=None
atoms.value_of:ValueOf var_target=None
blocks.ctxs.ctx_block:CtxBlock _for_id=None _sub_stmt=None
blocks.ifs.header.bit:IfHeaderBit var_target=None
blocks.ifs.header.negatable:IfHeaderNegatable var_target=None operator=None value=None value_is_a_variable=False
blocks.ifs.header.operator:IfHeaderOperator var_target=None operator=None value=None value_is_a_variable=False
blocks.ifs.header.scn:IfHeaderScn scn_var_target=None operator=None
blocks.ifs.if_header:IfHeader _header_cmplx_handler=None _is_positive=True
blocks.switches.case_header:CaseHeader _header_cmplx_handler=None
blocks.switches.case_headers.menu:CaseHeaderMenu value=None is_menu_2=is_menu_2
blocks.switches.case_headers.op:CaseHeaderOp operator=None value=None value_is_a_variable=False
blocks.switches.message_switch:MessageSwitch _switch_header_handler=None _case_handlers=[] _default_handler=None
blocks.switches.switch_block:SwitchBlock _switch_header_handler=None _case_handlers=[] _default_handler_index=-1 _default_handler=None
blocks.switches.switch_header:SwitchHeader _header_cmplx_handler=None
blocks.switches.switch_headers.dungeon_mode:SwitchHeaderDungeonMode value=None
blocks.switches.switch_headers.random:SwitchHeaderRandom value=None
blocks.switches.switch_headers.scn:SwitchHeaderScn scn_var_target=None
functions.for_target_def:ForTargetDef _linked_to_target=None
operations.arg:Arg arg_handler=None
operations.macro_call:MacroCall arg_list_handler=None
operations.operation:Operation _for_id=None arg_list_handler=None
abstract:Abstract
""".strip().splitlines():
    name, _, more = line.partition(" ")
    ctor(CH + name + "CompileHandler", "C11 C12", HANDLER, more)
for line in """
abstract:AbstractComplexBlock
blocks.ifs.if_block:IfBlock _if_header_handlers=[] _else_if_handlers=[] _else_handler=None
blocks.ifs.elseif_block:ElseIfBlock _if_header_handlers=[]
blocks.switches.case_block:CaseBlock _case_header_handler=None _added_string_handler=None is_message_case=False _end_label=None
blocks.switches.default_case_block:DefaultCaseBlock _added_string_handler=None is_message_case=False _end_label=None
""".strip().splitlines():
    name, _, more = line.partition(" ")
    ctor(CH + name + "CompileHandler", "C11 C12", COMPLEX, more)
# loops: labels of their own, with new numbers
LC = "self.compiler_ctx.counter_labels"
for name, labels in (("abstract:AbstractComplexLoopBlock", ("_start_label", "_end_label")), ("blocks.loop.while_block:WhileBlock", ("_start_label", "_end_label")),
                     ("blocks.loop.for_block:ForBlock", ("_start_label", "_end_label", "_block_label", "_new_run_label", "_initial_label"))):
    rest = {} if "abstract" in name else {"_branch_blueprint": "None"} if "While" in name else {"_branch_blueprint": "None", "_init_statement_handler": "None", "_end_statement_handler": "None"}
    contract(CH + name + "CompileHandler.__init__", "C01 C11 C12", apply=False, modifies=["self." + a for a in (*COMPLEX, *rest, *labels)] + ["compiler_ctx.counter_labels.count"],
             ensures=[*state({**COMPLEX, **rest}), f"{LC}.count == old(compiler_ctx.counter_labels.count) + {len(labels)}",
                      *[f"fresh(self.{a}) and exactly(self.{a}, SsbLabel) and self.{a}.id == old(compiler_ctx.counter_labels.count) + {i + 1}" for i, a in enumerate(labels)]])
for line in """
label_jumps.call:Call
label_jumps.forever_break:ForeverBreak
label_jumps.forever_continue:ForeverContinue
label_jumps.if_start:If ended_on_jump=True vertices_after=[]
label_jumps.jump:Jump
label_jumps.switch_start:Switch ended_on_jump=True
labels.forever_start:Forever m=None ended_on_jump=True _vertex_after_forever=None
simple_op:SimpleOperation
simple_ops.ctx:CtxSimpleOp
simple_ops.flag:FlagSimpleOp
simple_ops.keyword:KeywordSimpleOp
simple_ops.message_switches:MesageSwitchSimpleOp op_name=None have_written_default=False
simple_ops.message_switches_cases:MesageSwitchCasesSimpleOp
simple_ops.simple:SimpleSimpleOp
block:Block _next_vertex=start_vertex check_end_block=check_end_block last_handler_in_block=None _disallow_nested=disallow_nested vertex_that_started_block=vertex_that_started_block last_vertex=None
foreign_label:ForeignLabel vertex_that_started_block=vertex_that_started_block is_first_vertex_of_block=is_first_vertex_of_block
""".strip().splitlines():
    name, _, more = line.partition(" ")
    ctor(WH + name + "WriteHandler", "C11 C12", WRITER, more, any_exc="assert" not in name and name.split(":")[1] not in ("Once",))
for line in """
IfStart if_id=if_id is_not=False
MultiIfStart if_id=if_id is_not=False original_ssb_ifs_ops=start_ifs
SwitchStart switch_id=switch_id
ForeverContinue loop_id=loop_id
ForeverBreak loop_id=loop_id
ForeverStart loop_id=loop_id
ForeverEnd loop_id=loop_id
IfEnd if_id=if_id
SwitchEnd switch_id=switch_id
SwitchCaseOperation switch_index=switch_index index=index op=op
""".strip().splitlines():
    name, _, more = line.partition(" ")
    ctor(SO + name, "C02 C11 C12", {}, more)
for line in """
SsbNamedId id=id name=name
SsbOpParamConstant name=name
SsbOpParamConstString name=name indent=0
SsbOpParamLanguageString strings=strings indent=0
SsbOperation offset=offset op_code=op_code params=params
DungeonModeConstants open_constant=open_constant request_constant=request_constant close_constant=close_constant open_and_request_constant=open_and_request_constant
""".strip().splitlines():
    name, _, more = line.partition(" ")
    ctor(DT + name, "C04 C11 C12", {}, more)
OPSTATE = {"markers": "[]"}
contract(SO + "SsbLabel.__init__", "C01 C02 C11 C12", apply=False, modifies=[f"self.{a}" for a in ("offset", "op_code", "params", "id", "routine_id", "referenced_from_other_routine", "markers", "debugging_note", "original_name", "force_write")],
         ensures=["self.offset == -1", "fresh(self.params)", *state({"markers": "[]", "id": "id", "routine_id": "routine_id", "referenced_from_other_routine": "False", "debugging_note": "debugging_note", "original_name": "original_name", "force_write": "False"})])
contract(SO + "SsbForeignLabel.__init__", "C02 C11 C12", apply=False, modifies=["self.offset", "self.op_code", "self.params", "self.label"], ensures=["self.offset == -1", "fresh(self.params)", "same(self.label, label)"])
contract(SO + "SsbLabelJump.__init__", "C01 C02 C11 C12", apply=False, modifies=[f"self.{a}" for a in ("offset", "op_code", "params", "_root", "label", "markers", "added_for_loop")],
         requires=["not isinstance(root, SsbLabelJump) or (root._root is not None and not isinstance(root._root, SsbLabelJump))"],
         ensures=["self.offset == self._root.offset", "same(self._root, root._root if isinstance(root, SsbLabelJump) else root)", "fresh(self.params)", *state({"label": "label", "markers": "[]", "added_for_loop": "False"})])
M = "explorerscript.macro:"
ctor(M + "ExplorerScriptMacro", "C05 C11", {}, "name=name variables=variables blueprints=blueprints included__absolute_path=None source_map=source_map included__relative_path=None")
contract(M + "MacroStartSsbLabel.__init__", "C05 C08", apply=False, modifies=[f"self.{a}" for a in ("offset", "op_code", "params", "id", "routine_id", "referenced_from_other_routine", "markers", "debugging_note", "original_name", "force_write", "length_of_macro", "parameter_mapping")],
         ensures=["self.offset == -1", *state({"markers": "[]", "id": "id", "length_of_macro": "length_of_macro", "parameter_mapping": "parameter_mapping", "original_name": "None"})])
ctor("explorerscript.source_map:SourceMapPositionMark", "C14 C18", {}, " ".join(f"{x}={x}" for x in ("line_number", "column_number", "end_line_number", "end_column_number", "name", "x_offset", "y_offset", "x_relative", "y_relative")))
SC = "explorerscript.ssb_converting.ssb_compiler:ExplorerScriptSsbCompiler"
contract(SC + ".__init__", "C10 C11 C12", apply=False, modifies=[f"self.{a}" for a in ("routine_infos", "routine_ops", "named_coroutines", "source_map", "imports", "macros", "macro_resolution_order", "performance_progress_list_var_name", "lookup_paths", "recursion_check")],
         ensures=[*state({"routine_infos": "None", "routine_ops": "None", "named_coroutines": "None", "source_map": "None", "imports": "[]", "macros": "{}", "macro_resolution_order": "[]"}),
                  "self.performance_progress_list_var_name == performance_progress_list_var_name", *[f"implies({a} is not None, same(self.{a}, {a})) and implies({a} is None, fresh(self.{a}) and items(self.{a}) == [])" for a in ("lookup_paths", "recursion_check")]])
CV = "explorerscript.ssb_converting.compiler.compiler_visitor."
NEWCTX = ["fresh(self.compiler_ctx)", *[f"fresh(self.compiler_ctx.{a})" for a in ("counter_ops", "counter_labels", "source_map_builder", "collected_labels", "_loops", "_switch_cases")],
          "self.compiler_ctx.counter_ops.count == 0", "self.compiler_ctx.counter_labels.count == 0", "not same(self.compiler_ctx.counter_ops, self.compiler_ctx.counter_labels)", "len(self.compiler_ctx.collected_labels) == 0",
          "items(self.compiler_ctx._loops) == []", "items(self.compiler_ctx._switch_cases) == []"]
contract(CV + "routine_visitor:RoutineVisitor.__init__", "C01 C03 C11 C12", apply=False, modifies=[f"self.{a}" for a in ("routine_infos", "routine_ops", "named_coroutines", "routine_end_ops", "source_map_builder", "compiler_ctx", "_active_routine_id", "_root_handler")],
         ensures=[*state({"routine_infos": "[]", "routine_ops": "[]", "named_coroutines": "[]", "routine_end_ops": "{}", "_root_handler": "None", "_active_routine_id": "-1"}), *NEWCTX, "same(self.compiler_ctx.source_map_builder, self.source_map_builder)",
                  "same(self.compiler_ctx.macros, macros)", "self.compiler_ctx.performance_progress_list_var_name == performance_progress_list_var_name"])
contract(CV + "macro_visitor:MacroVisitor.__init__", "C05 C11 C12", apply=False, modifies=[f"self.{a}" for a in ("source_map_builder", "compiler_ctx", "macro_resolution_order", "_root_handler")],
         ensures=[*NEWCTX, "same(self.compiler_ctx.source_map_builder, self.source_map_builder)", "self._root_handler is None", "same(self.macro_resolution_order, macro_resolution_order)", "fresh(self.compiler_ctx.macros)",
                  "self.compiler_ctx.performance_progress_list_var_name == performance_progress_list_var_name", "table(self.compiler_ctx.macros) == table(macros)"])
contract(CV + "position_mark_visitor:PositionMarkVisitor.__init__", "C18 C11", apply=False, modifies=["self.compiler_ctx"], ensures=NEWCTX)
SL = "explorerscript.ssb_script.ssb_converting."
LISTENER = {"routine_infos": "[]", "routine_ops": "[]", "named_coroutines": "[]", "label_offsets": "{}", "_is_processing_argument": "False", "_argument_type": "ListenerArgType.INVALID",
     "_argument_value": "-1", "_last_op_line": "-1", "_op_idx_in_current_line": "0", "_collected_lang_string": "{}", "_collected_pos_marker": "None", "_collected_labels": "{}", "_label_increment_id": "-1", "_turn_next_op_into_label_jump_for": "None",
     "_labels_before_op": "[]", "_total_number_collected_ops": "-1", "_collected_ops": "[]", "_active_routine_id": "-1", "_collected_params": "[]"}
contract(SL + "compiler.compiler_listener:SsbScriptCompilerListener.__init__", "C07 C11 C12", apply=False, modifies=[f"self.{a}" for a in (*LISTENER, "source_map_builder")],
         ensures=[*state(LISTENER), "fresh(self.source_map_builder)", "len(self.source_map_builder._mappings) == 0", "items(self.source_map_builder._pos_marks) == []"])
ctor(SL + "ssb_compiler:SsbScriptSsbCompiler", "C07 C11", {}, "routine_infos=None routine_ops=None named_coroutines=None source_map=None")
