"""The listener that builds the routines of SsbScript (C07, C06, C04): what each event does with its text."""
from pyvc import prog
from pyvc.core import C, L, contract, light

LI = "explorerscript.ssb_script.ssb_converting.compiler.compiler_listener:SsbScriptCompilerListener."
N = "SsbScriptCompilerListener"
prog.FIELD_TYPES.update({(N, "routine_infos"): "list[SsbRoutineInfo | None]", (N, "routine_ops"): "list[list[SsbOperation]]", (N, "named_coroutines"): "list[str | list[SsbOperation]]", (N, "_collected_lang_string"): "dict[str, str]",
                         (N, "_collected_pos_marker"): "SsbOpParamPositionMarker | None", (N, "_turn_next_op_into_label_jump_for"): "SsbLabel | None", (N, "source_map_builder"): "SourceMapBuilder", (N, "_argument_value"): "int | str | dict[str, str]",
                         (N, "_collected_ops"): "list[SsbOperation]", (N, "_collected_params"): "list[SsbOpParam]", (N, "_labels_before_op"): "list[SsbLabel]", (N, "_collected_labels"): "dict[str, SsbLabel]", (N, "label_offsets"): "dict[int, int]",
                         (N, "_active_routine_id"): "int", (N, "_label_increment_id"): "int", (N, "_total_number_collected_ops"): "int", (N, "_last_op_line"): "int", (N, "_op_idx_in_current_line"): "int", (N, "_is_processing_argument"): "bool", (N, "_argument_type"): "ListenerArgType"})
P = "C06 C07"
TABS = ["len(self.routine_infos) == len(self.routine_ops)", "len(self.routine_ops) == len(self.named_coroutines)"]
LISTS = ("routine_infos", "routine_ops", "named_coroutines", "_collected_ops", "_collected_params", "_labels_before_op")
SEP = [f"not same(self.{a}, self.{b})" for i, a in enumerate(LISTS) for b in LISTS[i + 1:]]
GROW = {"SsbCompilerError": "True"}
TMOD = [f"items(self.{a})" for a in LISTS[:3]]
ROWS = ["len(self.routine_infos) == old(len(self.routine_infos)) + 1", *[f"items(self.{a})[:-1] == old(items(self.{a}))" for a in LISTS[:3]]]
contract(LI + "_enlarge_routine_info", P + " C03 C10", requires=[*TABS, *SEP], modifies=TMOD, raises={"SsbCompilerError": "self._active_routine_id != len(self.routine_infos)"}, ensures=[*TABS, *ROWS, "self._active_routine_id == old(len(self.routine_infos))"])


def definition(name, kind, idx, extra=(), **k):
    contract(LI + name, P + " C03", params={"ctx": "opaque"}, requires=[*TABS, *SEP], modifies=[*TMOD, "self._active_routine_id", "self._collected_ops"], raises={"ValueError": "True", **GROW},
             ensures=[*TABS, *ROWS, f"self._active_routine_id == {idx}", "self._active_routine_id == old(len(self.routine_infos))", "fresh(self.routine_infos[-1])", *([f"self.routine_infos[-1].type == {kind}"] if kind else []),
                      # the ops since the last definition, and an empty list for the next one
                      "same(self.routine_ops[-1], old(self._collected_ops))", "items(self.routine_ops[-1]) == old(items(self._collected_ops))", "fresh(self._collected_ops)", "items(self._collected_ops) == []", *extra], **k)


NUM = "exps_int(str(ctx.INTEGER()))"
definition("exitSimple_def", "SsbRoutineType.GENERIC", NUM, ["self.routine_infos[-1].linked_to == 0"])
definition("exitCoro_def", "SsbRoutineType.COROUTINE", "old(self._active_routine_id) + 1", ["self.routine_infos[-1].linked_to == 0", "self.named_coroutines[-1] == str(ctx.IDENTIFIER())"])
TGT = "(str(ctx.for_target_def_target().FOR_TARGET()) == 'for_{t}' or str(ctx.for_target_def_target().IDENTIFIER()) == '{t}')"
TA, TO, TP = (TGT.format(t=t) for t in ("actor", "object", "performer"))
LAST = "self.routine_infos[-1]"
definition("exitFor_target_def", None, NUM, [f"{TA} or {TO} or {TP}", f"implies({TA}, {LAST}.type == SsbRoutineType.ACTOR)", f"implies(not {TA} and {TO}, {LAST}.type == SsbRoutineType.OBJECT)",
           f"implies(not {TA} and not {TO}, {LAST}.type == SsbRoutineType.PERFORMER)", f"implies({LAST}.linked_to_name is not None, {LAST}.linked_to == -1 and {LAST}.linked_to_name == str(ctx.integer_like().children[0]))",
           f"implies({LAST}.linked_to_name is None, {LAST}.linked_to == exps_int(str(ctx.integer_like().children[0])))"])

# ---- operations: the next number, the collected parameters, the jump target given by the last parameter
AO = "self._collected_ops[-1]"
NR = "self._total_number_collected_ops"
SM = "self.source_map_builder"
contract(LI + "exitOperation", P + " C09", params={"ctx": "opaque"}, raises={"SsbCompilerError": "ctx.inline_ctx() is not None"}, requires=[*SEP, f"not same(self._collected_ops, {SM}._pos_marks)", f"not same(self._collected_params, {SM}._pos_marks)", f"not same(self._labels_before_op, {SM}._pos_marks)",
         f"not same({SM}._mappings, self.label_offsets)"],
         modifies=["self._collected_params", NR, "items(self._collected_ops)", "self._turn_next_op_into_label_jump_for", "items(self._labels_before_op)", "dict(self.label_offsets)", f"dict({SM}._mappings)", f"items({SM}._pos_marks)", "self._last_op_line", "self._op_idx_in_current_line"],
         ensures=[f"{NR} == old({NR}) + 1", "items(self._collected_ops)[:-1] == old(items(self._collected_ops))", "len(self._collected_ops) == old(len(self._collected_ops)) + 1", "fresh(self._collected_params)", "items(self._collected_params) == []",
                  "self._turn_next_op_into_label_jump_for is None", "items(self._labels_before_op) == []",
                  f"implies(old(self._turn_next_op_into_label_jump_for) is None, exactly({AO}, SsbOperation) and {AO}.offset == {NR} and {AO}.op_code.name == str(ctx.IDENTIFIER()) and same({AO}.params, old(self._collected_params)))",
                  f"implies(old(self._turn_next_op_into_label_jump_for) is not None, exactly({AO}, SsbLabelJump) and same({AO}.label, old(self._turn_next_op_into_label_jump_for)) and exactly({AO}._root, SsbOperation) and {AO}._root.offset == {NR} and {AO}._root.op_code.name == str(ctx.IDENTIFIER()) and same({AO}._root.params, old(self._collected_params)))",
                  f"{NR} in {SM}._mappings and {SM}._mappings[{NR}].line == ctx.start.line - 1 and {SM}._mappings[{NR}].column == ctx.start.column"],
         loops={0: L(inv=["old(domain(self.label_offsets)) <= domain(self.label_offsets)"], step=[f"before(self._labels_before_op[-1]).id in self.label_offsets and self.label_offsets[before(self._labels_before_op[-1]).id] == {NR}", "items(self._labels_before_op) == before(items(self._labels_before_op)[:-1])"]),
                1: L(step=[f"implies(isinstance(arg, SsbOpParamPositionMarker), len({SM}._pos_marks) == before(len({SM}._pos_marks)) + 1)", f"implies(not isinstance(arg, SsbOpParamPositionMarker), items({SM}._pos_marks) == before(items({SM}._pos_marks)))"])})

# ---- parameters
AT, AV = "self._argument_type", "self._argument_value"
T = "ListenerArgType."
contract(LI + "enterPos_argument", P, params={"ctx": "opaque"}, modifies=["self._is_processing_argument"], ensures=["self._is_processing_argument"])
contract(LI + "exitInteger_like", P + " C04 C16", params={"ctx": "opaque"}, modifies=[AT, AV], raises={"ValueError": "True"},
         ensures=[f"implies(not self._is_processing_argument, {AT} == old({AT}) and same({AV}, old({AV})))", f"implies(self._is_processing_argument and ctx.INTEGER(), {AT} == {T}INTEGER and {AV} == exps_int(str(ctx.INTEGER())))",
                  f"implies(self._is_processing_argument and not ctx.INTEGER() and ctx.DECIMAL(), {AT} == {T}DECIMAL and {AV} == str(ctx.DECIMAL()))",
                  f"implies(self._is_processing_argument and not ctx.INTEGER() and not ctx.DECIMAL() and ctx.IDENTIFIER(), {AT} == {T}CONSTANT and {AV} == str(ctx.IDENTIFIER()))",
                  f"implies(self._is_processing_argument and not ctx.INTEGER() and not ctx.DECIMAL() and not ctx.IDENTIFIER() and ctx.VARIABLE(), {AT} == {T}VARIABLE and {AV} == str(ctx.VARIABLE()))"])
contract(LI + "exitJump_marker", P, params={"ctx": "opaque"}, modifies=[AT, AV], ensures=[f"implies(self._is_processing_argument, {AT} == {T}JUMP and {AV} == str(ctx.IDENTIFIER()))", f"implies(not self._is_processing_argument, {AT} == old({AT}) and same({AV}, old({AV})))"])
contract(LI + "exitString", P + " C04", params={"ctx": "opaque"}, modifies=[AT, AV], any_exc=True,
         ensures=[f"implies(self._is_processing_argument and ctx.string_value(), {AT} == {T}STRING_LITERAL and {AV} == string_literal(ctx.string_value()))", f"implies(self._is_processing_argument and not ctx.string_value(), {AT} == {T}LANGUAGE_STRING and same({AV}, self._collected_lang_string))"],
)
contract(LI + "enterLang_string", P + " C04", params={"ctx": "opaque"}, modifies=["self._collected_lang_string"], ensures=["fresh(self._collected_lang_string)", "len(self._collected_lang_string) == 0"])
contract(LI + "exitLang_string_argument", P + " C04", params={"ctx": "opaque"}, modifies=["dict(self._collected_lang_string)"], any_exc=True,
         ensures=["str(ctx.IDENTIFIER()) in self._collected_lang_string", "self._collected_lang_string[str(ctx.IDENTIFIER())] == string_literal(ctx.string_value())", "without(mapping(self._collected_lang_string), str(ctx.IDENTIFIER())) == old(without(mapping(self._collected_lang_string), str(ctx.IDENTIFIER())))"],
)
LBL = "self._collected_labels"
NEW = "self._label_increment_id == old(self._label_increment_id) + 1 and {l}.id == self._label_increment_id and fresh({l})"
KEEP = "self._label_increment_id == old(self._label_increment_id)"
contract(LI + "exitLabel", P, params={"ctx": "opaque"}, requires=SEP, modifies=["self._label_increment_id", f"dict({LBL})", "items(self._collected_ops)", "items(self._labels_before_op)"],
         ensures=[f"str(ctx.IDENTIFIER()) in {LBL}", f"items(self._collected_ops) == old(items(self._collected_ops)) + [{LBL}[str(ctx.IDENTIFIER())]]", f"items(self._labels_before_op) == old(items(self._labels_before_op)) + [{LBL}[str(ctx.IDENTIFIER())]]",
                  f"implies(str(ctx.IDENTIFIER()) in old(domain({LBL})), table({LBL}) == old(table({LBL})) and {KEEP})", f"implies(not (str(ctx.IDENTIFIER()) in old(domain({LBL}))), " + NEW.format(l=f"{LBL}[str(ctx.IDENTIFIER())]") + ")",
                  f"without(mapping({LBL}), str(ctx.IDENTIFIER())) == old(without(mapping({LBL}), str(ctx.IDENTIFIER())))"])
PS = "self._collected_params"
J = "self._turn_next_op_into_label_jump_for"
contract(LI + "exitPos_argument", P + " C04", params={"ctx": "opaque"}, requires=SEP, modifies=["self._is_processing_argument", J, "self._label_increment_id", f"dict({LBL})", f"items({PS})", "self._collected_pos_marker"], any_exc=True, budget=3.0,
         ensures=["not self._is_processing_argument", f"iff({AT} == {T}JUMP, {J} is not None)", f"implies({AT} == {T}JUMP, items({PS}) == old(items({PS})) and {AV} in {LBL} and same({J}, {LBL}[{AV}]))",
                  f"{AT} != {T}INVALID or items({PS}) == old(items({PS}))", f"implies({AT} != {T}JUMP and {AT} != {T}INVALID, items({PS})[:-1] == old(items({PS})) and len({PS}) == old(len({PS})) + 1)", f"implies({AT} == {T}INTEGER, {PS}[-1] == {AV})",
                  *[f"implies({AT} == {T}{t}, exactly({PS}[-1], SsbOpParamConstant) and {PS}[-1].name == {AV})" for t in ("VARIABLE", "CONSTANT")], f"implies({AT} == {T}STRING_LITERAL, exactly({PS}[-1], SsbOpParamConstString) and {PS}[-1].name == {AV})",
                  f"implies({AT} == {T}LANGUAGE_STRING, exactly({PS}[-1], SsbOpParamLanguageString) and same({PS}[-1].strings, {AV}))", f"implies({AT} == {T}POSITION_MARKER, same({PS}[-1], old(self._collected_pos_marker)))"],
         checks=[f"{AT} != {T}DECIMAL or same({PS}[-1], returned('from_str'))"])
