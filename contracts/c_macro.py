"""Macro expansion (C05) and its source map entries (C08)."""
from pyvc import prog
from pyvc.core import L, contract, light

M = "explorerscript.macro:ExplorerScriptMacro."
PD = "dict[str, SsbOpParam]"
prog.FIELD_TYPES.update({
    ("MacroStartSsbLabel", "length_of_macro"): "int",
    ("MacroStartSsbLabel", "parameter_mapping"): "dict[str, str]",
    ("SsbOperation", "params"): "list[SsbOpParam]",
})

contract(M + "_create_parameter_mapping", "C08", ensures=[
    "domain(result) == domain(parameters)", "forall(lambda k: implies(k in parameters, result[k] == text(parameters[k])), 'str')", "fresh(result)"])
contract(M + "_replace_in_param_mapping", "C08", ensures=["fresh(result)"], loops={0: L(
    inv=["domain(new_dict) == content(done)"],
    step=["new_dict[p_name] == (text(our_parameters[parameter_mapping[p_name]]) if parameter_mapping[p_name] in our_parameters else parameter_mapping[p_name])"])})
CL = contract(M + "_copy_blueprint_label", "C05 C03", modifies=["lbl_idx_counter.count"], result="SsbLabel", ensures=[
    "fresh(result)", "result.id == old(lbl_idx_counter.count) + 1", "lbl_idx_counter.count == old(lbl_idx_counter.count) + 1",
    "result.debugging_note == blueprint_op.debugging_note", "items(result.markers) == []", "fresh(result.markers)", "result.original_name is None",
    "iff(isinstance(result, MacroStartSsbLabel), isinstance(blueprint_op, MacroStartSsbLabel))",
    "iff(isinstance(result, MacroEndSsbLabel), isinstance(blueprint_op, MacroEndSsbLabel))",
    "implies(isinstance(blueprint_op, MacroStartSsbLabel), result.length_of_macro == blueprint_op.length_of_macro and same(result.parameter_mapping, blueprint_op.parameter_mapping))",
    "result.offset == -1"])
SUBST = "isinstance(p, SsbOpParamConstant) and not isinstance(p, MacroSsbOpParamConstant)"
contract(M + "_process_parameters", "C05", params={"original_params": "list[SsbOpParam]"}, result="list[SsbOpParam]",
         ensures=["fresh(result)", "len(result) == len(original_params)", "items(original_params) == old(items(original_params))"],
         loops={0: L(inv=["len(new_params) == len(done)"], step=[
             "items(new_params)[:-1] == before(items(new_params))",
             # only the constants of this macro's own text are variables of it
             f"implies(not ({SUBST}), same(new_params[-1], p))",
             f"implies(({SUBST}) and text(p) in macro_params, same(new_params[-1], macro_params[text(p)]))",
             # any other constant stays what it is, also in the macros that call this one
             f"implies(({SUBST}) and text(p) not in macro_params, exactly(new_params[-1], MacroSsbOpParamConstant) and new_params[-1].name == text(p))",
         ])})
SMT = "smb._mappings_macros[result.offset]"
OWN = "self.source_map._mappings_macros[blueprint_op.offset]"
ISM = "blueprint_op.offset in self.source_map._mappings_macros"
BO = contract(M + "_build_op", "C05 C08 C03", params={"params": PD}, result="SsbOperation",
         requires=["len(smb._macro_context__stack) > 0", "not same(smb._mappings_macros, self.source_map._mappings_macros)", "blueprint_op.offset in self.source_map._mappings or " + ISM],
         modifies=["op_idx_counter.count", "dict(smb._mappings_macros)", "smb._next_macro_called_in"],
         ensures=[
             "fresh(result)", "exactly(result, SsbOperation)", "result.offset == old(op_idx_counter.count) + 1", "op_idx_counter.count == old(op_idx_counter.count) + 1",
             "result.op_code is blueprint_op.op_code", "len(result.params) == len(blueprint_op.params)", "fresh(result.params)",
             "result.offset in smb._mappings_macros", "old(domain(smb._mappings_macros)) <= domain(smb._mappings_macros)",
             f"{SMT}.return_addr == smb._macro_context__stack[-1][0]", f"same({SMT}.parameter_mapping, smb._macro_context__stack[-1][1])",
             f"{SMT}.line == ({OWN} if {ISM} else self.source_map._mappings[blueprint_op.offset]).line",
             f"{SMT}.column == ({OWN} if {ISM} else self.source_map._mappings[blueprint_op.offset]).column",
             f"implies(not ({ISM}), {SMT}.macro_name == self.name and {SMT}.relpath_included_file == self.included__relative_path)",
             f"implies({ISM}, {SMT}.macro_name == {OWN}.macro_name)",
             f"implies({ISM} and {OWN}.relpath_included_file is not None, {SMT}.relpath_included_file == {OWN}.relpath_included_file)",
             f"implies({ISM} and {OWN}.relpath_included_file is None, {SMT}.relpath_included_file == self.included__relative_path)",
             # the call site: of the call inside the macro if this op has one, else the one waiting
             f"implies(not ({ISM} and {OWN}.called_in is not None), {SMT}.called_in == old(smb._next_macro_called_in))",
             f"implies({ISM} and {OWN}.called_in is not None, {SMT}.called_in[1] == {OWN}.called_in[1] and {SMT}.called_in[2] == {OWN}.called_in[2])",
             f"implies({ISM} and {OWN}.called_in is not None and {OWN}.called_in[0] is not None, {SMT}.called_in[0] == {OWN}.called_in[0])",
             f"implies({ISM} and {OWN}.called_in is not None and {OWN}.called_in[0] is None, {SMT}.called_in[0] == self.included__relative_path)",
             "smb._next_macro_called_in is None",
             "without(table(smb._mappings_macros), result.offset) == old(without(table(smb._mappings_macros), op_idx_counter.count + 1))",
         ], checks=["same(result.params, returned('_process_parameters'))"])
# the expansion
def OPS(seq):
    return [f"all(isinstance(o, SsbLabel) or (fresh(o) and o.offset in smb._mappings_macros) for o in {seq})", f"all(isinstance(o, SsbLabel) or o.offset <= op_idx_counter.count for o in {seq})",
            f"all(isinstance(o, SsbLabel) or o.offset > old(op_idx_counter.count) for o in {seq})", f"all(not isinstance(o, SsbLabelJump) or (o._root is not None and o.label is not None) for o in {seq})"]


def BREQ(m="self", smb="smb"):
    jl = "(o._root if isinstance(o, SsbLabelJump) else o).offset"
    return [f"not same({smb}._mappings_macros, {m}.source_map._mappings_macros)", f"all(not isinstance(o, SsbLabelJump) or (o._root is not None and o.label is not None) for o in {m}.blueprints)",
            f"all(isinstance(o, SsbLabel) or {jl} in {m}.source_map._mappings or {jl} in {m}.source_map._mappings_macros for o in {m}.blueprints)",
            f"not same({smb}._mappings_macros, {m}.source_map._mappings)", f"not same({smb}._pos_marks_macros, {m}.source_map._position_marks_macro)",
            f"sum(1 for o in {m}.blueprints if isinstance(o, MacroStartSsbLabel)) == sum(1 for o in {m}.blueprints if isinstance(o, MacroEndSsbLabel))"]


contract(M + "build", "C05 C08 C03", requires=["not same(op_idx_counter, lbl_idx_counter)", *BREQ()],
    use=[light(BO, 0, 1, 2, 3, 4, 7, 8), light(CL, 0, 1, 2, "items(result.markers)", "fresh(result.markers)", "offset", "iff")],
    raises={"ValueError": "any(v not in parameters for v in self.variables)"},
    modifies=["op_idx_counter.count", "lbl_idx_counter.count", "dict(smb._mappings_macros)", "smb._next_macro_called_in", "items(smb._macro_context__stack)", "items(smb._pos_marks_macros)"],
    ensures=[
        "exactly(result[0], MacroStartSsbLabel)", "exactly(result[-1], MacroEndSsbLabel)", "len(result) == len(self.blueprints) + 2",
        "result[0].length_of_macro == len([o for o in self.blueprints if not isinstance(o, SsbLabel)]) + 1",
        "op_idx_counter.count == old(op_idx_counter.count) + sum(1 for o in self.blueprints if not isinstance(o, SsbLabel))",
        "items(self.blueprints) == old(items(self.blueprints))", "op_idx_counter.count >= old(op_idx_counter.count)", "items(smb._macro_context__stack) == old(items(smb._macro_context__stack))",
        "lbl_idx_counter.count >= old(lbl_idx_counter.count)", "fresh(result)",
        # every position mark of the macro's text and of the macros it calls is listed, in this order
        "len(smb._pos_marks_macros) == old(len(smb._pos_marks_macros)) + len(self.source_map._position_marks) + len(self.source_map._position_marks_macro)",
        "old(domain(smb._mappings_macros)) <= domain(smb._mappings_macros)", *OPS("result"),
    ],
    budget=3.0, checks=["same(result[-1], end_label)"],
    loops={0: L(inv=["all(v in parameters for v in done)"]),
           2: L(inv=["len(smb._pos_marks_macros) == old(len(smb._pos_marks_macros)) + len(done)"],
                step=["items(smb._pos_marks_macros) == before(items(smb._pos_marks_macros)) + [(self.included__relative_path, self.name, pos_mark)]"]),
           3: L(inv=["len(smb._pos_marks_macros) == old(len(smb._pos_marks_macros)) + len(self.source_map._position_marks) + len(done)"],
                step=["items(smb._pos_marks_macros)[:-1] == before(items(smb._pos_marks_macros))", "smb._pos_marks_macros[-1][0] == m[0] and smb._pos_marks_macros[-1][1] == m[1] and same(smb._pos_marks_macros[-1][2], m[2])"]),
           1: L(inv=["len(out_ops) == 1 + len(done)", "op_idx_counter.count >= old(op_idx_counter.count)", "op_idx_counter.count == old(op_idx_counter.count) + sum(1 for o in done if not isinstance(o, SsbLabel))",
                     "same(out_ops[0], entry(out_ops[0]))", "items(smb._macro_context__stack)[:old(len(smb._macro_context__stack))] == old(items(smb._macro_context__stack))",
                     "lbl_idx_counter.count >= old(lbl_idx_counter.count)", "old(domain(smb._mappings_macros)) <= domain(smb._mappings_macros)", *OPS("out_ops"),
                     "len(smb._macro_context__stack) == old(len(smb._macro_context__stack)) + 1 + sum(1 for o in done if isinstance(o, MacroStartSsbLabel)) - sum(1 for o in done if isinstance(o, MacroEndSsbLabel))"],
               step=["items(out_ops)[:-1] == before(items(out_ops))", "forall(lambda k: implies(k in before(domain(new_labels)), k in new_labels and same(new_labels[k], before(new_labels[k]))), 'int')",
                     "implies(isinstance(blueprint_op, SsbLabel), same(out_ops[-1], new_labels[blueprint_op.id]))",
                     "implies(isinstance(blueprint_op, SsbLabelJump), exactly(out_ops[-1], SsbLabelJump) and same(out_ops[-1]._root, returned('_build_op')) and same(out_ops[-1].label, new_labels[blueprint_op.label.id]))",
                     "implies(not isinstance(blueprint_op, (SsbLabel, SsbLabelJump)) and blueprint_op.op_code.name == 'Return', exactly(out_ops[-1], SsbLabelJump) and same(out_ops[-1]._root, returned('_build_op')) and out_ops[-1]._root.op_code.name == 'Jump' and same(out_ops[-1].label, end_label))",
                     "implies(not isinstance(blueprint_op, (SsbLabel, SsbLabelJump)) and blueprint_op.op_code.name != 'Return', same(out_ops[-1], returned('_build_op')))",
                     "implies(not isinstance(blueprint_op, SsbLabel), called('_build_op') == 1)"],
               # the start and end labels of the macros called by this macro are balanced
               assume=["sum(1 for o in done if isinstance(o, MacroStartSsbLabel)) >= sum(1 for o in done if isinstance(o, MacroEndSsbLabel))"])})
