"""From labels to offsets and back: finalising labels, replacing jumps, reading them in again (C01, C02, C03, C07, C10)."""
from pyvc import prog
from pyvc.core import L, contract

SC = "explorerscript.ssb_converting."
UT = SC + "compiler.utils:"
LF = SC + "compiler.label_finalizer:LabelFinalizer."
LR = SC + "compiler.label_jump_to_remover:OpsLabelJumpToRemover."
RS = SC + "decompiler.label_jump_to_resolver:OpsLabelJumpToResolver."
SP = SC + "ssb_special_ops:"
ROUT = "list[list[SsbOperation]]"
prog.FIELD_TYPES.update({("LabelFinalizer", "label_offsets"): "dict[int, int]", ("LabelFinalizer", "routines"): ROUT, ("OpsLabelJumpToRemover", "routines"): ROUT,
                         ("OpsLabelJumpToResolver", "labels"): "dict[int, SsbLabel]", ("OpsLabelJumpToResolver", "routines"): ROUT, ("SsbOperation", "params"): "list[SsbOpParam]"})

contract(UT + "routine_op_offsets_are_ordered", "C03", result="bool")

# ---- a label at the end of a routine goes, or gets the dummy end to point at
contract(UT + "strip_last_label", "C01 C03", result=ROUT, params={"end_ops": "dict[int, SsbOperation]"}, ensures=["len(result) == len(routine_ops)"],
         loops={0: L(types={"jump_targets": "set[int]"}, inv=[]),
                1: L(types={"jump_targets": "set[int]"}, inv=["all(not isinstance(o, SsbLabelJump) or o.label is None or o.label.id in jump_targets for o in done)"]),
                2: L(types={"returned_routine_ops": ROUT}, inv=["len(returned_routine_ops) == len(done)"]),
                3: L(inv=["0 <= end <= len(routine)", "forall(lambda k: implies(end <= k < len(routine), isinstance(routine[k], SsbLabel)), 'int')"])})

# ---- labels get the offset of the next op that is kept; jumps to what follows anyway go
ROOTS = "all(all(not isinstance(o, SsbLabelJump) or (o._root is not None and not isinstance(o._root, (SsbLabel, SsbLabelJump))) for o in r) for r in routines)"
ROOT1 = "all(not isinstance(o, SsbLabelJump) or (o._root is not None and not isinstance(o._root, (SsbLabel, SsbLabelJump))) for o in {r})"
JUMP = "(isinstance({o}, SsbLabelJump) and {o}._root.op_code.name == 'Jump')"
contract(SC + "ssb_data_types:SsbOperation.__eq__", "C01 C03", self_exact=False, result="bool", params={"other": "SsbOperation | None"}, raises={}, ensures=["implies(result, other is not None and self.offset == other.offset)", "implies(same(self, other), result)"])
contract(LF + "_labels_after", "C01 C03", result="list[SsbLabel]", params={"r": "list[SsbOperation]"}, requires=["op_i >= 0", ROOT1.format(r="r")], ensures=["fresh(result)"],
         loops={0: L(inv=["op_i < cursor", f"forall(lambda k: implies(op_i < k < cursor, isinstance(r[k], SsbLabel) or {JUMP.format(o='r[k]')}), 'int')"], types={"ls": "list[SsbLabel]"},
                     step=["implies(isinstance(r[before(cursor)], SsbLabel), cursor == before(cursor) + 1 and items(ls) == before(items(ls)) + [r[before(cursor)]])",
                           "implies(not isinstance(r[before(cursor)], SsbLabel), cursor == before(cursor) + 1 and items(ls) == before(items(ls)) and have_match)"]),
                1: L(inv=["not have_match"])})
contract(LF + "__init__", "C01 C03", params={"routines": ROUT}, requires=[ROOTS], modifies=["self.routines", "self.label_offsets", "*.offset"],
         ensures=["len(self.routines) == len(routines)"],
         loops={0: L(inv=["len(self.routines) == len(done)", "all(isinstance(o, SsbLabel) for o in labels_waiting)"], types={"labels_waiting": "list[SsbLabel]"}),
                1: L(inv=["all(isinstance(o, SsbLabel) for o in labels_waiting)"], types={"labels_waiting": "list[SsbLabel]"},
                     step=["implies(isinstance(op, SsbLabel), items(new_r) == before(items(new_r)) + [op] and items(labels_waiting) == before(items(labels_waiting)) + [op])",
                           f"implies(not isinstance(op, SsbLabel) and not {JUMP.format(o='op')}, items(new_r) == before(items(new_r)) + [op] and len(labels_waiting) == 0)",
                           f"implies(not isinstance(op, SsbLabel) and items(new_r) != before(items(new_r)) + [op], {JUMP.format(o='op')} and items(new_r) == before(items(new_r)) and items(labels_waiting) == before(items(labels_waiting)))"]),
                2: L(inv=[f"not op_was_removed or {JUMP.format(o='op')}"]),
                3: L(inv=["all(l.id in self.label_offsets for l in done)"], step=["label.offset == op.offset", "self.label_offsets[label.id] == op.offset"])})
contract(LR + "__init__", "C01 C03 C10", params={"routines": ROUT, "label_offsets": "dict[int, int]"}, requires=[ROOTS], modifies=["self.routines", "items(*:SsbOpParam)"], raises={"SsbCompilerError": "True", "AssertionError": "True"},
         ensures=["len(self.routines) == len(routines)"],
         loops={0: L(inv=["len(self.routines) == len(done)"]),
                1: L(inv=["all(not isinstance(o, (SsbLabel, SsbLabelJump)) for o in new_rtn_ops)"],
                     step=["implies(isinstance(op, SsbLabel), items(new_rtn_ops) == before(items(new_rtn_ops)))",
                           "implies(isinstance(op, SsbLabelJump), items(new_rtn_ops) == before(items(new_rtn_ops)) + [op._root] and op.label.id in label_offsets and items(op._root.params) == before(items(op._root.params)) + [label_offsets[op.label.id]])",
                           "implies(not isinstance(op, SsbLabelJump) and not isinstance(op, SsbLabel), items(new_rtn_ops) == before(items(new_rtn_ops)) + [op] and op.op_code.name not in OPS_WITH_JUMP_TO_MEM_OFFSET)"])})

# ---- an op that carries a jump becomes a jump to the label of its target
JO = "op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET"
JI = "OPS_WITH_JUMP_TO_MEM_OFFSET[op.op_code.name]"
contract(SP + "process_op_for_jump", "C02 C07", budget=3.0, result="SsbOperation", params={"known_labels": "dict[int, SsbLabel]", "routine_end_offsets": "list[int]"}, modifies=["dict(known_labels)", "*.force_write", "*.referenced_from_other_routine"],
         requires=["len(routine_end_offsets) > 0", "0 <= routine_id < len(routine_end_offsets)"],
         raises={"ValueError": JO, "AssertionError": JO},
         ensures=[f"implies(not {JO}, same(result, op))",
                  f"implies({JO}, exactly(result, SsbLabelJump) and fresh(result) and result._root.op_code.name == op.op_code.name and result._root.offset == op.offset and result.offset == op.offset)",
                  f"implies({JO}, op.params[{JI}] in known_labels and same(result.label, known_labels[op.params[{JI}]]))",
                  f"implies({JO}, items(result._root.params) == items(op.params)[:{JI}] + items(op.params)[{JI} + 1:])",
                  # the routine a new label belongs to is the one whose ops end at or after its offset; a label used from another routine is marked
                  f"implies({JO} and isinstance(op.params[{JI}], int) and not (op.params[{JI}] in old(domain(known_labels))), fresh(result.label) and 0 <= result.label.routine_id < len(routine_end_offsets) and op.params[{JI}] <= routine_end_offsets[result.label.routine_id] and (result.label.routine_id == 0 or op.params[{JI}] > routine_end_offsets[result.label.routine_id - 1]))",
                  f"implies({JO} and routine_id != result.label.routine_id, result.label.referenced_from_other_routine)", f"implies({JO} and op.op_code.name == 'Call', result.label.force_write)",
                  "old(domain(known_labels)) <= domain(known_labels)"],
         loops={0: L(inv=["0 <= routine_id < len(routine_end_offsets)"]), 1: L(inv=["0 <= routine_id < len(routine_end_offsets)", "routine_id == 0 or old_offset > routine_end_offsets[routine_id - 1]"])})
contract(RS + "_build_end_offsets", "C02 C07", params={"routines": ROUT}, result="list[int]", ensures=["len(result) == len(routines)"],
         loops={0: L(types={"offsets": "list[int]"}, inv=["len(offsets) == len(done)"], step=["offsets[-1] == (prev_offset if len(routine) == 0 else routine[-1].offset)"])})
