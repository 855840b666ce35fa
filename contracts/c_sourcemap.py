"""Source map builder (C08, C09), serialisation and offset rewriting (C14)."""
from pyvc import prog
from pyvc.core import L, contract

S = "explorerscript.source_map:"
P8 = "C08"
PMT = "tuple[str | None, str, SourceMapPositionMark]"
prog.FIELD_TYPES.update({
    ("SourceMap", "_mappings"): "dict[int, SourceMapping]",
    ("SourceMap", "_position_marks"): "list[SourceMapPositionMark]",
    ("SourceMap", "_mappings_macros"): "dict[int, MacroSourceMapping]",
    ("SourceMap", "_position_marks_macro"): f"list[{PMT}]",
    ("SourceMapping", "line"): "int",
    ("SourceMapping", "column"): "int",
    ("MacroSourceMapping", "parameter_mapping"): "dict[str, int | str]",
    ("SourceMapBuilder", "_macro_context__stack"): "list[tuple[int, dict[str, int | str]]]",
})

contract(S + "SourceMapping.__init__", "C08 C09 C14", modifies=["self.line", "self.column"],
         ensures=["self.line == line_number", "self.column == column"])
contract(S + "MacroSourceMapping.__init__", "C08 C14", params={"parameter_mapping": "dict[str, int | str]"},
         modifies=["self.line", "self.column", "self.relpath_included_file", "self.macro_name", "self.called_in", "self.return_addr", "self.parameter_mapping"],
         ensures=["self.line == line_number", "self.column == column", "self.relpath_included_file == relpath_included_file", "self.macro_name == macro_name",
                  "self.called_in == called_in", "self.return_addr == return_addr", "same(self.parameter_mapping, parameter_mapping)"])
contract(S + "SourceMapBuilder.__init__", "C08 C09",
         modifies=["self._mappings", "self._pos_marks", "self._mappings_macros", "self._pos_marks_macros", "self._next_macro_called_in", "self._macro_context__stack"],
         ensures=["items(self._pos_marks) == []", "items(self._pos_marks_macros) == []", "len(self._macro_context__stack) == 0", "self._next_macro_called_in is None", "len(self._mappings) == 0", "len(self._mappings_macros) == 0",
                  *[f"fresh(self.{x})" for x in ("_mappings", "_pos_marks", "_mappings_macros", "_pos_marks_macros", "_macro_context__stack")]])
contract(S + "SourceMapBuilder.add_opcode", "C01 C08 C09", modifies=["dict(self._mappings)"],
         ensures=["same(result, self)", "op_offset in self._mappings", "self._mappings[op_offset].line == line_number",
                  "self._mappings[op_offset].column == column", "fresh(self._mappings[op_offset])",
                  "without(mapping(self._mappings), op_offset) == old(without(mapping(self._mappings), op_offset))"])
contract(S + "SourceMapBuilder.add_position_mark", "C08 C18", modifies=["items(self._pos_marks)"],
         ensures=["same(result, self)", "items(self._pos_marks) == old(items(self._pos_marks)) + [position_mark]"])
contract(S + "SourceMapBuilder.macro_context__push", "C08", params={"parameter_mapping": "dict[str, int | str]"}, modifies=["items(self._macro_context__stack)"],
         ensures=["same(result, self)", "items(self._macro_context__stack) == old(items(self._macro_context__stack)) + [(opcode_to_jump_to, parameter_mapping)]"])
contract(S + "SourceMapBuilder.macro_context__pop", "C08", requires=["len(self._macro_context__stack) > 0"], modifies=["items(self._macro_context__stack)"],
         ensures=["same(result, self)", "items(self._macro_context__stack) == old(items(self._macro_context__stack)[:-1])"])
contract(S + "SourceMapBuilder.next_macro_opcode_called_in", "C08", modifies=["self._next_macro_called_in"],
         ensures=["same(result, self)", "self._next_macro_called_in == (if_incl_rel_path, line_number, column)"])
contract(S + "SourceMapBuilder.clear_macro_opcode_called_in", "C08", modifies=["self._next_macro_called_in"],
         ensures=["same(result, self)", "self._next_macro_called_in is None"])
contract(S + "SourceMapBuilder.add_macro_opcode", "C08", modifies=["dict(self._mappings_macros)", "self._next_macro_called_in"],
         raises={"ValueError": "len(self._macro_context__stack) < 1"},
         ensures=["same(result, self)", "op_offset in self._mappings_macros",
                  "self._mappings_macros[op_offset].line == line_number", "self._mappings_macros[op_offset].column == column",
                  "self._mappings_macros[op_offset].macro_name == macro_name", "self._mappings_macros[op_offset].relpath_included_file == if_incl_rel_path",
                  "self._mappings_macros[op_offset].return_addr == self._macro_context__stack[-1][0]",
                  "same(self._mappings_macros[op_offset].parameter_mapping, self._macro_context__stack[-1][1])",
                  "self._mappings_macros[op_offset].called_in == old(self._next_macro_called_in)",
                  "self._next_macro_called_in is None", "fresh(self._mappings_macros[op_offset])",
                  "without(mapping(self._mappings_macros), op_offset) == old(without(mapping(self._mappings_macros), op_offset))"])
contract(S + "SourceMapBuilder.add_macro_position_mark", "C08", modifies=["items(self._pos_marks_macros)"],
         ensures=["same(result, self)", "items(self._pos_marks_macros) == old(items(self._pos_marks_macros)) + [(if_incl_rel_path, macro_name, position_mark)]"])
contract(S + "SourceMapBuilder.build", "C08 C09", ensures=[
    "same(result._mappings, self._mappings)", "same(result._position_marks, self._pos_marks)",
    "same(result._mappings_macros, self._mappings_macros)", "same(result._position_marks_macro, self._pos_marks_macros)", "fresh(result)"])

contract(S + "SourceMap.__init__", "C08 C14", modifies=["self._mappings", "self._position_marks", "self._mappings_macros", "self._position_marks_macro"],
         ensures=["same(self._mappings, mappings)", "same(self._position_marks, position_marks)", "same(self._mappings_macros, mappings_macros)", "same(self._position_marks_macro, position_marks_macro)"])
contract(S + "SourceMap.is_empty", "C14", result="bool", ensures=["result == (len(self._mappings) == 0)"])
contract(S + "SourceMap.get_op_line_and_col", "C08 C09", ensures=[
    "result is (self._mappings[op_offset] if op_offset in self._mappings else (self._mappings_macros[op_offset] if op_offset in self._mappings_macros else None))"])
contract(S + "SourceMap.get_op_line_and_col__direct", "C08 C09", ensures=[
    "result is (self._mappings[op_offset] if op_offset in self._mappings else None)"])
contract(S + "SourceMap.get_op_line_and_col__macros", "C08", ensures=[
    "result is (self._mappings_macros[op_offset] if op_offset in self._mappings_macros else None)"])
contract(S + "SourceMap.get_position_marks__direct", "C08 C18", ensures=["same(result, self._position_marks)"])
contract(S + "SourceMap.get_position_marks__macros", "C08", ensures=["same(result, self._position_marks_macro)"])
contract(S + "SourceMap.create_empty", "C14", ensures=["len(result._mappings) == 0", "len(result._mappings_macros) == 0", "items(result._position_marks) == []", "items(result._position_marks_macro) == []"])

# ---- C14
contract(S + "SourceMapping.serialize", "C14", result="list", ensures=["items(result) == [self.line, self.column]", "fresh(result)"])
contract(S + "SourceMapping.deserialize", "C14", params={"data_list": "list[int]"}, requires=["len(data_list) == 2"],
         ensures=["result.line == data_list[0]", "result.column == data_list[1]", "exactly(result, SourceMapping)", "fresh(result)"])
contract(S + "SourceMapPositionMark.serialize", "C14", result="list",
         ensures=["items(result) == [self.line_number, self.column_number, self.end_line_number, self.end_column_number, self.name, self.x_offset, self.y_offset, self.x_relative, self.y_relative]"])
contract(S + "SourceMapPositionMark.deserialize", "C14", params={"data_list": "list[Any]"}, requires=["len(data_list) == 9"],
         ensures=["result.line_number == data_list[0]", "result.column_number == data_list[1]", "result.end_line_number == data_list[2]", "result.end_column_number == data_list[3]",
                  "result.name == data_list[4]", "result.x_offset == data_list[5]", "result.y_offset == data_list[6]", "result.x_relative == data_list[7]", "result.y_relative == data_list[8]"])
contract(S + "MacroSourceMapping.serialize", "C14", result="list",
         ensures=["items(result) == [self.relpath_included_file, self.macro_name, self.line, self.column, self.called_in, self.return_addr, self.parameter_mapping]"])

INJ = "forall(lambda k: implies(k in new_mapping, ghost('inv', 'int', new_mapping[k]) == k), 'int')"


def moved(f: str, ty: str) -> list[str]:
    return [
        # every entry whose op is kept moves to the op's new offset
        f"forall(lambda k: implies(k in old(mapping(self.{f})) and k in new_mapping, new_mapping[k] in self.{f} and same(self.{f}[new_mapping[k]], old(self.{f}[k]))), 'int')",
        # and nothing else is there
        f"forall(lambda j: implies(j in self.{f}, ghost('inv', 'int', j) in old(mapping(self.{f})) and ghost('inv', 'int', j) in new_mapping and new_mapping[ghost('inv', 'int', j)] == j), 'int')",
    ]


RET = "before(m.return_addr)"
contract(S + "SourceMap.rewrite_offsets", "C14", requires=[INJ], modifies=["self._mappings", "self._mappings_macros", "*.return_addr"],
         ensures=moved("_mappings", "SourceMapping") + moved("_mappings_macros", "MacroSourceMapping"),
         loops={0: L(step=[
             f"implies({RET} is None, m.return_addr is None)",
             f"implies({RET} is not None and {RET} in new_mapping, m.return_addr == new_mapping[{RET}])",
             # the next surviving op, if there is one
             f"implies({RET} is not None and forall(lambda j: implies({RET} <= j, j not in new_mapping), 'int'), m.return_addr == {RET})",
             f"implies({RET} is not None and not forall(lambda j: implies({RET} <= j, j not in new_mapping), 'int'), ghost('inv', 'int', m.return_addr) >= {RET})",
             f"implies({RET} is not None and not forall(lambda j: implies({RET} <= j, j not in new_mapping), 'int'), ghost('inv', 'int', m.return_addr) in new_mapping)",
             f"implies({RET} is not None and not forall(lambda j: implies({RET} <= j, j not in new_mapping), 'int'), m.return_addr == new_mapping[ghost('inv', 'int', m.return_addr)])",
             f"implies({RET} is not None and not forall(lambda j: implies({RET} <= j, j not in new_mapping), 'int'), forall(lambda j: implies({RET} <= j and j < ghost('inv', 'int', m.return_addr), j not in new_mapping), 'int'))",
         ]), 1: L(inv=["addr is not None", "addr >= m.return_addr", "forall(lambda j: implies(m.return_addr <= j and j < addr, j not in new_mapping), 'int')"],
                  types={"addr": "int | None"})})

contract(S + "MacroSourceMapping.deserialize", "C14", params={"data_list": "tuple[str | None, str, int, int, tuple[str | None, int, int] | None, int | None, dict[str, int | str]]"},
         ensures=["result.relpath_included_file == data_list[0]", "result.macro_name == data_list[1]", "result.line == data_list[2]", "result.column == data_list[3]", "result.return_addr == data_list[5]", "same(result.parameter_mapping, data_list[6])",
                  "iff(result.called_in is None, data_list[4] is None)", "implies(data_list[4] is not None, result.called_in == data_list[4])"])
PMF = ("line_number", "column_number", "end_line_number", "end_column_number", "name", "x_offset", "y_offset", "x_relative", "y_relative")
contract(S + "SourceMapPositionMark.__eq__", "C08 C14", params={"other": "SourceMapPositionMark | SourceMapping | None"}, self_exact=False, apply=False, result="bool",
         ensures=["iff(result, isinstance(other, SourceMapPositionMark) and " + " and ".join(f"self.{f} == other.{f}" for f in PMF) + ")"])
