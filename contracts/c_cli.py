"""The command line tools (C15): the JSON of operations."""
from pyvc.core import L, contract

from . import c_literals

C = "explorerscript.cli.compile:"
JUMPS = "op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET"
P = "out_op['params'][-1]"
contract(C + "build_ops", "C15", params={"ops": "list[SsbOperation]", "positions": "dict[int, int]"}, any_exc=True,
         ensures=["len(result) == len(ops)", "fresh(result)"],
         loops={0: L(inv=["len(out_ops) == len(done)"],
                     step=["items(out_ops)[:-1] == before(items(out_ops))", "out_ops[-1]['opcode'] == op.op_code.name", "len(out_ops[-1]['params']) == len(op.params)",
                           f"implies({JUMPS}, out_ops[-1]['params'][-1] == positions[op.params[-1]])"]),
                1: L(inv=["len(out_op['params']) == len(done)", "len(params) == len(op.params)", f"implies(len(done) > 0 and isinstance(done[-1], int), {P} == done[-1])"],
                     step=["items(out_op['params'])[:-1] == before(items(out_op['params']))", f"implies(isinstance(param, int), {P} == param)",
                           f"implies(isinstance(param, SsbOpParamFixedPoint), {P}['type'] == 'FIXED_POINT' and {P}['value'] == param.value)",
                           f"implies(isinstance(param, SsbOpParamConstant), {P}['type'] == 'CONSTANT' and {P}['value'] == param.name)",
                           f"implies(isinstance(param, SsbOpParamConstString), {P}['type'] == 'CONST_STRING' and {P}['value'] == param.name)",
                           f"implies(isinstance(param, SsbOpParamLanguageString), {P}['type'] == 'LANG_STRING' and same({P}['value'], param.strings))",
                           f"implies(isinstance(param, SsbOpParamPositionMarker), {P}['type'] == 'POSITION_MARK' and {P}['value']['name'] == param.name and {P}['value']['x'] == param.x_final and {P}['value']['y'] == param.y_final)"])})
INFO, NM, RO = "routine_infos[len(done) - 1]", "named_coroutines[len(done) - 1]", "routine_ops[len(done) - 1]"
contract(C + "build_routines_json", "C15", params={"routine_infos": "list[SsbRoutineInfo]", "named_coroutines": "list[str]", "routine_ops": "list[list[SsbOperation]]"}, any_exc=True,
         ensures=["len(result) == min(len(routine_infos), len(named_coroutines), len(routine_ops))"],
         loops={0: L(inv=["len(routines) == len(done)"], whole=True,
                     step=["items(routines)[:-1] == before(items(routines))", "len(routines[-1]['ops']) == len(ops)",
                           "implies(info.type == SsbRoutineType.COROUTINE, routines[-1]['type'] == 'COROUTINE' and routines[-1]['name'] == name)",
                           "implies(info.type == SsbRoutineType.GENERIC, routines[-1]['type'] == 'GENERIC')",
                           *[f"implies(info.type == SsbRoutineType.{k}, routines[-1]['type'] == '{k}' and routines[-1]['target_id'] == (info.linked_to_name if info.linked_to_name is not None else info.linked_to))" for k in ("ACTOR", "OBJECT", "PERFORMER")]])})
D = "explorerscript.cli.decompile:"
Q = "params[-1]"
contract(D + "parse_pos_mark_arg", "C15", any_exc=True, ensures=["result[1] == 0 or result[1] == 2"])
PD = "dict[str, str | list[int | dict[str, str]]]"
contract(D + "read_ops", "C15", use=[c_literals.LOOSE], params={"ops": f"list[{PD}]", "counter": "Counter | None"}, any_exc=True, modifies=["counter.count"], ensures=["len(result) == len(ops)", "fresh(result)"],
         loops={0: L(inv=["len(out_ops) == len(done)"], step=["items(out_ops)[:-1] == before(items(out_ops))", "out_ops[-1].op_code.name == op['opcode']", "len(out_ops[-1].params) == len(op['params'])",
                                                              "same(out_ops[-1].params, params)", "out_ops[-1].offset == counter.count", "counter.count == before(counter.count) + 1"]),
                1: L(inv=["len(params) == len(done)"], step=["items(params)[:-1] == before(items(params))", f"implies(isinstance(param, int), {Q} == param)",
                     f"implies(isinstance(param, dict) and param['type'] == 'CONSTANT', isinstance({Q}, SsbOpParamConstant) and {Q}.name == param['value'])",
                     f"implies(isinstance(param, dict) and param['type'] == 'CONST_STRING', isinstance({Q}, SsbOpParamConstString) and {Q}.name == param['value'])",
                     f"implies(isinstance(param, dict) and param['type'] == 'FIXED_POINT', isinstance({Q}, SsbOpParamFixedPoint))"])})
contract(D + "read_routines", "C15", params={"routines": "list[dict[str, str | int | list[dict[str, str | list[int | dict[str, str]]]]]]"}, any_exc=True,
         ensures=["len(result[0]) == len(routines)", "len(result[1]) == len(routines)", "len(result[2]) == len(routines)"],
         loops={0: L(inv=["len(routine_infos) == len(done)", "len(named_coroutines) == len(done)", "len(routine_ops) == len(done)"],
                     step=["items(routine_infos)[:-1] == before(items(routine_infos))", "named_coroutines[-1].id == len(routine_infos) - 1",
                           "implies(r['type'] == 'COROUTINE', routine_infos[-1].type == SsbRoutineType.COROUTINE and named_coroutines[-1].name == r['name'])",
                           "implies(r['type'] == 'GENERIC', routine_infos[-1].type == SsbRoutineType.GENERIC)",
                           *[f"implies(r['type'] == '{k}', routine_infos[-1].type == SsbRoutineType.{k} and (routine_infos[-1].linked_to == r['target_id'] if isinstance(r['target_id'], int) else routine_infos[-1].linked_to_name == str(r['target_id'])))" for k in ("ACTOR", "OBJECT", "PERFORMER")]])})
