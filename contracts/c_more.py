"""Ends of blocks, what leaves a loop, labels of the operations read in, small data types (C02, C05, C07, C11, C13, C16, C18)."""
from pyvc import prog
from pyvc.core import L, contract

from .c_decomp import W
from .c_final import RS, ROUT, JO, JI, SC

DT = SC + "ssb_data_types:"
FV = "self._vertex_after_forever"
# a loop is left to one place only
contract(W + "labels.forever_start:ForeverWriteHandler.set_vertex_after", "C02", params={"v": "opaque"}, modifies=[FV],
         raises={"ValueError": f"{FV} is not None and {FV}.index != v.index"},
         ensures=[f"same({FV}, v)", f"old({FV}) is None or old({FV}).index == v.index"])
# a block goes on until the label that ends it
LWH = "isinstance(next_handler, LabelWriteHandler)"
NH = {"next_handler": "AbstractWriteHandler"}
contract(W + "labels.forever_start:ForeverWriteHandler.check_end_block", "C02", params=NH, result="bool", raises={"AssertionError": "self.m is None"},
         ensures=["result == (not (isinstance(next_handler, LabelWriteHandler) and self.m is not None and self.m.loop_id in next_handler.ended_loops))"])
contract(W + "label_jumps.if_start:IfWriteHandler.check_end_block", "C02", params=NH, result="bool", any_exc=True,
         ensures=["implies(not isinstance(next_handler, LabelWriteHandler), result)", "implies(isinstance(next_handler, LabelWriteHandler) and len(next_handler.ended_ifs) == 0, result)",
                  "implies(isinstance(next_handler, LabelWriteHandler) and isinstance(self.start_vertex['op'], SsbLabelJump), result == (self.start_vertex['op'].markers[0].if_id not in next_handler.ended_ifs))"])
contract(W + "label_jumps.switch_start:SwitchWriteHandler.check_end_block", "C02", params=NH, result="bool", any_exc=True,
         ensures=["implies(not isinstance(next_handler, LabelWriteHandler), result)", "implies(isinstance(next_handler, LabelWriteHandler) and len(next_handler.ended_switches) == 0, result)",
                  "implies(isinstance(next_handler, LabelWriteHandler) and isinstance(self.start_vertex['op'], SsbLabelJump), result == (self.start_vertex['op'].markers[0].switch_id not in next_handler.ended_switches))"])
contract(W + "label_jumps.switch_start:SwitchWriteHandler._get_root_op", "C02", params={"v": "opaque | None"}, result="SsbOperation | None", raises={},
         ensures=["implies(v is None, result is None)", "implies(v is not None and not isinstance(v['op'], SsbLabelJump), same(result, v['op']))", "implies(v is not None and isinstance(v['op'], SsbLabelJump), same(result, v['op']._root))"])
contract(W + "simple_ops.message_switches:MesageSwitchSimpleOpWriteHandler.check_end_block", "C02", params=NH, result="bool", modifies=["self.have_written_default"], any_exc=True,
         ensures=["implies(old(self.have_written_default), not result)", "implies(result, self.have_written_default == (next_handler.start_vertex['op'].op_code.name == OP_DEFAULT_TEXT))",
                  "implies(result, next_handler.start_vertex['op'].op_code.name in OPS_SWITCH_TEXT_CASE_MAP[self.op_name])", "implies(not result, self.have_written_default == old(self.have_written_default))",
                  "implies(not result and not self.have_written_default, next_handler.start_vertex['op'].op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name])"])
contract(W + "label_jumps.if_start:IfWriteHandler._add_vertex_after", "C02", params={"v": "opaque | None"}, modifies=["items(self.vertices_after)"], raises={},
         ensures=["implies(v is not None, items(self.vertices_after) == old(items(self.vertices_after)) + [v])", "implies(v is None, items(self.vertices_after) == old(items(self.vertices_after)))"])

prog.FIELD_TYPES[("SsbOpParamFixedPoint", "value")] = "str"

# every op is read in, in its place
contract(RS + "__init__", "C02 C07", params={"routines": ROUT}, modifies=["self.labels", "self.routines", "*.force_write", "*.referenced_from_other_routine"], any_exc=True,
         ensures=["len(self.routines) == len(routines)"],
         loops={0: L(inv=["len(self.routines) == len(done)"], step=["len(self.routines[-1]) == len(rtn)"]),
                1: L(inv=["len(new_rtn_ops) == len(done)"],
                     step=["len(new_rtn_ops) == before(len(new_rtn_ops)) + 1", "items(new_rtn_ops)[:-1] == before(items(new_rtn_ops))", "same(new_rtn_ops[-1], returned('process_op_for_jump'))"])})

contract(DT + "DungeonModeConstants.get_explorerscript_constant_for", "C02 C16", params={"idx": "SsbOpParam"}, result="str", raises={},
         ensures=["implies(idx == 0, result == self.close_constant)", "implies(idx == 1, result == self.open_constant)", "implies(idx == 2, result == self.request_constant)", "implies(idx == 3, result == self.open_and_request_constant)",
                  "implies(isinstance(idx, int) and not (0 <= idx <= 3), result == str(idx))", "implies(not isinstance(idx, int), result == str(idx))"])
contract(DT + "SsbRoutineType.create_for_index", "C01 C02 C13", params={"idx": "int"}, result="SsbRoutineType", raises={},
         ensures=[f"implies(idx == {i}, same(result, SsbRoutineType.{n}))" for i, n in ((1, "GENERIC"), (3, "ACTOR"), (4, "OBJECT"), (5, "PERFORMER"), (9, "COROUTINE"))] + ["implies(idx not in (1, 3, 4, 5, 9), same(result, SsbRoutineType.INVALID))"])
for _c, _f in (("SsbOpParamFixedPoint", ("value",)), ("SsbOpParamConstant", ("name",)), ("SsbOpParamConstString", ("name",)), ("SsbOpParamPositionMarker", ("x_offset", "y_offset", "x_relative", "y_relative")), ("SsbRoutineInfo", ("type", "linked_to"))):
    contract(DT + _c + ".__eq__", "C16 C18" if "Pos" in _c else "C02 C16", params={"other": "SsbOpParam" if "Param" in _c else "SsbRoutineInfo"}, result="bool", raises={},
             ensures=[f"implies(isinstance(other, {_c}), result == ({' and '.join(f'self.{a} == other.{a}' for a in _f)}))", f"isinstance(other, {_c}) or not result"])
contract("explorerscript.util:exps_int", "C16", apply=False, params={"to_convert": "int"}, result="int", raises={}, ensures=["result == to_convert"])
contract(SC + "compiler.compile_handlers.blocks.switches.case_block:CaseBlockCompileHandler.get_text", "C01 C10", apply=False, any_exc=True, checks=["same(result, returned('collect'))", "called('collect') == 1", "self.is_message_case"])

LOOPED = "len({0}.decompiler.forever_start_handler_stack) > 0 and {0}.decompiler.forever_start_handler_stack[-1].m is not None and {0}.decompiler.forever_start_handler_stack[-1].m.loop_id == {0}.start_vertex['op'].markers[0].loop_id"
for _h in ("forever_break:ForeverBreak", "forever_continue:ForeverContinue"):
    contract(W + f"label_jumps.{_h}WriteHandler._is_in_its_loop", "C02", apply=False, result="bool", any_exc=True,
             ensures=[f"implies(isinstance(self.start_vertex['op'], SsbLabelJump), result == ({LOOPED.format('self')}))"])
contract(W + "label_jumps.forever_continue:ForeverContinueWriteHandler._continue_is_implicit", "C02", apply=False, result="bool", raises={}, ensures=["result == False"])
ENDED = {"ended_ifs": ("IfEnd", "if_id"), "ended_switches": ("SwitchEnd", "switch_id"), "started_loops": ("ForeverStart", "loop_id"), "ended_loops": ("ForeverEnd", "loop_id")}
LATTR = [*ENDED, "switch_fell_through", "vertex_that_started_block", "is_first_vertex_of_block", "start_vertex", "decompiler", "parent", "ended_on_jump"]
for _a in ENDED:
    prog.FIELD_TYPES[("LabelWriteHandler", _a)] = "list[int]"
contract(W + "label:LabelWriteHandler.__init__", "C02", apply=False, params={"vertex_that_started_block": "opaque | None", "is_first_vertex_of_block": "bool", "start_vertex": "opaque"}, requires=["isinstance(start_vertex['op'], SsbLabel)"],
         modifies=["self." + a for a in LATTR],
         ensures=[*[f"all(not isinstance(m, {c}) or m.{f} in self.{a} for m in start_vertex['op'].markers)" for a, (c, f) in ENDED.items()],
                  "implies(any(isinstance(m, SwitchFalltrough) for m in start_vertex['op'].markers), self.switch_fell_through)", "same(self.start_vertex, start_vertex)", "self.is_first_vertex_of_block == is_first_vertex_of_block"],
         loops={0: L(inv=[f"all(not isinstance(m, {c}) or m.{f} in self.{a} for m in done)" for a, (c, f) in ENDED.items()] + ["implies(any(isinstance(m, SwitchFalltrough) for m in done), self.switch_fell_through)"],
                     step=[f"items(self.{a}) == before(items(self.{a})) + ([m.{f}] if isinstance(m, {c}) else [])" for a, (c, f) in ENDED.items()] + ["self.switch_fell_through == (before(self.switch_fell_through) or isinstance(m, SwitchFalltrough))"])})
contract(W + "label_jumps.call:CallWriteHandler._leads_to_label", "C02", apply=False, params={"v": "opaque"}, result="bool", any_exc=True,
         ensures=["implies(isinstance(v['op'], SsbLabel), result == (v['op'].id == label.id))", "implies(isinstance(v['op'], SsbForeignLabel), result == (v['op'].label.id == label.id))",
                  "implies(not isinstance(v['op'], (SsbLabel, SsbForeignLabel, SsbLabelJump)), not result)"])
contract(W + "label_jumps.switch_start:SwitchWriteHandler._leads_to_end", "C02", apply=False, params={"e": "opaque"}, result="bool", raises={},
         ensures=["implies(result, isinstance(e.target_vertex['op'], SsbLabel) and len(e.target_vertex['op'].markers) > 0)"])
GU = SC + "decompiler.graph_building.graph_utils:"
contract(GU + "any_incoming_edge_is_loop", "C02", apply=False, params={"v": "opaque"}, result="bool", any_exc=True, loops={0: L(inv=[])})
SL = SC + "ssb_special_ops:"
contract(SL + "SsbLabelJump.maybe_root", "C02", apply=False, result="SsbOperation | None", raises={}, ensures=["same(result, self._root)"])
for _k in ("return", "end", "hold"):
    contract(W + f"simple_ops.keyword:KeywordSimpleOpWriteHandler._write_{_k}", "C02", apply=False, requires=["self.decompiler.indent >= 0"], modifies=["self.decompiler._output", "self.decompiler._line_number", "self.decompiler._unwritten_jump"], raises={},
             ensures=[f"self.decompiler._output == old(self.decompiler._output) + '\\n' + ' ' * (self.decompiler.indent * 4) + '{_k};'"])
contract(SC + "util:Blk.__enter__", "C02 C09", apply=False, any_exc=True, requires=["self.reader.indent >= 0"], modifies=["self.reader.indent", "self.reader._output", "self.reader._line_number", "self.reader._unwritten_jump"])
contract("explorerscript.included_usage_map:IncludedUsageMapDiff.__init__", "C14", apply=False, raises={}, modifies=["self.removed", "self.added"], ensures=["forall(lambda x: (x in self.removed) == (x in before.included_files and x not in after.included_files), 'str')", "forall(lambda x: (x in self.added) == (x not in before.included_files and x in after.included_files), 'str')"])
for _a in ("removed", "added"):
    prog.FIELD_TYPES[("IncludedUsageMapDiff", _a)] = "set[str]"
prog.FIELD_TYPES[("IncludedUsageMap", "included_files")] = "set[str]"

# reading the operations: each one in its place, the label of its offset before it
contract(RS + "_iter_routine", "C02 C07", params={"rtn": "list[SsbOperation]"}, result="list[SsbOperation]", raises={},
         ensures=["fresh(result)", "len(result) >= len(rtn)"],
         loops={0: L(types={"yielded": "list[SsbOperation]"}, inv=["len(yielded) >= len(done)"],
                     step=["items(yielded) == before(items(yielded)) + ([self.labels[next_item.offset]] if next_item.offset in self.labels else []) + [next_item]"])})

# comparisons
contract(DT + "SsbNamedId.__eq__", "C02 C03", self_exact=False, apply=False, params={"other": "SsbOpCode | SsbCoroutine | None"}, result="bool", raises={}, ensures=["implies(result, other is not None and self.id == other.id)", "implies(exactly(self, SsbOpCode) and exactly(other, SsbOpCode), result == (self.id == other.id))"])
contract(DT + "SsbOpParamLanguageString.__eq__", "C02 C16", params={"other": "SsbOpParam"}, result="bool", raises={}, ensures=["implies(result, isinstance(other, SsbOpParamLanguageString) and domain(self.strings) == domain(other.strings))", "implies(same(self, other), result)"])
SMP = "explorerscript.source_map:"
contract(SMP + "SourceMapping.__eq__", "C08 C14", apply=False, params={"other": "SourceMapping | SourceMapPositionMark | None"}, result="bool", raises={}, ensures=["implies(exactly(other, SourceMapping), result == (self.line == other.line and self.column == other.column))", "implies(not isinstance(other, SourceMapping), not result)"])
contract(SMP + "SourceMap.__eq__", "C08 C14", apply=False, params={"other": "SourceMap | SourceMapping | None"}, result="bool", any_exc=True, ensures=["implies(result, isinstance(other, SourceMap) and domain(self._mappings) == domain(other._mappings) and len(self._position_marks) == len(other._position_marks))"])

# ---- files that are imported
import z3  # noqa: E402

from pyvc import core  # noqa: E402
from pyvc.interp import external  # noqa: E402
from pyvc.vals import BOOL, INT, Opq, STR, Sy  # noqa: E402

core.OPQ_METH["joinpath"] = "opaque"


def _text_fn(name, sort, n=1):
    f = z3.Function("PATH_" + name.split(".")[-1], *[STR] * n, STR if sort == "str" else BOOL)

    @external(name)
    def _fn(x, args, kw):
        """A function of the text: the file system does not change meanwhile."""
        return Sy(sort, f(*[x.raw(x.force(a)) for a in args]))


for _m in ("posixpath", "genericpath"):
    for _n, _s, _k in (("realpath", "str", 1), ("dirname", "str", 1), ("relpath", "str", 2), ("exists", "bool", 1), ("isdir", "bool", 1)):
        _text_fn(f"{_m}.{_n}", _s, _k)
for _n in ("PurePath", "PurePosixPath"):
    @external("pathlib." + _n)
    def _path(x, args, kw, n=_n):
        """An object for a path, which does nothing but hold it."""
        a = x.force(args[0])
        return Opq(x.const(n, INT))
EC = "explorerscript.ssb_converting.ssb_compiler:ExplorerScriptSsbCompiler."
THERE = "all(os.path.exists(p) and not os.path.isdir(p) for p in fs)"
contract(EC + "_resolve_imported_file", "C05 C10", result="list[str]", raises={"SsbCompilerError": "True"}, ensures=["len(result) == len(self.imports)", "fresh(result)"],
         loops={0: L(types={"fs": "list[str]", "abs_path": "str | None"}, inv=["len(fs) == len(done)", THERE], step=["items(fs)[:-1] == before(items(fs))"]), 1: L(types={"abs_path": "str | None"}, inv=["abs_path is None"])})
contract(EC + "_macros_add_filenames", "C05 C08 C14", params={"macros": "dict[str, ExplorerScriptMacro]"}, result="dict[str, ExplorerScriptMacro]", raises={}, modifies=["*.included__absolute_path", "*.included__relative_path"],
         ensures=["same(result, macros)"],
         loops={0: L(inv=[], step=["macro.included__absolute_path == (before(macro.included__absolute_path) if before(macro.included__absolute_path) is not None else subfile_path)",
                                   "macro.included__relative_path == (before(macro.included__relative_path) if basefile_path is None else os.path.relpath(macro.included__absolute_path, os.path.realpath(os.path.dirname(basefile_path))))"])})
contract(SL + "SsbLabel.needs_to_be_printed", "C02", apply=False, result="bool", raises={}, params={"graph": "opaque"}, self_exact=False, ensures=["implies(len(self.markers) == 0, result)"])
NAME = "self.start_vertex['op'].op_code.name"
contract(W + "simple_op:SimpleOperationWriteHandler.get_real_handler", "C02", apply=False, raises={}, result="opaque",
         ensures=[f"implies({NAME} in {names}, same(result, {h}))" for names, h in (("('Jump', 'Call', 'Return', 'End', 'Hold')", "KeywordSimpleOpWriteHandler"), ("OPS_CTX", "CtxSimpleOpWriteHandler"), ("('message_SwitchTalk', 'message_SwitchMonologue')", "MesageSwitchSimpleOpWriteHandler"),
                  ("('CaseText', 'DefaultText')", "MesageSwitchCasesSimpleOpWriteHandler"), ("OPS_FLAG_ALL", "FlagSimpleOpWriteHandler"))]
         + [f"implies({NAME} not in ('Jump', 'Call', 'Return', 'End', 'Hold', 'message_SwitchTalk', 'message_SwitchMonologue', 'CaseText', 'DefaultText') and {NAME} not in OPS_CTX and {NAME} not in OPS_FLAG_ALL, same(result, SimpleSimpleOpWriteHandler))"])
