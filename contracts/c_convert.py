"""convert() of the ExplorerScript decompiler (C06): whatever the structured way raises, the fallback gets a copy of the operations made before
anything could have changed them, and its text starts with the mark that makes it SsbScript."""
from pyvc.core import C, L, contract
from pyvc.interp import external
from contracts.c_decomp import inv

EX = "explorerscript.ssb_converting.ssb_decompiler:ExplorerScriptSsbDecompiler."
SD = "explorerscript.ssb_script.ssb_converting.ssb_decompiler:SsbScriptSsbDecompiler."
GM = "explorerscript.ssb_converting.decompiler.graph_building.graph_minimizer:SsbGraphMinimizer."
RS = "explorerscript.ssb_converting.decompiler.label_jump_to_resolver:OpsLabelJumpToResolver."
RW = "explorerscript.ssb_converting.decompiler.write_handlers.routine:RoutineWriteHandler."


@external("copy.deepcopy")
def _deepcopy(x, args, kw):
    """A new list of new objects (what is in it is left open)."""
    v = x.force(args[0])
    r = x.alloc(v.ty)
    x.havoc_loc(v.ty[0], r.t, v.ty, "copy")
    x.rets.setdefault("deepcopy", []).append(r)
    x.rets.setdefault("deepcopy of", []).append(v)
    return r


PASS = ["*.markers", "*.label", "*._root", "*.force_write", "*.referenced_from_other_routine", "items(*:opaque)"]
USE = [C(RS + "__init__", "", trusted="what the structured way does is left open", any_exc=True, modifies=["self.labels", "self.routines", "*.force_write", "*.referenced_from_other_routine"]),
       C(RS + "__iter__", "", trusted="what the structured way does is left open", any_exc=True, result="list[list[SsbOperation]]"),
       C(RW + "__init__", "", trusted="an empty routine has got no start vertex", any_exc=True, modifies=["self.start_vertex", "self.decompiler", "self.parent", "self.ended_on_jump", "self.r_id", "self.r_info", "self.r_graph"], ensures=["same(self.decompiler, decompiler)"]),
       C(SD + "convert", "", trusted="verified in c_decomp.py; here the fallback itself does not fail", requires=["prefix.startswith('//?: is-ssb-script: true' + '\\n')", "same(self._routine_ops, returned('deepcopy'))"], result="tuple[str, SourceMap]",
         modifies=["self._output", "self._line_number", "self.indent", "self._source_map_builder", "self._routine_ops", "*.referenced_from_other_routine", "*.force_write"], ensures=["result[0].startswith(prefix)"]),
       *[C(GM + m, "", trusted="the graph passes: anything but changes to the decompiler and the copy", any_exc=True, modifies=PASS, **({"result": "None"} if m != "get_graphs" else {"result": "list[opaque]"}))
         for m in ("__init__", "optimize_paths", "build_branches", "group_branches", "invert_branches", "build_and_group_switch_cases", "group_switch_cases", "build_switch_fallthroughs", "build_loops", "remove_label_markers", "get_graphs")]]
MARK = "'//?: is-ssb-script: true' + '\\n'"
contract(EX + "convert", "C06 C11", result="tuple[str, SourceMap]", use=USE, budget=3.0, max_paths=2000,
         apply=False, modifies=["*"],
         loops={0: L(inv=[inv("self"), "self.indent == 0"]), 1: L(inv=[])},
         checks=["result[0] == self._output",
                 # one copy, made of the operations handed to the decompiler
                 "called('deepcopy') == 1", "same(returned('deepcopy of'), old(self._routine_ops))",
                 "called('convert') <= 1", f"implies(called('convert') == 1, result[0].startswith({MARK}) and same(result[1], returned('convert')[1]))",
                 ])
