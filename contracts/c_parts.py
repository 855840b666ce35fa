"""Parts of ifs and switches, and the two put together (C01, C03, C08, C10)."""
from pyvc.core import L, contract

from .c_backend import A, COUNTS, CX, GMOD, GROWS, H, LC, OC, SENS, SM, SMOD, SRAISE, SREQ, STACKS, opok, stmt
from .c_blocks import BLK, ENTRY, HB, HOK, LO, LOOSE, NUMS, PJ, PMOD, PREQ

IFS, SW = H + "blocks.ifs.", H + "blocks.switches."
OWN = f"all(same(b.compiler_ctx, {CX}) for b in {HB})"
PENS = [*COUNTS, *STACKS, *GROWS, "fresh(result)", *opok("result")[:3], "len(result) > 0", "same(result[-1], self.end_label)", "self.end_label is not None", "self.start_label is not None", f"len({PJ}) == len({HB})", HOK]
PART = dict(result="list[SsbOperation]", modifies=PMOD, raises=SRAISE)
CASES = "('Case', 'CaseValue', 'CaseVariable', 'CaseMenu', 'CaseMenu2', 'CaseScenario')"
CNAMES = f"all(b.op_code_name in {CASES} for b in {HB})"
SAMEP = ["same(result, returned('_process_block'))", "called('_process_block') == 1"]
contract(IFS + "else_block:ElseBlockCompileHandler.collect", "C01 C03 C08 C10", requires=PREQ, ensures=[*PENS, LOOSE.format(s="result")], checks=SAMEP, **PART)
contract(IFS + "elseif_block:ElseIfBlockCompileHandler.collect", "C01 C03 C08 C10", requires=PREQ, ensures=[*PENS, LOOSE.format(s="result")], checks=SAMEP, **PART)
contract(IFS + "elseif_block:ElseIfBlockCompileHandler.create_header_jump_templates", "C01 C10", requires=SREQ, modifies=[*SMOD, "self._header_jump_blueprints", "*._is_positive"], raises=SRAISE, result="list[SsbLabelJumpBlueprint]",
         ensures=[*COUNTS, *STACKS, *GROWS, f"same(result, {HB})", "fresh(result)", f"len(result) == len(self._if_header_handlers)", OWN, "all(fresh(b) and b.number is None and b.jump_is_positive == (self.ctx.NOT() is None) for b in result)"],
         loops={0: L(inv=[*COUNTS, *STACKS, *GROWS, f"len({HB}) == len(done)", OWN, f"all(fresh(b) and b.number is None and b.jump_is_positive == (self.ctx.NOT() is None) for b in {HB})"], assume=[f"same(done[-1].compiler_ctx, {CX})"],
                     step=[f"items({HB}) == before(items({HB})) + [returned('collect')]"])})
for mod, cls in (("case_block", "CaseBlock"), ("default_case_block", "DefaultCaseBlock")):
    contract(SW + f"{mod}:{cls}CompileHandler.collect", "C01 C03 C08 C10", requires=PREQ, ensures=["not self.is_message_case", *PENS, opok("result")[3], "isinstance(result[0], SsbLabel)", ENTRY],
             checks=[*SAMEP], **PART)
contract(SW + "case_block:CaseBlockCompileHandler.get_header_jump_template", "C01 C10", modifies=["self._header_jump_blueprints"], raises={"SsbCompilerError": "True", "ValueError": "True", "AssertionError": "self._case_header_handler is None"}, result="SsbLabelJumpBlueprint",
         requires=[OWN, CNAMES], assume=[f"self._case_header_handler is None or same(self._case_header_handler.compiler_ctx, {CX})"],
         ensures=[f"len({HB}) > 0", f"same(result, {HB}[0])", f"result.op_code_name in {CASES}", CNAMES, OWN, f"same(result.compiler_ctx, {CX})", f"implies(old(len({HB})) > 0, items({HB}) == old(items({HB})))", f"implies(old(len({HB})) == 0, fresh(result) and len({HB}) == 1 and result.number is None and result.jump_is_positive and result.op_code_name in ('Case', 'CaseValue', 'CaseVariable', 'CaseMenu', 'CaseMenu2'))"])

# ---- message_SwitchTalk / message_SwitchMonologue: the switch, then one CaseText per case in their order, then DefaultText
ATH = "{r}.offset in " + SM + "._mappings and " + SM + "._mappings[{r}.offset].line == {h}.ctx.start.line - 1 and " + SM + "._mappings[{r}.offset].column == {h}.ctx.start.column"
DH = "self._default_handler"
stmt("blocks.switches.message_switch:MessageSwitchCompileHandler", modifies=["*._header_jump_blueprints"], assume=[f"self._switch_header_handler is None or same(self._switch_header_handler.compiler_ctx, {CX})", f"{DH} is None or same({DH}.compiler_ctx, {CX})"],
     loops={0: L(inv=["len(case_ops) == len(done)", *COUNTS, *STACKS, *GROWS, *opok("case_ops"), "all(exactly(o, SsbOperation) and o.op_code.name == 'CaseText' for o in case_ops)", "all(h.is_message_case for h in done)", f"{OC}.count >= entry({OC}.count)", f"entry(domain({SM}._mappings)) <= domain({SM}._mappings)"],
                 types={"case_ops": "list[SsbOperation]"}, assume=[f"same(done[-1].compiler_ctx, {CX})", f"done[-1]._case_header_handler is None or same(done[-1]._case_header_handler.compiler_ctx, {CX})"],
                 step=["items(case_ops)[:-1] == before(items(case_ops))", "len(case_ops[-1].params) == 2", "same(case_ops[-1].params[0], returned('collect').params[0])", "case_ops[-1].params[1] == string", ATH.format(r="case_ops[-1]", h="h")])},
     ensures=["exactly(result[0], SsbOperation)", "result[0].op_code.name == ('message_SwitchMonologue' if self.ctx.MESSAGE_SWITCH_MONOLOGUE() else 'message_SwitchTalk')", "len(result[0].params) == 1",
              f"len(result) == 1 + len(self._case_handlers) + (0 if {DH} is None else 1)", f"implies({DH} is not None, {DH}.is_message_case and result[-1].op_code.name == 'DefaultText' and len(result[-1].params) == 1)",
              "all(h.is_message_case for h in self._case_handlers)", "all(exactly(o, SsbOperation) and o.op_code.name == 'CaseText' for o in items(result)[1:1 + len(self._case_handlers)])"])

# ---- switch: the switch op, the jumps of the cases in their order, the default jump, the bodies in their order
def of(text, o):
    return text.replace("self.compiler_ctx", "$C").replace("self", o).replace("$C", "self.compiler_ctx")
NOW = "done[-1]"
LASTH = [f"{NOW} is not None", f"same({NOW}.compiler_ctx, {CX})", f"{LO.format(s=NOW)} == old({OC}.count)", f"all(same(b.compiler_ctx, {CX}) for b in {NOW}._header_jump_blueprints)", of(CNAMES, NOW)]
CALL = [*COUNTS, *STACKS, *GROWS, f"{OC}.count >= entry({OC}.count)", f"entry(domain({SM}._mappings)) <= domain({SM}._mappings)"]
FIRST = [f"items({NOW}._header_jump_blueprints) == []", f"not isinstance({NOW}, CaseBlockCompileHandler) or {NOW}._case_header_handler is None or same({NOW}._case_header_handler.compiler_ctx, {CX})"]
SWMOD = ["*._end_label", "*._header_jump_blueprints", "*.number", "*.op_code_name", "items(self._case_handlers)", "*.start_label", "*.end_label", "*.processed_header_jumps", "items(*:SsbLabelJump)"]
DJ = "exactly(default_ops[0], SsbLabelJump) and default_ops[0]._root.op_code.name == 'Jump'"
SWH = "self._switch_header_handler"
stmt("blocks.switches.switch_block:SwitchBlockCompileHandler", modifies=SWMOD, budget=4.0, quick=False, max_paths=3000,
     assume=[f"{SWH} is None or same({SWH}.compiler_ctx, {CX})", f"{DH} is None or same({DH}.compiler_ctx, {CX})", f"not same(self._case_handlers, {CX}._switch_cases)"],
     loops={0: L(whole=True, inv=CALL, assume=[*LASTH, *FIRST], types={"h": "CaseBlockCompileHandler | DefaultCaseBlockCompileHandler"},
                 step=["same(h._end_label, end_label)", "same(jmp_blueprint, h._header_jump_blueprints[0])", f"jmp_blueprint.number == {OC}.count and {OC}.count == before({OC}.count) + 1",
                       "not h.is_message_case", "iff(jmp_blueprint.op_code_name == 'CaseScenario', switch_op.op_code.name == 'SwitchScenario' and returned('get_header_jump_template').op_code_name in ('CaseValue', 'CaseScenario'))",
                       "not (jmp_blueprint.op_code_name == 'CaseValue' and switch_op.op_code.name == 'SwitchScenario')"]),
            1: L(whole=True, inv=[*CALL, *opok("case_ops"), *opok("default_ops"), "not same(case_ops, default_ops)", "len(default_ops) <= 1", f"len(default_ops) == 0 or ({DJ})", f"{DH} is not None or (len(default_ops) == 1 and same(default_ops[0].label, end_label))"],
                 types={"case_ops": "list[SsbOperation]", "default_ops": "list[SsbOperation]", "cases_waiting_for_a_block": "list[CaseBlockCompileHandler | DefaultCaseBlockCompileHandler]"},
                 assume=[*LASTH, of(NUMS, NOW), f"items({of(PJ, NOW)}) == []", f"not same(case_ops, {NOW}.processed_header_jumps)", f"not same(default_ops, {NOW}.processed_header_jumps)", f"not same(cases_waiting_for_a_block, {NOW}._added_handlers)"],
                 step=["implies(len(h._added_handlers) == 0, items(case_ops) == before(items(case_ops)) and items(cases_waiting_for_a_block) == before(items(cases_waiting_for_a_block)) + [h])",
                       "implies(called('collect') == 2, items(case_ops) == before(items(case_ops)) + items(returned('collect')) and len(cases_waiting_for_a_block) == 0)", "implies(len(h._added_handlers) > 0, called('collect') == 2)",
                       "implies(called('collect') == 2, same(start_label, h.start_label))"]),
            2: L(whole=True, inv=[*CALL, *opok("default_ops"), "not same(case_ops, default_ops)", "len(default_ops) <= 1", f"len(default_ops) == 0 or ({DJ})", f"{DH} is not None or (len(default_ops) == 1 and same(default_ops[0].label, end_label))"],
                 types={"default_ops": "list[SsbOperation]"}, assume=[*LASTH, of(NUMS, NOW), f"len({of(HB, NOW)}) == 0 or {of(HB, NOW)}[0].number is None or {LO.format(s=NOW)} < {of(HB, NOW)}[0].number <= {OC}.count"],
                 step=[f"implies(isinstance(h_waiting, DefaultCaseBlockCompileHandler), len(default_ops) == 1 and same(default_ops[0].label, start_label) and {DJ})",
                       "implies(not isinstance(h_waiting, DefaultCaseBlockCompileHandler), len(h_waiting.processed_header_jumps) == 1 and same(h_waiting.processed_header_jumps[0].label, start_label))",
                       f"implies(not isinstance(h_waiting, DefaultCaseBlockCompileHandler), {of(HOK, 'h_waiting')})"]),
            3: L(whole=True, inv=[*opok("header_ops"), "len(header_ops) > 0", "same(header_ops[0], switch_op)"], types={"header_ops": "list[SsbOperation]"}, assume=[*LASTH, of(HOK, NOW)],
                 step=["items(header_ops) == before(items(header_ops)) + items(h.processed_header_jumps)"])},
     ensures=["exactly(result[0], SsbOperation)"],
     checks=["same(result[0], switch_op)", f"implies(old({DH} is None and len(self._case_handlers) == 0), len(result) == 1)",
             f"implies(not old({DH} is None and len(self._case_handlers) == 0), items(result) == after(3, items(header_ops)) + [default_start_label] + after(1, items(default_ops)) + after(1, items(case_ops)) + [end_label])"])
