"""Blocks: bodies, loops, ifs, switches (C01, C03, C08, C10)."""
from pyvc.core import L, contract

from .c_backend import A, COUNTS, CX, GMOD, GROWS, H, LC, MM, OC, SENS, SM, SMOD, SRAISE, SREQ, STACKS, STMTH, U, opok, stmt

BLK = "AbstractComplexBlockCompileHandler"
HB = "self._header_jump_blueprints"
PJ = "self.processed_header_jumps"
SAMECTX = f"same(done[-1].compiler_ctx, {CX})"
PMOD = [*SMOD, "self.start_label", "self.end_label", f"items({PJ})"]
contract(A + BLK + "._generate_empty_jump", "C01", self_exact=False, modifies=GMOD, ensures=["fresh(result)", "exactly(result, SsbLabelJump)", "result.label is None", "result._root is not None", "fresh(result._root)", "exactly(result._root, SsbOperation)", "result._root.op_code.name == 'Jump'",
         "items(result._root.params) == []", f"result._root.offset == old({OC}.count) + 1", "result.offset == result._root.offset", f"{OC}.count == old({OC}.count) + 1", f"result.offset in {SM}._mappings",
         f"without(table({SM}._mappings), result.offset) == old(without(table({SM}._mappings), {OC}.count + 1))"])
# jumps without a target: only the one put at the end of a block, which the if fills in
LOOSE = "all(not isinstance(o, SsbLabelJump) or (o._root is not None and (o.label is not None or o._root.op_code.name == 'Jump')) for o in {s})"
# LO: the counter when the statement began (its headers get their numbers after that)
LO = "ghost('lo', 'int', {s})"
NUMS = f"all(b.number is None or ({LO.format(s='self')} < b.number <= {OC}.count) for b in {HB})"
HOK = f"all(exactly(j, SsbLabelJump) and fresh(j) and j._root is not None and j.label is not None and {LO.format(s='self')} < j.offset <= {OC}.count and (j.offset in {SM}._mappings) for j in {PJ})"
HDRS = [f"len({PJ}) == len(done)", HOK, NUMS, f"{LO.format(s='self')} <= {OC}.count", *COUNTS, *STACKS, *GROWS]
BODY = "after(0, items(ops))"
SINGLE = f"len({HB}) > 0 and len({BODY}) == 1 and isinstance({BODY}[0], SsbLabelJump) and {BODY}[0]._root.op_code.name == 'Jump' and all(b.jump_is_positive for b in {HB})"
ENDS = "returned('does_op_end_control_flow')"
PREQ = [*SREQ, NUMS, f"{LO.format(s='self')} <= {OC}.count", f"items({PJ}) == []"]
# going to the start label is entering the block: it is the first thing in it, or what the block would jump to at once
ENTRY = "(same(result[0], self.start_label) or (len(result) == 3 and isinstance(result[1], SsbLabelJump) and result[1]._root.op_code.name == 'Jump' and same(result[1].label, self.start_label)))"
contract(A + BLK + "._process_block", "C01 C03 C08", self_exact=False, result="list[SsbOperation]", requires=PREQ, modifies=PMOD, raises=SRAISE, budget=4.0,
         loops={0: L(inv=["implies(len(done) == 0, len(ops) == 0)", NUMS, *COUNTS, *STACKS, *GROWS, *opok("ops")], types={"ops": "list[SsbOperation]"}, assume=[SAMECTX],
                     step=["items(ops) == before(items(ops)) + items(returned('collect'))"]),
                1: L(inv=[*HDRS, *opok("ops")], assume=[SAMECTX],
                     step=[f"items({PJ}) == before(items({PJ})) + [returned('build_for')]", "same(returned('build_for').label, ops[0].label)", "returned('build_for')._root.op_code.name == hjb.op_code_name"]),
                2: L(inv=[*HDRS, *opok("ops")[:3], LOOSE.format(s="ops")], assume=[SAMECTX],
                     step=[f"items({PJ}) == before(items({PJ})) + [returned('build_for')]", "same(returned('build_for').label, self.start_label if hjb.jump_is_positive else self.end_label)", "returned('build_for')._root.op_code.name == hjb.op_code_name"])},
         ensures=[*COUNTS, *STACKS, *GROWS, "fresh(result)", *opok("result")[:3], LOOSE.format(s="result"), f"insert_the_jump_if_needed or ({opok('result')[3]})", "len(result) > 0", "same(result[-1], self.end_label)", "self.end_label is not None", "self.start_label is not None", "fresh(self.end_label)",
                  "insert_the_jump_if_needed or isinstance(result[0], SsbLabel)", "insert_the_jump_if_needed or " + ENTRY, f"insert_the_jump_if_needed or len(result) >= 2", f"len({PJ}) == len({HB})", HOK],
         checks=[
             # the body is what the statements in it are, in their order, between its two labels
             f"implies(not insert_the_jump_if_needed, items(result)[1:-1] == {BODY})",
             f"implies(not ({SINGLE}), same(result[0], self.start_label))",
             f"implies(insert_the_jump_if_needed and ({SINGLE}), items(result) == [self.end_label] and same(self.start_label, {BODY}[0].label))",
             f"implies(insert_the_jump_if_needed and not ({SINGLE}), items(result)[:len({BODY}) + 1] == [self.start_label] + {BODY})",
             f"implies(insert_the_jump_if_needed and not ({SINGLE}) and len({BODY}) > 0 and {ENDS}, len(result) == len({BODY}) + 2)",
             f"implies(insert_the_jump_if_needed and not ({SINGLE}) and (len({BODY}) == 0 or not {ENDS}), len(result) == len({BODY}) + 3 and result[-2].label is None and result[-2]._root.op_code.name == 'Jump')",
         ])

BMOD = ["self.start_label", "self.end_label", f"items({PJ})"]
ONCE = [f"items({PJ}) == []", f"items({HB}) == []", f"{LO.format(s='self')} == {OC}.count"]
MID = "items(returned('_process_block'))"
SLBL, ELBL = "self._start_label", "self._end_label"
stmt("blocks.loop.forever_block:ForeverBlockCompileHandler", modifies=BMOD, assume=ONCE, ensures=[f"same(result[0], {SLBL})", f"same(result[-1], {ELBL})", "exactly(result[-2], SsbLabelJump)", f"same(result[-2].label, {SLBL})", "result[-2]._root.op_code.name == 'Jump'"],
     checks=[f"items(result)[1:-2] == {MID}", "called('_process_block') == 1"])
BP = "self._branch_blueprint"
stmt("blocks.loop.while_block:WhileBlockCompileHandler", modifies=BMOD, assume=[*ONCE, f"{BP} is None or (same({BP}.compiler_ctx, {CX}) and {BP}.number is None)"], ensures=[f"same(result[0], {SLBL})", f"same(result[-1], {ELBL})", f"{BP} is not None",
     # the loop runs while the condition holds: it is tested at the end, and the way in goes to the test
     f"implies(self.ctx.NOT() is None, exactly(result[1], SsbLabelJump) and result[1]._root.op_code.name == 'Jump' and isinstance(result[2], SsbLabel) and isinstance(result[-3], SsbLabel) and same(result[1].label, result[-3]))",
     f"implies(self.ctx.NOT() is None, exactly(result[-2], SsbLabelJump) and result[-2]._root.op_code.name == {BP}.op_code_name and same(result[-2]._root.params, {BP}.params) and same(result[-2].label, result[2]))",
     # not (condition): the test is at the beginning and leaves
     f"implies(self.ctx.NOT() is not None, exactly(result[1], SsbLabelJump) and result[1]._root.op_code.name == {BP}.op_code_name and same(result[1]._root.params, {BP}.params) and same(result[1].label, {ELBL}))",
     f"implies(self.ctx.NOT() is not None, exactly(result[-2], SsbLabelJump) and result[-2]._root.op_code.name == 'Jump' and same(result[-2].label, {SLBL}))"],
     checks=[f"implies(self.ctx.NOT() is None, items(result)[3:-3] == {MID})", f"implies(self.ctx.NOT() is not None, items(result)[2:-2] == {MID})", "called('_process_block') == 1"])
INI, END = "self._init_statement_handler", "self._end_statement_handler"
INI1, END1 = "items(returned('collect', 0))", "items(returned('collect', 1))"
stmt("blocks.loop.for_block:ForBlockCompileHandler", modifies=BMOD, assume=[*ONCE, f"{BP} is None or (same({BP}.compiler_ctx, {CX}) and {BP}.number is None)", f"{INI} is None or same({INI}.compiler_ctx, {CX})", f"{END} is None or same({END}.compiler_ctx, {CX})"],
     ensures=[f"same(result[0], {SLBL})", f"same(result[-1], {ELBL})", f"{BP} is not None", "same(result[-3], self._initial_label)",
              f"exactly(result[-2], SsbLabelJump) and result[-2]._root.op_code.name == {BP}.op_code_name and same(result[-2]._root.params, {BP}.params) and same(result[-2].label, self._block_label)"],
     checks=[f"len({INI1}) + len({END1}) + len({MID}) + 7 == len(result)", f"items(result)[1:1 + len({INI1})] == {INI1}", f"exactly(result[1 + len({INI1})], SsbLabelJump) and result[1 + len({INI1})]._root.op_code.name == 'Jump' and same(result[1 + len({INI1})].label, self._initial_label)",
             f"same(result[2 + len({INI1})], self._block_label)", f"items(result)[3 + len({INI1}):3 + len({INI1}) + len({MID})] == {MID}", f"same(result[3 + len({INI1}) + len({MID})], self._new_run_label)",
             f"items(result)[4 + len({INI1}) + len({MID}):-3] == {END1}", "called('_process_block') == 1", "called('collect') == 2"])

# ---- with (actor X) { one statement }
FOR = "str(self.ctx.ctx_header().IDENTIFIER())"
stmt("blocks.ctxs.ctx_block:CtxBlockCompileHandler", assume=[f"self._sub_stmt is None or same(self._sub_stmt.compiler_ctx, {CX})"], ensures=["len(result) == 2", "exactly(result[0], SsbOperation)", "self._for_id is not None and self._sub_stmt is not None", "items(result[0].params) == [self._for_id]",
     f"{FOR} in ('actor', 'object', 'performer')", f"result[0].op_code.name == ('lives' if {FOR} == 'actor' else {FOR})"],
     checks=["items(result)[1:] == items(returned('collect'))", "called('collect') == 1"])

from .c_macro import BREQ

# ---- a call of a macro
MC = f"{CX}.macros[str(self.ctx.MACRO_CALL())[1:]]"
stmt("operations.macro_call:MacroCallCompileHandler", "C01 C03 C05 C08 C10", assume=[f"self.arg_list_handler is None or same(self.arg_list_handler.compiler_ctx, {CX})", *[f"str(self.ctx.MACRO_CALL())[1:] not in {CX}.macros or ({r})" for r in BREQ(MC, SM)]],
     raises={**SRAISE}, ensures=[f"str(self.ctx.MACRO_CALL())[1:] in {CX}.macros", f"{SM}._next_macro_called_in is None", "exactly(result[0], MacroStartSsbLabel)", "exactly(result[-1], MacroEndSsbLabel)", f"len(result) == len({MC}.blueprints) + 2"],
     checks=["same(result, returned('build'))", "called('build') == 1"])
