"""Numbers and position marks (C04, C15, C16, C18): stated over the text of the literal."""
from pyvc.core import C, L, contract, light

DT = "explorerscript.ssb_converting.ssb_data_types:"
for a in "xy":
    contract(DT + f"SsbOpParamPositionMarker.{a}_final", "C04 C15", ensures=[f"result == str(self.{a}_relative) + ('.5' if self.{a}_offset > 1 else '')"])
contract(DT + "SsbOpParamPositionMarker.__init__", "C04 C18", modifies=[f"self.{x}" for x in ("name", "x_offset", "y_offset", "x_relative", "y_relative")],
         ensures=[f"self.{x} == {x}" for x in ("name", "x_offset", "y_offset", "x_relative", "y_relative")])
contract(DT + "SsbRoutineInfo.__init__", "C03", modifies=["self.type", "self.linked_to", "self.linked_to_name"], ensures=["self.type == type", "self.linked_to == linked_to", "self.linked_to_name == linked_to_name"])
contract(DT + "SsbRoutineInfo.linked_to_repr", "C02 C07", ensures=["result == (self.linked_to_name if self.linked_to_name is not None and self.linked_to_name != '' else str(self.linked_to))"])
contract(DT + "is_integer_like", "C02 C04", params={"param": "SsbOpParam"}, apply=False, ensures=["result == isinstance(param, (int, SsbOpParamFixedPoint, SsbOpParamConstant))"])
# the parts of the text before and after the first point
W = "(value[:value.find('.')] if '.' in value else value)"
F = "(value[value.find('.') + 1:] if '.' in value else '0')"
SMALL = f"{W}.lstrip('0')"
ZERO = f"({SMALL} == '')"
NEGZERO = f"(not {ZERO} and {SMALL}.rstrip('0') == '-')"
FROM = contract(DT + "SsbOpParamFixedPoint.from_str", "C01 C04 C15 C16", raises={"ValueError": "True", "AssertionError": f"not (set({F}) <= set('0123456789'))"}, result="SsbOpParamFixedPoint", cls="SsbOpParamFixedPoint",
         ensures=["fresh(result)", "exactly(result, SsbOpParamFixedPoint)",
                  f"implies({ZERO}, result.value == '0.' + {F})", f"implies({NEGZERO}, result.value == '-0.' + {F})",
                  f"implies(not {ZERO} and not {NEGZERO}, result.value == str(int({SMALL})) + '.' + {F})"])
# for callers: with the text of a DECIMAL token (its fraction consists of digits) the assertion holds
TOKEN = C(DT + "SsbOpParamFixedPoint.from_str", "", trusted="called with the text of a DECIMAL token, whose fraction consists of digits (rule DECIMAL of the grammar)", result="SsbOpParamFixedPoint", cls="SsbOpParamFixedPoint",
          raises={"ValueError": "True"}, ensures=FROM.ensures[:2])
LOOSE = light(FROM, 0, 1)
LOOSE.raises = {"ValueError": "True", "AssertionError": "True"}
CS = "explorerscript.common_syntax:parse_position_marker_arg"
T = "str(ctx.DECIMAL())"
contract(CS, "C04 C10 C16 C18", params={"ctx": "opaque"}, raises={"ValueError": "True", "SsbCompilerError": "True"}, result="tuple[int, int]",
         ensures=["implies(ctx.INTEGER(), result[0] == exps_int(str(ctx.INTEGER())) and result[1] == 0)", "implies(not ctx.INTEGER(), ctx.DECIMAL())",
                  f"implies(not ctx.INTEGER(), {T}.count('.') >= 0 and {T}[{T}.find('.') + 1:].rstrip('0') == ('5' if result[1] == 2 else ''))",
                  "result[1] == 0 or result[1] == 2",
                  f"implies(not ctx.INTEGER() and {T}[:{T}.find('.')] not in ('', '-'), result[0] == int({T}[:{T}.find('.')]))",
                  f"implies(not ctx.INTEGER() and {T}[:{T}.find('.')] in ('', '-'), result[0] == 0)"])
