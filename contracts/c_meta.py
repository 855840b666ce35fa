"""The frame of a compilation: meta attributes (C06), which exceptions leave compile() (C10), the state of a compiler object (C11), imports (C05)."""
import z3
from pyvc import core, prog
from pyvc.core import INT, STR, C, L, contract, light
from pyvc.interp import external
from pyvc.vals import Opq

core.OPQ_METH.update({"search": "opaque | None", "group": "str"})


@external("re.compile")
def _compile(x, args, kw):
    return Opq(z3.Function("RE_COMPILE", STR, INT)(x.raw(x.force(args[0]))))


# only the lines at the head of the text are looked at, one after the other
contract("explorerscript.ssb_converting.compiler.meta_attributes:parse_exps_meta_attributes", "C06 C17", result="dict[str, str]", ensures=["fresh(result)"],
         loops={0: L(types={"attributes": "dict[str, str]", "line": "str", "key": "str", "value": "str"}, inv=["0 <= attribute_reader_line <= len(lines)", "forall(lambda k: implies(0 <= k < attribute_reader_line, lines[k].strip().startswith('//?:')), 'int')"],
                     step=["attribute_reader_line == before(attribute_reader_line) + 1"])})

EC = "explorerscript.ssb_converting.ssb_compiler:ExplorerScriptSsbCompiler."
INNER = C(EC + "_compile", "", trusted="anything may happen in here", any_exc=True, modifies=["*.all"], result="ExplorerScriptSsbCompiler")
contract(EC + "compile", "C10", use=[INNER], modifies=["*"], raises={"ParseError": "True", "SsbCompilerError": "True", "ValueError": "True"}, checks=["same(result, returned('_compile'))"])
