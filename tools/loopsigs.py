"""Writes contracts/loops.json: the headers of the loops of each function, as they were when the contracts were written.

The contracts number the loops of a function; a loop which is added or taken out must not shift the numbers of the others."""
import ast
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pyvc.core import _walk_own, loop_sig  # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")


def main() -> None:
    out: dict[str, list[str]] = {}

    def rec(node: ast.AST, mod: str, q: str) -> None:
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.FunctionDef):
                loops = [loop_sig(m) for m in _walk_own(n) if isinstance(m, (ast.For, ast.While))]
                if loops:
                    out.setdefault(f"{mod}:{q}{n.name}", loops)
                rec(n, mod, f"{q}{n.name}.<locals>.")
            elif isinstance(n, ast.ClassDef):
                rec(n, mod, f"{q}{n.name}.")
            else:
                rec(n, mod, q)

    for d, _, fs in os.walk(os.path.join(REPO, "explorerscript")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".py") and "/antlr/" not in p:
                mod = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
                mod = mod[: -len(".__init__")] if mod.endswith(".__init__") else mod
                rec(ast.parse(open(p).read()), mod, "")
    with open(os.path.join(VERIF, "contracts", "loops.json"), "w") as o:
        json.dump(out, o, indent=0, sort_keys=True)
        o.write("\n")


main()
