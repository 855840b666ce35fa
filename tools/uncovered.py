"""Development helper: the functions of the repository that no contract is verified for."""
import ast
import os
import re
import sys

sys.path.insert(0, "/verif")
src = "".join(open(f"/verif/contracts/{f}").read() for f in os.listdir("/verif/contracts") if f.endswith(".py"))
from pyvc import core, main  # noqa: E402,F401

main.load_all()
have = {c.target for c in core.ORDER if not c.trusted and not c.interface} | {c.target for c in core.ORDER if c.inline}
tot = 0
for d, _, fs in os.walk("/repo/explorerscript"):
    if "antlr" in d:
        continue
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        p = os.path.join(d, f)
        mod = os.path.relpath(p, "/repo")[:-3].replace("/", ".")

        def walk(n, pre):
            global tot
            for x in n.body:
                if isinstance(x, ast.ClassDef):
                    walk(x, pre + x.name + ".")
                elif isinstance(x, ast.FunctionDef):
                    tot += 1
                    if f"{mod}:{pre}{x.name}" not in have and len(x.body) > 0 and x.name not in ("__repr__", "__str__", "__hash__"):
                        print(f"{mod.replace('explorerscript.', '', 1)}:{pre}{x.name} {x.end_lineno - x.lineno + 1}")

        walk(ast.parse(open(p).read()), "")
print(tot, "functions", len(have), "under contract")
