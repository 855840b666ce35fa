#!/bin/bash
# Nothing has to be built: the checks read /repo's current source. This only makes sure that the interpreters are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python -c "import antlr4, igraph, pygments" && python3-vt -c "import z3"
