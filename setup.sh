#!/bin/bash
# builds the extractor (also built on demand by every check)
cd "$(dirname "$0")" && python3 -B -c "import sys; sys.path.insert(0,'.'); from bx import prog; print(prog.tool())"
