#!/bin/bash
# Nothing to compile: checks that the tools the framework needs are there.
cd "$(dirname "$0")"
chmod +x check.py rt.sh rtall.sh
python3-vt -c "import z3" && /opt/venv/bin/python -c "import numpy" && z3 --version >/dev/null && cvc5 --version >/dev/null && echo setup ok
