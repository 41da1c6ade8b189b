#!/opt/venv/bin/python
"""Run the simulations deciding a property (see DESIGN.md)."""

import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("DST_REPO", "/repo"))
sys.dont_write_bytecode = True

from dst import runner

if __name__ == "__main__":
    sys.exit(runner.main())
