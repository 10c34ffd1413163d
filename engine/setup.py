#!/usr/bin/env python3
"""setup_cmd: builds the IR tool (everything else is done per run from /repo's tree)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build_tool())
