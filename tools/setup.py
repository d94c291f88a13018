#!/usr/bin/env python3
"""Setup: builds the tool-chain variants and helpers once (checks rebuild what they miss)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import core   # noqa: E402
for v in ('x64', 'wcc', 'gen2'):
    try:
        print(core.build(v))
    except core.BuildFailed as e:
        print('note:', e)
