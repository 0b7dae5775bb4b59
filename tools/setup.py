#!/usr/bin/env python3
"""Checks that the tools are there. Every check builds what it needs itself, as the sandboxes share nothing."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bwv import engine     # noqa: E402
sys.exit(subprocess.run(["cargo", "--version"], env=engine.env()).returncode)
