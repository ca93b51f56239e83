#!/usr/bin/env python3
"""check.py Cxx [dump directory]: decide one property (see DESIGN.md)."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
import runner
sys.exit(runner.main(HERE, sys.argv[1:]))
