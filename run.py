#!/opt/venv/bin/python
"""usage: run.py <property id> [--tier quick|thorough] [--replay file] [--job glob] [-v]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc.core import main

if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    sys.exit(main(sys.argv[1].upper(), sys.argv[2:]))
