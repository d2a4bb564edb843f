#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--jobs PATTERN] [--replay FILE] [--verbose]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import harness

if __name__ == '__main__':
    rc = harness.main(sys.argv[1], sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
