#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] | check.py --replay FILE"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt.runtime import main
sys.exit(main(sys.argv[1:]))
