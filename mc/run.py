"""python3 mc/run.py C01 [quick|thorough]   |   python3 mc/run.py --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("PYTHONHASHSEED", "0")

from mc import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))
