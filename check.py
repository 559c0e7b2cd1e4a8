#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]: exit 0 if the property held, 1 with a VIOLATION line."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from gmg import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main())
