#!/usr/bin/env python3-vt
"""Entry point: `python3-vt run.py check C01` or `python3-vt run.py replay F`."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib.driver import main  # noqa: E402

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
