#!/usr/bin/env python3
"""Entry point of every check:  run_check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

The parent starts worker processes (each with a private HOME/TMPDIR that is removed
afterwards, because importing corgidrp writes into $HOME), merges what their monitors
observed, writes evidence/<id>.json and prints the verdict.
Exit 0: held on everything explored.  1: VIOLATION line(s).  2: the check itself failed.
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
