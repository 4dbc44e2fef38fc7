#!/usr/bin/env python3
"""Runs the check of one property: check.py <id> [--tier quick|thorough] [--seed n] [--replay dir]. See lib/fw.py."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import fw
if __name__ == "__main__":
    sys.exit(fw.main(sys.argv[1:]))
