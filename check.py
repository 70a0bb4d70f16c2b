#!/usr/bin/env python3-vt
"""usage: check.py <property id> [--replay FILE | --sub NAME]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "checks"))
import vlib
if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(vlib.main(pid, pid.lower(), sys.argv[2:]))
