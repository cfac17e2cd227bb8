#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough] [-v] [--only OBLIGATION] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from vg.harness import main

if __name__ == '__main__':
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
