#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine")); sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
rc = [2]
def go():
    import core
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try: rc[0] = core.main(pid, importlib.import_module(pid.lower()), tier)
    except SystemExit as e: rc[0] = e.code
t = threading.Thread(target=go); t.start(); t.join()
sys.stdout.flush()
os._exit(rc[0] if isinstance(rc[0], int) else 2)
