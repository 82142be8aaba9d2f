#!/usr/bin/env python3
"""python3 harness/run.py P01 [quick|thorough] [--replay FILE] [--seed N] [--cases N] [--time S] [--only I]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner, server
if __name__ == "__main__":
    try:
        rc = runner.main(sys.argv[1].lower(), sys.argv[2:])
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e); rc = 2
    server.release_ports()
    sys.stdout.flush()
    os._exit(rc)
