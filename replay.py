#!/usr/bin/env python3
"""replay.py 'COMMAND' - run one executor command on the real code of /repo"""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vp"))
import executor
w = tempfile.mkdtemp(prefix="vp_replay_")
try:
    e = executor.Executor(executor.build(w))
    print(e.run(sys.argv[1], 60.0))
    e.close()
finally:
    shutil.rmtree(w, ignore_errors=True)
