#!/usr/bin/env python3
"""job.py C05 'J("flat", act=0x1b, cost=1, post=ANY)' ...: runs single exploration jobs and prints what they cover"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chartprops import *
chk = Check(sys.argv[1], "quick")
try:
    jobs = [eval(a) for a in sys.argv[2:]]
    for j in jobs:
        if j.opts.get("cost", 0) > 0: j.opts.setdefault("tail", 1)
    build(chk, jobs)
    run_jobs(chk, jobs, OWN.get(sys.argv[1], ALL), 400)
    for d in chk.extra["jobs"]: print(d)
finally: chk.close()
