#!/usr/bin/env python3-vt
"""python3-vt checks/replay.py FILE: decides the configuration of a replay file again and runs the real library on the model."""
import json
import os
import shutil
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import engine_check

d = json.load(open(sys.argv[1]))
b = engine_check.prepare('replay')
try:
    import runcfg
    v = runcfg.run_config(d['cfg'], runcfg.Stats(), bit=bool(d['cfg'].get('bit')), anystart=bool(d['cfg'].get('anystart')))
    print('engine:', v or 'holds')
    print('native:', runcfg.native_run(d['cfg'], d.get('model')) or 'no difference under the default schedule')
finally:
    shutil.rmtree(b, ignore_errors=True)
