#!/usr/bin/env python3
"""replay.py replays/<file>.json   re-executes a reported violation on /repo's working tree.

Rebuilds the harness, runs the recorded program in the recorded build and prints the call, what
the specification obliges and what is observed now.  Exit 1 if the observation is still the one
reported, 0 if it changed.
"""
import json
import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conf   # noqa: E402

v = json.load(open(sys.argv[1]))
name = v['build'].split()[0]
if name not in conf.BUILDS:
    name = 'dev'
bins = conf.build([name])
runner = conf.Runner(bins)
with tempfile.TemporaryDirectory(prefix='verif-replay-') as tmp:
    mode = ('par', '8') if v.get('mode') == 'par' else ('run',)
    obs, tail = runner.execute(name, v['program'], tmp, 'replay', mode, 300)
k = v.get('event_index', len(v['program']) - 1)
now = obs[k] if k < len(obs) else None
print('property  ', v['property'])
print('build     ', name)
print('call      ', v['line'][:1000])
print('complaint ', '; '.join(v['complaints'])[:2000])
print('reported  ', str(v['observed'])[:2000])
print('now       ', str(now if v.get('mode') != 'par' else tail)[:2000])
sys.exit(1 if v['observed'] in ([now] + tail) else 0)
