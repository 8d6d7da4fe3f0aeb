#!/usr/bin/env python3
"""Sees whether the tools the checks need are there; the checks build everything themselves, from
/repo as it is when they run."""
import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
os.makedirs(os.path.join(run.VERIF, 'evidence'), exist_ok=True)
with tempfile.TemporaryDirectory() as tmp:
    run.build(tmp)
    run.build(tmp, True)
    rc, out = run.tlc('Chars.tla', 'TraceEval.cfg', tmp, 'setup', wall=120)
    print('ready' if 'TLC2 Version' in out else out)
