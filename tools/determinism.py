#!/usr/bin/env python3
"""Self-test of the simulator: every run must be a function of its seed alone.

Runs the first N seeds of every property twice, with different numbers of
worker processes (so every run meets a different process history, load and
address-space layout), and compares the hash of each run's event trace.

  determinism.py [N] [PROP ...]
"""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from plan import PROPS
n = sys.argv[1] if len(sys.argv) > 1 else '1000'
bad = 0
with tempfile.TemporaryDirectory() as d:
    for prop in sys.argv[2:] or sorted(PROPS):
        out = []
        for w in ('8', '3'):
            f = os.path.join(d, prop + w)
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--prop', prop, '--runs', n, '--workers', w, '--hashes', f], capture_output=True, text=True)
            if r.returncode:
                print(prop, 'check ended with', r.returncode, r.stdout[-300:])
            out.append(open(f).read().splitlines())
        diff = [a for a, b in zip(*out) if a != b]
        ok = not diff and len(out[0]) == len(out[1]) and len(out[0]) > 0
        bad += not ok
        print(prop, '%d runs identical' % len(out[0]) if ok else 'DIFFERS: %d of %d/%d, first %s' % (len(diff), len(out[0]), len(out[1]), diff[:3]), flush=True)
sys.exit(bad != 0)
