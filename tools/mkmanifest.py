#!/usr/bin/env python3
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(HERE, 'lib'))
from plan import PROPS
NA = {
    'C07': 'Not built yet.', 'C08': 'Not built yet.', 'C23': 'Not built yet.',
    'C22': 'Pure compile-time computable function of its input: no schedule, clock, fault or interleaving for a simulator to decide.',
}
NOTE = {
    'mem': 'Seeded search over operation histories, allocation/copy/mapping faults and memory environments of the real code in a simulated memory system; every violation replays exactly from a minimised file. A clean batch is evidence on the histories sampled, not proof. Trusts the simulated mmap/heap, the reference models and the compiler.',
    'conc': 'Seeded search over thread interleavings at memory-access granularity with an exact happens-before race detector on the executed schedule; replays exactly. A clean batch is evidence on the schedules sampled, not proof. Trusts compiler instrumentation of memory accesses and the simulated scheduler.',
}
for k in list(NA):
    if k in PROPS: del NA[k]
m = {
    'version': 1,
    'setup_cmd': 'g++-14 --version >/dev/null && python3 -c "import json"',
    'hooks': {'guard': 'none', 'enable': 'No hooks were added to /repo: the code already has the seams needed (template parameters for keys, values, comparators and allocators; libc mmap/munmap/madvise interposed at link time; operator new/delete replaced).', 'source_commits': []},
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 check.py --prop %s --tier quick' % p,
        'thorough_cmd': 'python3 check.py --prop %s --tier thorough' % p,
        'technique': PROPS[p].get('technique', 'deterministic simulation with fault injection: seeded histories and faults over real code in a simulated memory system, reference-model and ledger oracles'),
        'level': 'exploration',
        'level_note': NOTE[PROPS[p]['engine']],
    } for p in sorted(PROPS)],
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
    'notes': 'See DESIGN.md.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
