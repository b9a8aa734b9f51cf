#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = 'abstract interpretation of MIR (path-partitioned value dataflow) with per-rule obligations'
TECH = {
    'C18': 'compile-pass and compile-fail witnesses (borrow checker)',
    'C19': 'feature-matrix and no_std type checking, lint over MIR and crate graph',
    'C21': 'Send/Sync compile witnesses, MIR effect scan over the call graph',
    'C26': 'compile witnesses in adversarial scopes, macro expansion facts',
    'C14': 'abstract interpretation of MIR: reachability of panics from every public function, 64 and 32 bit',
    'C15': 'MIR dataflow: arguments of allocating calls',
}
READY = open(os.path.join(ROOT, 'tools', 'ready.txt')).read().split()
NOTE = ('Sound for the modelled semantics: every path of the code behind each anchor is enumerated on abstract values (loops by inferred invariants), from the MIR of '
        'the current tree. Trusts the contracts of library functions in sa/models.py and rustc; what it cannot decide is listed as undecided in the evidence.')
NOTES = {}
NA = [
    {'property': 'C27', 'reason': 'Equality of decoded and encoded values quantifies over run-time values of arbitrary encode/decode pairs, one half of which (the encoder) is outside this repository; no static argument in reach bounds it.'},
    {'property': 'C28', 'reason': 'Bounds on running time and stack depth for adversarial inputs quantify over run-time lengths and recursive type graphs supplied at run time; the code has no mechanism whose shape decides it.'},
]
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in READY:
        checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s' % i, 'thorough_cmd': 'python3 sa/check.py %s' % i,
                       'technique': TECH.get(i, ABS), 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    elif i not in [x['property'] for x in NA]:
        NA.append({'property': i, 'reason': 'The rules that decide it are not finished yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/check.py --setup', 'checks': checks, 'not_applicable': sorted(NA, key=lambda x: x['property']),
           'notes': 'All checks share one analyser (driver/ extracts facts from rustc, sa/ interprets them); each run recompiles /repo. No hooks in /repo are needed.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
