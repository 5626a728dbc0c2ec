#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C19': 'A memory-safety property of an unsafe transmute that ties a borrow to a lock-free snapshot; it is false of the current API (Labels::get/iter hand out references into a snapshot another handle can drop) and repairing it changes the public signatures. No contract over the safe subset the verifier reads can state it (lifetimes and deallocation are below Verus\' value semantics); recorded in DESIGN.md.',
}
PROVED = open(os.path.join(V, 'tools', 'proved.txt')).read().split()
NOTE = {}
try:
    import levelnotes
    NOTE = levelnotes.NOTE
except ImportError:
    pass
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    if d['id'] in NA:
        continue
    checks.append({
        'property': d['id'],
        'quick_cmd': 'python3 check.py ' + d['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + d['id'],
        'technique': 'contract-based deductive verification (Verus contracts on functions extracted mechanically from /repo on every run; Kani full-domain float lemmas); bounded native replay suite as counterexample search and labelled stand-in',
        'level': 'proof' if d['id'] in PROVED else 'exploration',
        'level_note': NOTE.get(d['id'], 'work in progress'),
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks: nothing in /repo is instrumented; the fix: commits are unguarded repairs listed in known_findings.txt. Each check builds everything it needs from the committed files.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
