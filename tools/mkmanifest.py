#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
note = ('TLA+ specification of frames, preprocessing and CSV: bounded models checked exhaustively by TLC, their behaviours '
        'replayed on the real code, and seeded random histories recorded from the real code; TLC accepts or rejects every '
        'recorded step against the specification, so the verdict is about executions of the code. Histories not explored '
        'are not decided; the harness and its observation of frames through the public API are trusted.')
extra = {
    'C14': ' Worker interleavings of the job queue are enumerated by TLC (Queue.tla) and replayed on the real queue through hooks.',
    'C25': (' Concurrent histories (ParMC.tla) are run on the code by several goroutines; TLC judges their results in one order (ParMC checks that '
            'any order gives the same), and the Go race detector watches the assumption of the specification that operations do not touch each other.'),
}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                   'thorough_cmd': 'python3 check.py ' + p['id'],
                   'technique': 'TLA+ specification checked with TLC; its behaviours replayed on the code and recorded traces validated against it',
                   'level': 'model_checking', 'level_note': note + extra.get(p['id'], '')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'verif', 'enable': 'go build -tags verif (lib/common.py builds the harness, which imports /repo, that way)',
               'source_commits': ['d9a3b9d', '516e8ff']},
     'checks': checks, 'not_applicable': []}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
