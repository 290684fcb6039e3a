#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules there are."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import core, rules  # noqa

NA = {
    'C50': 'statistical convergence of sampled hits depends on the '
           'scheduler, the signal delivery and the clock; no static argument '
           'over the source bounds it',
    'C51': 'whether two threads interleave inside one read-modify-write is '
           'decided by the interpreter (GIL switch points) and not by the '
           'source; the code takes no lock by design',
    'C53': 'depends on kernel socket buffers and the reading speed of the '
           'peer, quantities no static argument in reach bounds',
}
DEFAULT = 'abstract interpretation of the source'
TECH = {}
for line in open(os.path.join(HERE, 'tools', 'techniques.txt')):
    if line.strip():
        p, t = line.strip().split(None, 1)
        TECH[p] = t

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in core.RULES and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH.get(i, DEFAULT),
            'level': 'other',
            'level_note':
                'Every path of the functions named in the evidence is '
                'covered by the abstract interpreter, with unknown inputs, '
                'summarised loops and raising calls; what it cannot '
                'interpret is listed there as undecided, never as held. '
                'Trusted: the interpreter\'s models of Python and of the '
                'called libraries.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(
            i, 'no rule has been built for it yet')})
man = {
    'version': 1,
    'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks read /repo\'s working tree on every run '
             '(VERIF_REPO overrides the place for experiments); none runs '
             'code of /repo. No hooks were needed.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(man, fp, indent=1)
    fp.write('\n')
print(len(checks), 'claimed', len(na), 'not')
