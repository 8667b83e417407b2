#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan in check.py and the properties file."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check   # noqa: E402
import conf    # noqa: E402
import models  # noqa: E402

TECH = {
    'C18': 'Quint specification of sampling; traces recorded from the real code validated against it',
    'C19': 'Quint protocol machine, exhaustive with TLC for small orders; its behaviours at the real order replayed in the code',
}
NOTE = {
    'C18': 'Statistical: recorded streams are judged at about ten standard deviations; dependence on generator output is counted bit by bit.',
}
out = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'Specification language: Quint (see DESIGN.md). No hooks: everything is observed through the public API.'}
for l in open(os.path.join(conf.VERIF, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    m = [models.MODELS[n][1] for n in ' '.join(models.PLAN.get(i, ('', ''))).split() if models.MODELS[n][0] == 'tlc']
    out['checks'].append({
        'property': i,
        'quick_cmd': 'python3 tools/check.py %s quick' % i,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH.get(i, 'Quint specification executed at the real parameters; its behaviours replayed in the real code and judged step by step'
                              + ('; exhaustive model checking of the algorithm at small parameters' if m else '')),
        'level': models.level(i),
        'level_note': NOTE.get(i, 'Every step of every generated behaviour is decided exactly; behaviours are sampled with adversarial operands, not exhaustive at 254 bits.'
                               + (' The algorithm-level machines (%s) are exhaustive at small parameters.' % ', '.join(sorted(set(m))) if m else ''))
        + ' Trusts Quint/TLC, rustc, and the projection of representation words to values in tools/conf.py.',
    })
json.dump(out, open(os.path.join(conf.VERIF, 'MANIFEST.json'), 'w'), indent=1)
