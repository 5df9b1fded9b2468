#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per props/Cxx.py; the other properties are listed as not applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    if os.path.exists(os.path.join(HERE, 'props', pid + '.py')):
        doc = open(os.path.join(HERE, 'props', pid + '.py')).read().split('"""')[1].strip().split(': ', 1)[1]
        checks.append({
            'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'property-based testing (Hypothesis): generated inputs and histories against an independent reference model',
            'level': 'exploration',
            'level_note': ' '.join(doc.split()) + ' Trusts the reference model in props/%s.py; covers the generated cases only, '
                          'with the journal and gender tables replaced by small fixed ones.' % pid})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
