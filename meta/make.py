#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the property table of DESIGN.md from meta/*.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from properties import P  # noqa

NA = []

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')

claimed = [p for p in P if os.path.exists(os.path.join(ROOT, 'mon', 'props', p['id'].lower() + '.py'))]
manifest = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': './check.sh %s --tier quick' % p['id'],
        'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
        'technique': 'runtime monitoring: generated workloads, online oracle',
        'level': 'exploration',
        'level_note': ('Held on every monitored execution (seeded random workloads, counts in the evidence file); '
                       'nothing is claimed about executions not run. Trusts the monitor\'s model, Python, lxml and ICU.'
                       + (' ' + p['assume'] if p['assume'] else '')),
    } for p in claimed],
    'not_applicable': [{'property': p['id'], 'reason': r} for p, r in NA],
    'notes': 'Known findings: KNOWN_FINDINGS.txt. Design: DESIGN.md. No hooks are needed in /repo.',
}
for p in P:
    if p not in claimed:
        manifest['not_applicable'].append({'property': p['id'], 'reason': 'no check yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')

design = os.path.join(ROOT, 'DESIGN.md')
if os.path.exists(design):
    text = open(design).read()
    a, b = '<!-- properties -->\n', '<!-- /properties -->\n'
    if a in text:
        i, j = text.index(a) + len(a), text.index(b)
        body = ''.join('### %s %s\n\n%s\n\n*Decided by:* %s%s\n\n*Beyond the tests:* %s\n\n' % (
            p['id'], p['title'], p['statement'], p['design'], (' ' + p['assume']) if p['assume'] else '', p['why'])
            for p in P)
        open(design, 'w').write(text[:i] + '\n' + body + text[j:])
