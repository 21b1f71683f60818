#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/texts.py and sa/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.texts import PROPS  # noqa
from sa.props import P  # noqa

with open(HERE + '/properties.jsonl', 'w', encoding='utf-8') as f:
    for pid, p in PROPS.items():
        assert len(p['title']) <= 80, (pid, len(p['title']))
        f.write(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }, ensure_ascii=False) + '\n')
checks = []
for pid in P:
    rules = [d for d, _, _ in P[pid]]
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 /verif/run.py %s --tier quick' % pid,
        'thorough_cmd': 'python3 /verif/run.py %s --tier thorough' % pid,
        'evidence_file': '/verif/evidence/%s.json' % pid,
        'technique': 'static analysis: abstract interpretation of the current source to canonical value-flow summaries, decided against '
                     'the specification summaries and reference-free rules (%s)' % ', '.join(rules),
        'level': 'other',
        'level_note': PROPS[pid]['rule'],
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q /verif/sa',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v['na']} for k, v in PROPS.items() if v['na']],
    'notes': 'No hooks. The checks read /repo only. known_findings.txt lists repaired defects.',
}, open(HERE + '/MANIFEST.json', 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
