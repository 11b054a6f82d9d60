#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import PROPS, NOT_APPLICABLE  # noqa: E402


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['forall']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w}
                                          for n, w in p['mechanism']]},
            }
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    checks = []
    for p in PROPS:
        if not os.path.exists(os.path.join(
                ROOT, 'mc', 'props', p['id'].lower() + '.py')):
            continue
        cmd = '/opt/venv/bin/python mc/run.py %s --tier %s'
        checks.append({
            'property': p['id'],
            'quick_cmd': cmd % (p['id'], 'quick'),
            'thorough_cmd': cmd % (p['id'], 'thorough'),
            'technique': p['technique'],
            'level': 'model_checking',
            'level_note': p['note'],
        })
    claimed = {c['property'] for c in checks}
    na = list(NOT_APPLICABLE)
    for p in PROPS:
        if p['id'] not in claimed:
            na.append({'property': p['id'],
                       'reason': 'check still under construction'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': '/opt/venv/bin/python mc/run.py --self-test',
            'checks': checks,
            'not_applicable': na,
            'notes': 'Bounded exhaustive exploration of the real svgpy code '
                     'against reference models (see DESIGN.md). No hooks in '
                     '/repo are needed.',
        }, f, indent=1)
        f.write('\n')
    print('%d properties, %d checks' % (len(PROPS), len(checks)))


if __name__ == '__main__':
    main()
