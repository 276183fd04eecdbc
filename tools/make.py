#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/properties.py.

    python3 tools/make.py

A property is claimed in the manifest if it has a module in pbt/props.
"""

import json
import os
import re

from design import DECIDE
from properties import PROPERTIES, NOT_APPLICABLE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in PROPERTIES:
            assert len(p['title']) <= 80, p['id']
            fp.write(json.dumps({
                'id': p['id'],
                'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['all']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                    'observe_at': p['observe'],
                    'hook_needed': None,
                },
            }) + '\n')
            if os.path.exists(os.path.join(HERE, 'pbt', 'props', p['id'].lower() + '.py')):
                checks.append({
                    'property': p['id'],
                    'quick_cmd': './check %s' % p['id'],
                    'thorough_cmd': './check %s --tier thorough' % p['id'],
                    'technique': 'property-based testing: ' + p['technique'],
                    'level': 'exploration',
                    'level_note': p['note'],
                })

    claimed = {c['property'] for c in checks}
    left = [n for n in NOT_APPLICABLE]
    for p in PROPERTIES:
        if p['id'] not in claimed and p['id'] not in {n['property'] for n in left}:
            left.append({'property': p['id'], 'reason': 'the check is not yet built'})

    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({
            'version': 1,
            'setup_cmd': './check --selftest',
            'checks': checks,
            'not_applicable': left,
            'notes': 'Every check draws from VERIF_SEED, imports the code from the working tree of /repo '
                     'and writes failures as replay files: ./check <ID> --replay <file>.',
        }, fp, indent=1)
        fp.write('\n')
    design(claimed)


def design(names):
    """Section of DESIGN.md with how each property is decided."""

    caught = {}
    path = os.path.join(HERE, 'tools', 'planted.json')
    if os.path.exists(path):
        with open(path) as fp:
            for name, b in sorted(json.load(fp).items()):
                caught.setdefault(b['property'], []).append((name, b))
    out = []
    for p in PROPERTIES:
        if p['id'] not in names:
            continue
        with open(os.path.join(HERE, 'pbt', 'props', p['id'].lower() + '.py')) as fp:
            source = fp.read()
        rule = ''.join(eval(l) for l in re.search(r'^RULE = \((.*?)^\)', source, re.S | re.M)[1].strip().split('\n'))
        subs = re.findall(r"Sub\('(\w+)', [^\n]*?quick=(\d+)", source)
        cases, trivial = rule.split(' Non-trivial: ')
        d = DECIDE[p['id']]
        out += ['### %s: %s' % (p['id'], p['title']), '', 'Generated: ' + cases, '', 'Non-trivial: ' + trivial + '.', '', 'Oracle: ' + d['oracle'], '']
        out += ['Bounds: ' + d['bounds'] + ' Sub-checks and cases of the quick tier: '
                + ', '.join('%s %d' % (n, 6 * int(q)) for n, q in subs) + '; a hundred times as many in the thorough tier, within its time.', '']
        if d['left']:
            out += ['Not judged: ' + d['left'], '']
        if p['id'] in caught:
            out += ['Planted bugs: ' + ', '.join('%s (%s)' % (n, 'caught by ' + ', '.join(b['caught']) if b['caught'] else 'missed')
                                                 for n, b in caught[p['id']]) + '.', '']
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as fp:
        text = fp.read()
    begin, end = '<!-- properties -->\n', '<!-- end of properties -->\n'
    head, tail = text.split(begin)[0], text.split(end)[1]
    with open(path, 'w') as fp:
        fp.write(head + begin + '\n' + '\n'.join(out) + end + tail)


if __name__ == '__main__':
    main()
