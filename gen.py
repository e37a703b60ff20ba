#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of
DESIGN.md from props.py."""
import json, os, re
from props import PROPS, NOT_APPLICABLE

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    rows, checks = [], []
    every = sorted(PROPS + NOT_APPLICABLE, key=lambda p: p['id'])
    for p in every:
        assert len(re.findall(r'[.!?](\s|$)', p['statement'])) <= 3, p['id']
        rows.append(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=a, where=b)
                                    for a, b in p['mech']],
                         hook_needed=None)))
        for f in p['files']:
            assert os.path.exists('/repo/' + f), f
    with open(HERE + '/properties.jsonl', 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')
    for p in sorted(PROPS, key=lambda p: p['id']):
        b = p['bounds']
        checks.append(dict(
            property=p['id'],
            quick_cmd='python3 check.py %s --tier quick' % p['id'],
            thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=p['tech'], level='model_checking',
            level_note='Exhaustive within: %s. %s%s' % (
                b['quick'] if isinstance(b, dict) else b, p['note'],
                ' Trusts the compiler, the sanitizers and the reference '
                'model.')))
    man = dict(version=1, setup_cmd='python3 -c "import registry"',
               checks=checks,
               not_applicable=[dict(property=p['id'], reason=p['reason'])
                               for p in NOT_APPLICABLE])
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    t = []
    for p in every:
        t.append('### %s — %s\n' % (p['id'], p['title']))
        if 'reason' in p:
            t.append('Not applicable: %s\n' % p['reason'])
            continue
        b = p['bounds']
        t.append('%s\n' % p['design'])
        if isinstance(b, dict):
            t.append('Bounds, quick: %s. Thorough: %s.\n' % (b['quick'],
                                                            b['thorough']))
        else:
            t.append('Bounds: %s.\n' % b)
        if p['note']:
            t.append('%s\n' % p['note'])
        t.append('Beyond tests: %s\n' % p['why'])
    d = HERE + '/DESIGN.md'
    s = open(d).read() if os.path.exists(d) else \
        '<!-- generated -->\n<!-- /generated -->\n'
    s = re.sub(r'<!-- generated -->.*<!-- /generated -->',
               lambda m: '<!-- generated -->\n' + '\n'.join(t) +
               '<!-- /generated -->', s, flags=re.S)
    with open(d, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    main()
