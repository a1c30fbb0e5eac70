#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from dev/props.py and the checks."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [V, HERE]
import props


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in props.P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in props.P:
        c = p['id'].lower()
        if os.path.exists('%s/checks/%s.py' % (V, c)):
            m = importlib.import_module('checks.' + c).CHECK
            checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other',
                               level_note=p.get('note') or ('Static analysis of every path of the analysed roots in the LLVM IR of the current source. ' + m.rule)))
        else:
            na.append(dict(property=p['id'], reason=p.get('na', 'no check yet')))
    json.dump(dict(version=1,
                   setup_cmd="python3 -c 'from vpa import ir; ir.ensure_irdump()'",
                   checks=checks, not_applicable=na,
                   notes='No hooks: the checks read the unmodified source. See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
    seeds = {}
    for d in sorted(os.listdir(V + '/seeded')):
        j = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
        seeds.setdefault(j['property'], []).append((d, j))
    with open(V + '/DESIGN.md', 'w') as f:
        f.write(open(HERE + '/design.head.md').read())
        f.write('# Properties\n\n')
        for p in props.P:
            c = p['id'].lower()
            f.write('## %s: %s\n\n' % (p['id'], p['title']))
            if not os.path.exists('%s/checks/%s.py' % (V, c)):
                f.write('Not applicable: %s\n\n' % p.get('na', 'no check yet'))
                continue
            m = importlib.import_module('checks.' + c).CHECK
            f.write('%s\n\nMethod: %s.\n\nRule: %s\n\n' % (p['statement'], p['technique'], m.rule))
            f.write('Explored: %s.\nWhy tests cannot: %s\n\n' % (p['quant'], p['why']))
            f.write('Products: quick %s; thorough %s. Least number of instances: %s.\n\n' % (
                ', '.join(m.quick), ', '.join(m.thorough), ', '.join('%s %d' % x for x in m.minimum.items())))
            if m.assumptions:
                f.write('Assumptions: %s.\n\n' % '; '.join(m.assumptions))
            if p.get('design'):
                f.write(p['design'] + '\n\n')
            f.write('Code: %s.\n\n' % ', '.join('`%s` (%s)' % x for x in p['mech']))
        f.write('# Planted bugs\n\nAll are caught by the check of their property.\n\n| bug | property | needs | breaks |\n|---|---|---|---|\n')
        for i in sorted(seeds):
            for d, j in seeds[i]:
                f.write('| %s | %s | %s | %s |\n' % (d, i, j['needs'], j['what_it_breaks']))
    print(len(checks), 'checks', len(na), 'not applicable')


main()
