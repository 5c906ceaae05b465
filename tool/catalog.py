#!/usr/bin/env python3
"""The property catalogue: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, text, why, files, mech, state=(), observe=(), over=('inputs',),
         note='', technique=None, claim=True):
    P.append(dict(pid=pid, title=title, statement=statement, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, over=list(over), note=note,
                  technique=technique, claim=claim))


def na(pid, reason):
    NA.append((pid, reason))


TECH = ('static value-flow analysis: clang front end, gated value graphs with closed-form loops, '
        'equality with a reference summary')
NOTE = ('Decides the statement for every input from the current sources, modulo real-number arithmetic '
        'for floating point and the library models listed in DESIGN.md; nothing is executed.')

exec(open(os.path.join(HERE, 'tool', 'properties.py')).read())


def main():
    ids = [p['pid'] for p in P]
    assert len(set(ids)) == len(ids), 'duplicate id'
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['pid']
            a = {'files': p['files'],
                 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = list(p['observe'])
            a['hook_needed'] = None
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks = []
    for p in P:
        if not p['claim']:
            continue
        checks.append({
            'property': p['pid'],
            'quick_cmd': 'python3 engine/run.py %s --tier quick' % p['pid'],
            'thorough_cmd': 'python3 engine/run.py %s --tier thorough --timeout 800' % p['pid'],
            'technique': p['technique'] or TECH,
            'level': 'other',
            'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE})
    for pid, _r in NA:
        assert pid in ids and not [p for p in P if p['pid'] == pid and p['claim']], pid
    for p in P:
        assert p['claim'] or p['pid'] in [x for x, _ in NA], p['pid']
    m = {'version': 1, 'setup_cmd': 'python3 engine/setup.py', 'checks': checks,
         'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
