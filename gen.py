#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the metadata below (no check reads this)."""
import json, glob, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, quant, why, files, mech, level_note='', na=None, level='proof', technique=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=level_note, na=na, level=level, technique=technique, state=state))
exec(open(os.path.join(V, 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = p['state']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier={'over': p['over'], 'text': p['quant']}, why_tests_cant=p['why'], anchors=a)) + '\n')
checks = []; na = []
for p in sorted(P, key=lambda p: p['id']):
    has = glob.glob(os.path.join(V, 'contracts', p['id'] + '_*.cpp')) and os.path.exists(os.path.join(V, 'baseline', p['id'] + '.json'))
    if p['na'] or not has:
        na.append({'property': p['id'], 'reason': p['na'] or 'no contract in place yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                   'technique': p['technique'] or 'contract-based deductive verification: C++ contracts on the real functions, verification conditions from their LLVM IR (loop invariants inferred and proved), discharged by z3/cvc5 and term rewriting; counterexamples replayed on the real code',
                   'level': p['level'], 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'bash engine/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts live in /verif/contracts and include the sources of /repo directly. baseline/ lists the obligations that were proved on the pinned tree.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import subprocess, re
def fill(s, tag, rows):
    return re.sub('<!-- %s -->.*<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(rows), tag), s, flags=re.S)
D = os.path.join(V, 'DESIGN.md'); s = open(D).read()
rows = ['| id | property | contracts | how it is decided |', '|---|---|---|---|']
for p in sorted(P, key=lambda p: p['id']):
    fs = sorted(glob.glob(os.path.join(V, 'contracts', p['id'] + '_*.cpp'))); h = sum(open(f).read().count('HARNESS(') for f in fs)
    rows.append('| %s | %s | %s | %s |' % (p['id'], p['title'], (', '.join(os.path.basename(f) for f in fs) + ' (%d)' % h) if fs else '-', 'not applicable: ' + p['na'] if p['na'] else p['note'].replace(NOTE, '') or '-'))
s = fill(s, 'table', rows)
s = fill(s, 'fixes', ['- ' + re.sub(r'^fixed: property=(\w+) (\w+) ', r'\1 (`\2`): ', x) for x in json.load(open(os.path.join(V, 'known_findings.json')))['fixed']])
S = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); S.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d.get('caught_by', '?')))
s = fill(s, 'seeds', S); open(D, 'w').write(s)
print(len(checks), 'claimed', [x['property'] for x in na])
