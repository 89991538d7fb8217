"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
GEO = 'pvfactors/geometry/'


def prop(pid, title, statement, over, text, why, files, mech, observe,
         state=None, claim=True, reason=None, note=None, technique=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state or [], claim=claim,
                  reason=reason, note=note, technique=technique))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'state': p['state'],
                        'mechanism': [{'name': a, 'where': b}
                                      for a, b in p['mech']]},
            'observe_at': p['observe'], 'hook_needed': False}) + '\n')

NOTE = ('Bounded symbolic execution of the real functions over the reals: '
        'every obligation is discharged by z3 for all inputs in the bounds '
        'of the check (evidence lists bounds, functions, queries); '
        'counterexamples are replayed on the unmodified code. Trusts the '
        'numpy proxy layer (validated per path against concrete runs), '
        'z3, and real arithmetic instead of IEEE doubles.')
TECH = ('symbolic execution of the repository\'s Python source on a numpy '
        'proxy, verification conditions decided by z3 (LRA + NRA)')
m = {'version': 1,
     'setup_cmd': 'bash bin/setup',
     'checks': [], 'not_applicable': [],
     'notes': 'See DESIGN.md. bin/check <id> [quick|thorough] runs one check; '
              'exit 2 means a problem of the check itself, never a pass.'}
for p in P:
    if p['claim']:
        m['checks'].append({
            'property': p['pid'],
            'quick_cmd': 'bin/check %s quick' % p['pid'],
            'thorough_cmd': 'bin/check %s thorough' % p['pid'],
            'evidence_file': 'evidence/%s.json' % p['pid'],
            'technique': p['technique'] or TECH,
            'level': 'model_checking',
            'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE})
    else:
        m['not_applicable'].append({'property': p['pid'],
                                    'reason': p['reason']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
