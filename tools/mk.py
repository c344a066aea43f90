import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, 'specs')]
import proptext
import props
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in proptext.P:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                         'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': list(p['observe']), 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in proptext.P:
    if p['id'] in props.PROPS and not p['na']:
        m['checks'].append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': proptext.TECH, 'level': 'proof',
                            'level_note': p['note'] + ' Trusted: clang -O0 front end, the irv verification-condition generator, z3/cvc5; on a source the proof no longer fits, a labelled bounded stand-in of the same contracts runs.'})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
m['notes'] = 'See DESIGN.md. No hooks in /repo.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
