"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None, level='other', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, state=state,
                  observe=observe, technique=technique, note=note, level=level, na=na))


L = 'library/Java/Lang/'
U = 'library/Java/Util/'
exec(open(V + '/tools/proplist.py').read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                                        'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mechanism']], 'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import sa; print(sa.tool_irx())"',
       'checks': [], 'not_applicable': [], 'notes': 'Static analysis only; see DESIGN.md. Each check recompiles /repo\'s current library sources to LLVM IR and analyses them; nothing of the library is executed.'}
for p in sorted(P, key=lambda p: p['id']):
    if p['na']: man['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    man['checks'].append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s' % p['id'],
                          'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'static analysis: ' + p['technique'], 'level': p['level'], 'level_note': p['note']})
with open(V + '/MANIFEST.json', 'w') as f: json.dump(man, f, indent=1); f.write('\n')
print(len(man['checks']), 'claimed,', len(man['not_applicable']), 'not applicable')
