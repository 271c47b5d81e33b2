"""Regenerate MANIFEST.json from properties.jsonl and the META of every check module (run by hand)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(V, 'harness', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')})
        continue
    t = ast.parse(open(f).read())
    meta = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and getattr(s.targets[0], 'id', '') == 'META':
            for k in s.value.keywords:
                try:
                    meta[k.arg] = ast.literal_eval(k.value)
                except Exception:
                    pass
    checks.append({'property': p['id'], 'quick_cmd': f'bin/check {p["id"]} quick', 'thorough_cmd': f'bin/check {p["id"]} thorough',
                   'evidence_file': f'evidence/{p["id"]}.json', 'technique': meta['technique'], 'level': meta.get('level', 'model_checking'),
                   'level_note': meta['note']})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; harness/ binds them to /repo. No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
