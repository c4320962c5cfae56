"""Regenerates properties.jsonl and MANIFEST.json from units/*/prop.json and lib/na.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks = [], []
for p in sorted(glob.glob(f'{V}/units/*/prop.json')):
    d = json.load(open(p)); i = d['id']
    assert len(d['title']) <= 80, (i, len(d['title']))
    an = dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mechanism']])
    if 'observe_at' in d: an['observe_at'] = d['observe_at']
    an['hook_needed'] = None
    props.append(dict(id=i, title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['for_all']),
                      why_tests_cant=d['why_tests_cant'], anchors=an))
    checks.append(dict(property=i, quick_cmd=f'python3 lib/check.py {i} quick', thorough_cmd=f'python3 lib/check.py {i} thorough',
                       technique=d['technique'], level=d.get('level', 'proof'), level_note=d['level_note']))
na = json.load(open(f'{V}/lib/na.json'))
for d in na:
    props.append(dict(id=d['id'], title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['for_all']),
                      why_tests_cant=d['why_tests_cant'], anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mechanism']], hook_needed=None)))
props.sort(key=lambda x: x['id'])
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='sh lib/setup.sh', checks=sorted(checks, key=lambda x: x['property']),
         not_applicable=[dict(property=d['id'], reason=d['reason']) for d in na],
         notes='No hooks: every check reads the source text of /repo and extracts the functions under contract from it on each run. Exit 2 means nothing could be decided (neither the proof nor the replay could take the current text).')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
