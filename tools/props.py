#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json, os
H = 'libs/cmdr11/include/cmdr11/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, level_note=None, technique=None, claim=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state, level_note=level_note, technique=technique, claim=claim, reason=reason))
exec(open(os.path.join(os.path.dirname(__file__), 'props_data.py')).read())
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = dict(files=[x if '/' in x else H + x for x in p['files']],
                 mechanism=[dict(name=n, where=w if '/' in w else H + w) for n, w in p['mech']])
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w if '/' in w else H + w) for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
import glob
harness = ''.join(open(x).read() for x in glob.glob(os.path.join(root, 'harness', '*.cc')))
checks, na = [], []
for p in P:
    if '"%s"' % p['id'] not in harness and p['claim']: p['claim'], p['reason'] = False, 'its check is not written yet'
    if not p['claim']:
        na.append(dict(property=p['id'], reason=p['reason'])); continue
    checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
        technique=p['technique'] or 'property-based testing against a reference model', level='exploration', level_note=p['level_note']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
    notes='Every check generates its cases from VERIF_SEED with engine/pbt.hh (own engine: choice sequences, forked workers, shrinking, replay files); "bash check.sh --replay <id> <file>" runs a saved case again. No hooks in /repo are needed.'),
    open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'claimed')
