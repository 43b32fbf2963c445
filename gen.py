#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from plan.py."""
import json, os, plan
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(list(plan.PROPS.values()) + plan.NOT_APPLICABLE, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])
        if p['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = list(p['observe'])
        a['hook_needed'] = None
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --build',
         checks=[dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=plan.TECH, level=plan.LEVEL,
                      level_note='Every assertion holds for all values within the stated bounds, by the verdict of Z3 over the encoding of the code compiled on this run; nothing beyond the bounds. ' + (p['note'] + ' ' if p['note'] else '') +
                                 'Bounds: ' + p['bounds'] + ' Trusted: the executor, Z3, the operating system model and the terminal model (see DESIGN.md).')
                 for i, p in sorted(plan.PROPS.items())],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in plan.NOT_APPLICABLE])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
