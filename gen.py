#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the PROP tables of rules/*.py and na.py."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import na

props, checks = [], []
for p in sorted(glob.glob(os.path.join(HERE, 'rules', 'C*.py'))):
    pid = os.path.basename(p)[:-3]
    m = importlib.import_module('rules.' + pid)
    props.append(m.PROP)
    assert m.PROP['id'] == pid and len(m.PROP['title']) <= 80, pid
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                   'technique': 'static analysis: ' + m.RULE, 'level': 'other',
                   'level_note': 'whole-program static rule over the type-checked syntax trees, CFGs and call graph of the current sources; decides the structural conditions listed in DESIGN.md on all paths, not sampled executions'})
for q in na.NOT_APPLICABLE:
    props.append(q['prop'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
       'not_applicable': [{'property': q['prop']['id'], 'reason': q['reason']} for q in na.NOT_APPLICABLE]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks,', len(man['not_applicable']), 'not applicable')
