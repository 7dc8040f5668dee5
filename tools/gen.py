#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/claims.py and props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/tools']
from claims import P, NA, NOTES
from props import CFG
with open(H + '/properties.jsonl', 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=None)
        if 'state' in p: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['forall']), why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['id']
checks = []
for p in P:
    if p['id'] not in CFG: continue
    c = CFG[p['id']]
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=c.get('technique', 'Quint specification: behaviours of its state machine replayed into the real code, and recorded executions judged by the specification') + ('; its small instances (TLA+ from Quint) explored exhaustively by TLC' if c.get('small') else ''),
                       level=c.get('level', 'exploration'), level_note=p['note']))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in NA], notes=NOTES), open(H + '/MANIFEST.json', 'w'), indent=1)
