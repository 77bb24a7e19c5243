#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TRACE = 'TLA+ specification of the pool; recorded histories of the real code validated against it with TLC'
NOTE = 'every recorded history is judged step by step by TLC against the ledger specification; bounded by the histories generated'
T = {}
for i in range(1, 14): T['C%02d' % i] = (TRACE, NOTE)
NA = {}
exec(open(H + '/tools/manifest_extra.py').read()) if os.path.exists(H + '/tools/manifest_extra.py') else None
m = {'version': 1,
     'setup_cmd': "bash -c '. /opt/vp/env.sh; cd harness && cargo build --release --offline && cd .. && mkdir -p build/java && javac -cp /opt/veriftools/tla/tla2tools.jar -d build/java spec/java/BigNum.java'",
     'checks': [{'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                 'technique': T[p['id']][0], 'level': 'model_checking', 'level_note': T[p['id']][1]} for p in props if p['id'] in T],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'not built yet')} for p in props if p['id'] not in T]}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
