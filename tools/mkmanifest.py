"""writes checks.json-driven MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(H, 'checks.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    c = cfg.get(i)
    if c and not c.get('not_applicable'):
        checks.append(dict(property=i, quick_cmd='python3-vt run.py %s' % i, thorough_cmd='python3-vt run.py %s --thorough' % i,
                           technique=c.get('technique', 'contract-based deductive verification: pre/postconditions and loop rules on the real functions, obligations generated from the current source by symbolic execution and discharged by SMT (z3, cvc5)'),
                           level='proof', level_note=c['note']))
    else:
        na.append(dict(property=i, reason=(c or {}).get('not_applicable', 'check under construction')))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='See DESIGN.md. checks.json configures the driver run.py; contracts/ holds the contracts, vc/ the verifier, oracles/ the concrete replay oracles.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
