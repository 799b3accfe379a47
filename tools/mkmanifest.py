"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification (pyvc: contracts on the functions of /repo, extracted and discharged on every run), bounded replay as labelled stand-in'
NOTES = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
run = 'PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m checks.run %s'
m = dict(version=1, setup_cmd='PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m checks.setup', checks=[], not_applicable=[])
for i in ids:
    c = NOTES.get(i)
    if c and 'na' not in c:
        m['checks'].append(dict(property=i, quick_cmd=run % i, thorough_cmd='VERIF_TIER=thorough ' + run % i, evidence_file='evidence/%s.json' % i,
                                technique=TECH, level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=(c or {}).get('na', 'no contract tasks for this property have been built yet')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
