#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from components.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/mc')
from components import CHECKS
NA = {}
exec(open(H + '/mc/not_applicable.py').read())
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 run.py check {i} --tier quick', thorough_cmd=f'python3 run.py check {i} --tier thorough',
                                technique=c.get('technique', 'bounded exhaustive model checking of the real code against a reference model'), level='model_checking',
                                level_note=c.get('note', 'Exhaustive within the stated bounds, on the implementation itself; nothing is claimed for larger inputs. ') + ' Trusts: ' + '; '.join(c.get('assumptions', ['the reference model'])) + '.'))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
