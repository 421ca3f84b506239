import json, sys
sys.path.insert(0, '/verif/dv')
import registry
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {}
checks = []; na = []
for i in ids:
    if i in registry.SPECS:
        checks.append(dict(property=i, quick_cmd='python3-vt dv/check.py %s --tier quick' % i, thorough_cmd='python3-vt dv/check.py %s --tier thorough' % i,
            technique=registry.technique(i), level=registry.level(i), level_note=registry.note(i)))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='Annotations live in /verif/dv/spec_*.py; nothing is added to /repo (no hooks). known_findings.txt lists the defects repaired by fix: commits.'), open('/verif/MANIFEST.json', 'w'), indent=1)
