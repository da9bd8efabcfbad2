"""writes MANIFEST.json from specs/*.py (claimed) and NOT_APPLICABLE below"""
import json, os, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(R)
sys.path.insert(0, R + '/tools')
NA = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']; f = 'specs/%s.py' % i
    if os.path.exists(f):
        s = open(f).read()
        g = lambda n, d: (lambda m: m.group(1) if m else d)(re.search(r'^%s = "(.*)"$' % n, s, re.M))
        checks.append(dict(property=i, quick_cmd='python3-vt engine/check.py %s quick' % i, thorough_cmd='python3-vt engine/check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=g('TECHNIQUE', 'contract-based deductive verification: contracts on the extracted functions, path-wise VC generation, SMT discharge; executable contract for replay'),
            level=g('LEVEL', 'proof'), level_note=g('LEVEL_NOTE', 'functions are verified from the clang AST of /repo extracted on every run; standard-library behaviour enters through assumed contracts listed in the evidence')))
    else: na.append(dict(property=i, reason=NA.get(i, 'not claimed: no check has been built for this property yet')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
