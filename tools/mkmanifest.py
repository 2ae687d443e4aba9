"""writes MANIFEST.json from properties.jsonl, the claimed list and the proof groups"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dv import proofs, claims
NA = {}
exec(open(os.path.join(HERE, 'tools', 'na.py')).read())
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    g = proofs.groups(i)
    lv = claims.level(i)
    if g:
        note = ('%d proof groups: the real functions are executed symbolically from /repo source on every run, the contract '
                'obligations are discharged by z3 for all input tables satisfying the preconditions; where a run leaves an '
                'obligation undecided, the sampled CPython check stands in and the evidence says so (bounded). Trusted: '
                'pandas semantics of dv/table.py, real arithmetic, %s.' % (len(g), 'CBC optimality' if i in claims.MARKET else 'CPython'))
        tech = 'contract-based deductive verification: symbolic execution of the real code, VCs discharged by z3'
    else:
        note = 'bounded: sampled runs of the real code judged by the contract; not counted as proved'
        tech = 'contract checked at run time on generated inputs (bounded stand-in)'
    checks.append(dict(property=i, quick_cmd='python3-vt dv/check.py %s --tier quick' % i,
                       thorough_cmd='python3-vt dv/check.py %s --tier thorough' % i, technique=tech, level=lv, level_note=note))
m = dict(version=1, setup_cmd='true', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items() if any(p['id'] == k for p in props)],
         hooks=dict(guard='none', enable='no hooks are used', source_commits=[]),
         notes='see DESIGN.md')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(m['not_applicable']), 'not applicable')
