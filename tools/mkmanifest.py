"""Write MANIFEST.json: every property with a module in checks/ is claimed."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('solver-based checking: the repository\'s C++ (clang LLVM IR) and Python sources are executed symbolically and each property '
        'assertion is discharged by z3/cvc5 per path; models are replayed against a real build')
NA = {}
NOTES = {}
exec(open(os.path.join(V, 'tools', 'manifest_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        checks.append(dict(property=i, quick_cmd=f'./run {i} quick', thorough_cmd=f'./run {i} thorough', technique=TECH, level='other',
                           level_note=NOTES.get(i, 'Every value of the symbolic inputs within the stated bounds is decided by the solver on every explored path of the real code; sizes and iteration counts are bounded, doubles are reals.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
d = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Checks load /repo\'s current sources (clang -> LLVM IR, Python through the interpreter) on every run; bounds are listed per harness in evidence/<id>.json.')
json.dump(d, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
