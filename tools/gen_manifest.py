# writes MANIFEST.json: a property is claimed when a harness decides it
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
har = {}
for f in sorted(os.listdir(os.path.join(V, 'harness'))):
    if f.endswith('.cpp'):
        for m in re.finditer(r'^HARNESS\((\w+),\s*"([^"]*)"', open(os.path.join(V, 'harness', f)).read(), re.M):
            for p in m.group(2).split(','):
                har.setdefault(p, []).append(m.group(1))
COMMON = ('Holds for every value of the symbolic inputs within the stated bounds (evidence: notes of each harness); '
          'real arithmetic unless the harness is named *rounding*; ')
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
NA = {'C32': 'The bindings are built on pybind11 and emscripten; neither is installed here, so the code of '
             'matslise/pyslise and matslise/js cannot be compiled, let alone be executed symbolically.'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in har:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'symbolic execution of the real C++ templates (symbolic scalar type), assertions decided by Z3',
            'level': 'model_checking',
            'level_note': COMMON + NOTES.get(i, '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
json.dump({'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the templates of /repo are instantiated with a symbolic scalar type from outside.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
