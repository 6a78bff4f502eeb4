"""write MANIFEST.json: claimed = the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {
 'C01': ('TLA+/TLC: FaceAlg (face matching) model-checked; meshes enumerated by TLC (GenMesh) replayed in the code; every recorded derivation validated by TLC (FaceTrace)',
         'Design exhaustive for up to 2 (3 thorough) cells of every type; code: all fillings of lattices of 1-2 cubes, simulated mixed meshes up to 12 cubes, each shuffled. Assumes CGNS local order, conforming meshes.'),
}
EXTRA = V + '/tools/manifest_text.json'
if os.path.exists(EXTRA):
    TECH.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
NA = {}
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'CFDTOOLS_VERIF', 'enable': 'no hook was needed: the checks observe the public objects of /repo; the guard is not used', 'source_commits': []},
     'notes': 'Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. bin/check <id> [--tier quick|thorough].'}
for p in props:
    i = p['id']
    if i in TECH and os.path.exists(f'{V}/harness/check_{i.lower()}.py'):
        t, n = TECH[i]
        m['checks'].append({'property': i, 'quick_cmd': f'bin/check {i}', 'thorough_cmd': f'bin/check {i} --tier thorough',
                            'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
