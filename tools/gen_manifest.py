"""Write MANIFEST.json from properties.jsonl and the modules in mc/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.chdir(V)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open('properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    if not os.path.exists(f'mc/{pid.lower()}.py'):
        na.append({'property': pid, 'reason': 'no explorer has been built for this property yet'})
        continue
    m = importlib.import_module(f'mc.{pid.lower()}')
    checks.append({
        'property': pid,
        'quick_cmd': f'./check.sh {pid} --tier quick',
        'thorough_cmd': f'./check.sh {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': getattr(m, 'TECHNIQUE', 'bounded exhaustive enumeration of the real implementation against an executable reference model (every model trace replayed on the code)'),
        'level': getattr(m, 'LEVEL', 'model_checking'),
        'level_note': getattr(m, 'NOTE', 'Complete within the stated finite alphabet and bounds; says nothing about values outside the alphabet. Trusts numpy/shapely/scipy and the reference model in /verif/mc. ' + ' '.join(getattr(m, 'ASSUMPTIONS', []))),
    })
out = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All explorers import structuralcodes from /repo working tree at run time (no build product, no bytecode cache); no hooks in /repo are needed.',
}
json.dump(out, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
