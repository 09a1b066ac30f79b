"""Writes MANIFEST.json from the checks in harness/checks (run with /opt/venv/bin/python)."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True
import env
env.setup()
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
missing = []
for p in props:
    if not os.path.exists(os.path.join(HERE, 'harness', 'checks', p.lower() + '.py')):
        missing.append(p)
        continue
    c = importlib.import_module('checks.' + p.lower()).Check()
    assert c.prop == p, p
    checks.append(dict(
        property=p, quick_cmd='bash run.sh ' + p, thorough_cmd='VERIF_TIER=thorough bash run.sh ' + p,
        evidence_file='evidence/%s.json' % p, technique=c.technique, level=c.level, level_note=c.level_note))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=[dict(property=p, reason='its check is not built yet') for p in missing],
         notes='No hooks in /repo: backend, clock and timer are supplied by the harness. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'missing', missing)
