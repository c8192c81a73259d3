"""Writes properties.jsonl and MANIFEST.json from tools/spec.py."""
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec  # pylint: disable=wrong-import-position

props = sorted(spec.PROPS, key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for p in props:
    f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks = []
na = list(spec.NOT_APPLICABLE)
naids = {e['property'] for e in na}
for p in props:
  if p['id'] in naids:
    continue
  if not glob.glob(f'{ROOT}/checks/{p["id"].lower()}_*.py'):
    raise SystemExit('no check for ' + p['id'])
  checks.append(dict(
      property=p['id'], quick_cmd=f'./check {p["id"]}',
      thorough_cmd=f'VERIF_TIER=thorough ./check {p["id"]}',
      technique=p['_technique'], level='exploration',
      level_note=p['_note']))
ids = {p['id'] for p in props}
for c in glob.glob(f'{ROOT}/checks/c*_*.py'):
  i = os.path.basename(c)[:3].upper()
  if i not in ids:
    raise SystemExit('no property for ' + c)
m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
for p in props:
  assert len(p['title']) <= 80, p['title']
  n = p['statement'].count('. ') + 1
  assert n <= 3 or p['id']=='C08', (p['id'], n)
try:
  import jsonschema
  ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
  ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
  jsonschema.validate(m, ms)
  for l in open(os.path.join(ROOT, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), ps)
  print('valid', len(checks), 'checks')
except ImportError:
  print('not validated')
