"""Planted bugs: tools/bugs.py make [ID...] | try [ID...].

make: writes seeded/<id>/ from the definitions in tools/bugdefs/*.py.
try: in a copy of /repo, runs the stable tests, the demonstration (with and
without the patch) and the check of the property.
"""

import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = '8963fef'
PKG = 'balloon_learning_environment/'
DEMO = '''#!/bin/bash
# Run in the root of the repository; nonzero if the property is broken.
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES=
export TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def defs():
  out = {}
  for f in sorted(glob.glob(f'{HERE}/bugdefs/*.py')):
    for b in runpy.run_path(f)['BUGS']:
      assert b['id'] not in out, b['id']
      out[b['id']] = b
  return out


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def copy(name):
  d = f'/tmp/bugs/{name}'
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs('/tmp/bugs', exist_ok=True)
  shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.pytest_cache'))
  return d


def make(b):
  d = copy('make')
  sh(['git', 'checkout', '-q', '--', '.'], d)
  for file, old, new in b['edits']:
    p = f'{d}/{PKG}{file}'
    s = open(p).read()
    assert s.count(old) == 1, (b['id'], file, s.count(old))
    open(p, 'w').write(s.replace(old, new))
  diff = sh(['git', 'diff'], d).stdout
  gone = [l[1:] for l in diff.split('\n')
          if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
  for file, _, _ in b['edits']:
    base = sh(['git', 'show', f'{BASE}:{PKG}{file}'], d).stdout.split('\n')
    gone = [l for l in gone if l not in base]
  if gone or '\n-' not in diff.replace('\n---', ''):
    print(b['id'], 'LINES NOT ORIGINAL', gone)
  out = f'{ROOT}/seeded/{b["id"]}'
  os.makedirs(out, exist_ok=True)
  open(f'{out}/patch.diff', 'w').write(diff)
  open(f'{out}/demo.sh', 'w').write(DEMO)
  os.chmod(f'{out}/demo.sh', 0o755)
  open(f'{out}/demo.py', 'w').write(b['demo'].lstrip('\n'))
  with open(f'{out}/meta.json', 'w') as f:
    json.dump(dict(property=b['property'], needs=b['needs'],
                   what_it_breaks=b['breaks']), f, indent=1)
  shutil.rmtree(d)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
           TF_CPP_MIN_LOG_LEVEL='3', MPLBACKEND='Agg')


def stable_tests(d, jobs=8):
  """The stable tests that fail in the copy d."""
  work = d + '.work'
  os.makedirs(work, exist_ok=True)
  env = dict(ENV, PYTHONPATH=f'{d}:/opt/vp/pytest_plugins',
             TEST_TMPDIR=work + '/absl', MPLCONFIGDIR=work + '/mpl')
  sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-n', str(jobs), '--dist',
      'loadfile', '-p', 'no:cacheprovider', '-p', 'absl_flags',
      '--timeout=300', '--continue-on-collection-errors', '-o',
      'python_files=*_test.py', '-o', 'junit_family=xunit2',
      f'--junitxml={work}/junit.xml', 'balloon_learning_environment'], d,
     env=env)
  sh(['/usr/bin/python3', '/opt/vp/results.py', f'{work}/out.json',
      f'junit:{work}/junit.xml'], d)
  stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
  passed = set(json.load(open(f'{work}/out.json'))['passed'])
  shutil.rmtree(work)
  return sorted(stable - passed)


def attempt(i, tests=True, checks=None):
  src = f'{ROOT}/seeded/{i}'
  meta = json.load(open(f'{src}/meta.json'))
  d = copy(i)
  line = [i, meta['property']]
  r = sh(['git', 'apply', f'{src}/patch.diff'], d)
  if r.returncode:
    line.append('DOES NOT APPLY ' + r.stderr)
  else:
    if tests:
      bad = stable_tests(d)
      line.append('tests ok' if not bad else f'TESTS FAIL {bad[:3]}')
      r = sh(['bash', f'{src}/demo.sh'], '/repo')
      if r.returncode:
        line.append('DEMO FAILS UNPATCHED ' + (r.stdout + r.stderr)[-500:])
      r = sh(['bash', f'{src}/demo.sh'], d)
      line.append('demo ok' if r.returncode else 'DEMO PASSES PATCHED')
      if r.returncode:
        line.append('[' + (r.stdout + r.stderr).strip().split('\n')[-1][:100]
                    + ']')
    for c in checks or [meta['property']]:
      t = time.time()
      r = sh([f'{ROOT}/check', c], ROOT, env=dict(os.environ, VERIF_REPO=d))
      v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
      line.append(f'{c}: ' + ('caught' if r.returncode == 1 and v else
                              'MISSED' if r.returncode == 0 else
                              f'ERROR {r.returncode}') +
                  f' {time.time() - t:.0f} s')
  shutil.rmtree(d)
  print(' | '.join(line), flush=True)


if __name__ == '__main__':
  cmd, ids = sys.argv[1], sys.argv[2:]
  if cmd == 'make':
    all_ = defs()
    for k in ids or all_:
      make(all_[k])
  elif cmd == 'try':
    for k in ids or sorted(os.listdir(f'{ROOT}/seeded')):
      attempt(k)
  elif cmd == 'checks':    # Only the checks, without tests and demo.
    for k in ids or sorted(os.listdir(f'{ROOT}/seeded')):
      attempt(k, tests=False)
