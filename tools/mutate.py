"""Mutation testing of the checks: tools/mutate.py N OUT [FILE...].

Makes N random mutants of every source file of the properties in scratch copies
of /repo (never in /repo), and runs the quick checks anchored in that file on
each.  Survivors go to OUT with their diff, to be judged by hand.
"""

import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('MUTATE_JOBS', 4))
SEED = os.environ.get('MUTATE_SEED', '1')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '*', ast.Pow: '*'}


def mutants(src):
  """All (line, description, start, end, replacement) of a source text."""
  tree = ast.parse(src)
  lines = src.encode().split(b'\n')
  starts = [0]
  for l in lines:
    starts.append(starts[-1] + len(l) + 1)
  at = lambda line, col: starts[line - 1] + col
  seg = lambda n: src.encode()[at(n.lineno, n.col_offset):
                               at(n.end_lineno, n.end_col_offset)].decode()
  out = []

  def add(node, new, what):
    out.append((node.lineno, what, at(node.lineno, node.col_offset),
                at(node.end_lineno, node.end_col_offset), new))

  skip = set()
  for node in ast.walk(tree):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
      for ann in ast.walk(getattr(node, 'returns', None) or ast.Pass()):
        skip.add(ann)
    if isinstance(node, ast.arg) and node.annotation:
      skip.update(ast.walk(node.annotation))
    if isinstance(node, ast.AnnAssign):
      skip.update(ast.walk(node.annotation))
    if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
      skip.update(ast.walk(node))
    if isinstance(node, ast.Call) and 'logging' in ast.dump(node.func):
      skip.update(ast.walk(node))
    if isinstance(node, ast.JoinedStr):
      skip.update(ast.walk(node))
  for node in ast.walk(tree):
    if node in skip:
      continue
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
      op = type(node.ops[0])
      if op in CMP:
        add(node, f'({seg(node.left)} {CMP[op]} {seg(node.comparators[0])})',
            'comparison')
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
      add(node, f'({seg(node.left)} {BIN[type(node.op)]} {seg(node.right)})',
          'operator')
    elif isinstance(node, ast.BoolOp):
      word = ' or ' if isinstance(node.op, ast.And) else ' and '
      add(node, '(' + word.join(f'({seg(v)})' for v in node.values) + ')',
          'and/or')
      add(node, f'({seg(node.values[0])})', 'only the first condition')
      add(node, f'({seg(node.values[-1])})', 'only the last condition')
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
      add(node, f'({seg(node.operand)})', 'sign')
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
      add(node, f'({seg(node.operand)})', 'not')
    elif isinstance(node, ast.Constant):
      v = node.value
      if isinstance(v, bool):
        add(node, str(not v), 'constant')
      elif isinstance(v, int):
        add(node, str(v + 1), 'constant')
      elif isinstance(v, float):
        add(node, repr(v * 1.05 if v else 0.05), 'constant')
    elif isinstance(node, (ast.If, ast.While)) and isinstance(node, ast.If):
      add(node.test, f'(not ({seg(node.test)}))', 'condition')
    elif isinstance(node, ast.Call):
      if len(node.args) == 2 and not node.keywords:
        a, b = node.args
        add(node, f'{seg(node.func)}({seg(b)}, {seg(a)})', 'arguments')
      name = seg(node.func)
      for x, y in (('min', 'max'), ('max', 'min'), ('np.sin', 'np.cos'),
                   ('np.cos', 'np.sin'), ('math.sin', 'math.cos'),
                   ('math.cos', 'math.sin'), ('np.floor', 'np.ceil'),
                   ('np.argmax', 'np.argmin'), ('np.minimum', 'np.maximum')):
        if name == x:
          add(node.func, y, 'function')
    elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
        isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
      if isinstance(node, ast.Assign) and node.col_offset == 0:
        continue
      if isinstance(node, ast.Assign) and not isinstance(
          node.targets[0], ast.Attribute):
        continue
      add(node, 'pass', 'statement removed')
  return out


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def job(args):
  k, file, m, checks, jobs = args
  line, what, a, b, new = m
  d = f'/tmp/mutants/{os.getpid()}-{k}'
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs(d)
  for x in ('balloon_learning_environment', 'setup.py', 'README.md'):
    (shutil.copytree if os.path.isdir(f'{REPO}/{x}') else shutil.copy)(
        f'{REPO}/{x}', f'{d}/{x}')
  src = open(f'{d}/{file}', 'rb').read()
  mut = src[:a] + new.encode() + src[b:]
  open(f'{d}/{file}', 'wb').write(mut)
  diff = sh(['diff', '-U1', f'{REPO}/{file}', f'{d}/{file}'], '/').stdout
  res, t0 = None, time.time()
  try:
    compile(mut, file, 'exec')
  except SyntaxError:
    res = 'syntax'
  for c in checks if res is None else []:
    try:
      r = sh(['./check', c, '--no-evidence', '--jobs', str(jobs)], ROOT, timeout=900,
             env=dict(os.environ, VERIF_REPO=d))
      if r.returncode == 1:
        res = 'caught ' + c
        break
      if r.returncode:
        res = f'broken {c} {r.returncode} {(r.stdout + r.stderr)[-300:]}'
    except subprocess.TimeoutExpired:
      res = 'timeout ' + c
      break
  shutil.rmtree(d)
  return dict(file=file, line=line, what=what, result=res or 'SURVIVED',
              checks=checks, diff='\n'.join(diff.split('\n')[2:]),
              seconds=round(time.time() - t0))


def main():
  n, out = int(sys.argv[1]), sys.argv[2]
  only = sys.argv[3:]
  by_file = {}
  for l in open(f'{ROOT}/properties.jsonl'):
    p = json.loads(l)
    for f in p['anchors']['files']:
      if f.endswith('.py') and 'strata_seeds' not in f:
        by_file.setdefault(f, []).append(p['id'])
  todo = []
  for f in sorted(by_file):
    if only and not any(o in f for o in only):
      continue
    ms = mutants(open(f'{REPO}/{f}').read())
    random.Random(f'{SEED}{f}').shuffle(ms)
    todo += [(f, m, by_file[f]) for m in ms[:n]]
  random.Random(int(SEED)).shuffle(todo)
  with concurrent.futures.ThreadPoolExecutor(JOBS) as ex, open(out, 'a') as o:
    jobs = [(k, f, m, c, max(1, 8 // JOBS)) for k, (f, m, c) in enumerate(todo)]
    for r in ex.map(job, jobs):
      o.write(json.dumps(r) + '\n')
      o.flush()
  print(len(todo), 'mutants')


if __name__ == '__main__':
  main()
