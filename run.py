"""Runs the check of one property: run.py ID [--replay FILE] [--scale X]."""

import argparse
import concurrent.futures as cf
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SOFT_BUDGET = {'quick': 300.0, 'thorough': 3600.0 * 6}
SHRINK_SECONDS = 25.0


def setup_paths():
  for p in (os.path.join(HERE, 'vendor'), HERE, REPO):
    if p in sys.path:
      sys.path.remove(p)
  sys.path.insert(0, REPO)
  sys.path.insert(1, HERE)
  sys.path.append(os.path.join(HERE, 'vendor'))


setup_paths()

from vlib import core  # pylint: disable=wrong-import-position


class ImportViolation(Exception):
  """A module under test cannot be imported."""


class CaseTimeout(BaseException):
  pass


def load_checks(prop):
  """Imports checks/<prop>_*.py, which registers its sub-checks."""
  mods = sorted(glob.glob(os.path.join(HERE, 'checks', prop.lower() + '_*.py')))
  if not mods:
    raise core.HarnessError(f'no check for {prop}')
  for m in mods:
    name = 'checks.' + os.path.basename(m)[:-3]
    try:
      importlib.import_module(name)
    except Exception as e:  # pylint: disable=broad-except
      if in_repo(e):
        raise ImportViolation(traceback.format_exc()) from e
      raise
  ble = sys.modules.get('balloon_learning_environment')
  if ble is not None:
    where = os.path.abspath(list(ble.__path__)[0])
    if not where.startswith(os.path.abspath(REPO) + os.sep):
      raise core.HarnessError(f'code under test imported from {where}')
  return core.REGISTRY[prop]


def in_repo(exc):
  """Whether an import failed inside (or looking for) the code under test."""
  while exc is not None:
    if any(REPO + '/' in (f.filename or '')
           for f in traceback.extract_tb(exc.__traceback__)):
      return True
    if isinstance(exc, ImportError) and 'balloon_learning_environment' in str(
        exc):
      return True
    exc = exc.__cause__ or exc.__context__
  return False


def short_tb(exc):
  tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
  s = ''.join(tb)
  return s if len(s) < 6000 else s[:2000] + '\n...\n' + s[-4000:]


def evaluate(s, case):
  """Evaluates one case; returns (ctx, None) or (ctx, exception)."""
  ctx = core.Ctx()

  def on_alarm(signum, frame):
    raise CaseTimeout()

  signal.signal(signal.SIGALRM, on_alarm)
  signal.alarm(s.case_timeout)
  try:
    s.fn(case, ctx)
    return ctx, None
  except core.HarnessError:
    raise
  except CaseTimeout:
    return ctx, core.Violation(
        f'case did not finish within {s.case_timeout} s')
  except (MemoryError, KeyboardInterrupt):
    raise
  except Exception as e:  # pylint: disable=broad-except
    return ctx, e
  finally:
    signal.alarm(0)


def derive_seed(*parts):
  h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
  return int.from_bytes(h[:8], 'big')


class BlockResult:

  def __init__(self):
    self.evaluations = 0
    self.hashes = set()
    self.nontrivial = set()
    self.labels = {}
    self.samples = []
    self.knowns = {}
    self.failure = None   # (case, message)
    self.error = None
    self.secs = 0.0


def quiet(scratch):
  """Sends this worker's stdout and stderr to a log in its scratch folder."""
  if not os.environ.get('VERIF_VERBOSE'):
    fd = os.open(os.path.join(scratch, 'log'),
                 os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def run_block(prop, name, block, n, seed, scratch):
  """Worker entry: evaluates n generated cases of one sub-check."""
  t0 = time.time()
  res = BlockResult()
  os.makedirs(scratch, exist_ok=True)
  quiet(scratch)
  os.environ['VERIF_SCRATCH'] = scratch
  os.environ['TMPDIR'] = scratch
  tempfile.tempdir = scratch
  os.environ.setdefault('MPLCONFIGDIR', os.path.join(scratch, 'mpl'))
  try:
    try:
      s = load_checks(prop)[name]
    except ImportViolation as e:
      res.failure = ({'import': True}, str(e)[-3000:])
      return res
    _drive(s, block, n, seed, res, scratch)
  except BaseException as e:  # pylint: disable=broad-except
    res.error = short_tb(e)
  res.secs = time.time() - t0
  return res


def _drive(s, block, n, seed, res, scratch):
  state = {'first_fail': None, 'best': None, 'started': False}

  def record(case, ctx):
    res.evaluations += 1
    h = core.case_hash(case)
    if ctx.is_nontrivial:
      if h not in res.nontrivial and len(res.samples) < 3:
        res.samples.append(case)
      res.nontrivial.add(h)
    res.hashes.add(h)
    for l in ctx.labels:
      res.labels[l] = res.labels.get(l, 0) + 1
    for fid, detail in ctx.knowns:
      res.knowns.setdefault(fid, detail)

  if s.cases is not None:
    allc = s.cases()
    for case in allc[block::s.blocks]:
      ctx, exc = evaluate(s, case)
      record(case, ctx)
      if exc is not None:
        res.failure = (case, short_tb(exc))
        return
    return

  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings
  from hypothesis.configuration import set_hypothesis_home_dir
  from hypothesis.internal.conjecture import engine
  set_hypothesis_home_dir(os.path.join(scratch, 'hyp'))
  # Every second block generates each case afresh: Hypothesis otherwise spends
  # most of a block on mutants that duplicate values within the previous case.
  # The simplest case is evaluated in block 0 only.
  if not hasattr(engine, 'ble_mutate'):
    engine.ble_mutate = engine.ConjectureRunner.generate_mutations_from
  engine.ConjectureRunner.generate_mutations_from = (
      engine.ble_mutate if block % 4 == 3 else lambda self, data: None)
  skip_simplest = block > 0

  def body(case):
    now = time.time()
    if skip_simplest and not state['started']:
      state['started'] = True
      return
    if (state['first_fail'] is not None and
        now - state['first_fail'] > SHRINK_SECONDS):
      return   # Stop shrinking; the best failing case is recorded already.
    ctx, exc = evaluate(s, case)
    if state['first_fail'] is None:
      record(case, ctx)
    if exc is not None:
      if state['first_fail'] is None:
        state['first_fail'] = now
      size = len(core.canon(case))
      if state['best'] is None or size <= state['best'][0]:
        state['best'] = (size, case, short_tb(exc))
      raise core.Violation('case failed')

  test = settings(
      max_examples=n + (1 if skip_simplest else 0), database=None, deadline=None, print_blob=False,
      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
      phases=[Phase.generate, Phase.shrink],
      verbosity=hypothesis.Verbosity.quiet)(given(s.strategy())(body))
  test = hypothesis.seed(derive_seed(seed, s.prop, s.name, block))(test)
  try:
    test()
  except core.HarnessError:
    raise
  except BaseException:  # pylint: disable=broad-except
    if state['best'] is None:
      raise
  if state['best'] is not None:
    res.failure = (state['best'][1], state['best'][2])


def load_known():
  path = os.path.join(HERE, 'known_findings.json')
  with open(path) as f:
    return {e['id']: e for e in json.load(f)['findings']}


def setup():
  """Nothing is compiled: checks that the tools and the code import."""
  import hypothesis
  import numpy
  importlib.import_module('balloon_learning_environment.env.balloon_env')
  print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)
  return 0


def main():
  if sys.argv[1:] == ['--setup']:
    return setup()
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--replay')
  ap.add_argument('--scale', type=float, default=1.0)
  ap.add_argument('--only', default=None)
  ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
  ap.add_argument('--no-evidence', action='store_true')
  args = ap.parse_args()
  prop = args.prop
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in SOFT_BUDGET:
    tier = 'quick'

  scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
  try:
    if args.replay:
      return replay(prop, args.replay, scratch)
    return explore(prop, args, seed, tier, scratch)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, path, scratch):
  with open(path) as f:
    rep = json.load(f)
  os.environ['VERIF_SCRATCH'] = os.environ['TMPDIR'] = scratch
  tempfile.tempdir = scratch
  try:
    subs = load_checks(prop)
  except ImportViolation as e:
    print(e)
    print(f'VIOLATION property={prop} replay={path}')
    return 1
  if rep['case'] == {'import': True}:
    print('replay: modules import')
    return 0
  ctx, exc = evaluate(subs[rep['sub']], rep['case'])
  if exc is None:
    print(f'replay: {prop}.{rep["sub"]} holds for this case; '
          f'labels={sorted(ctx.labels)} knowns={ctx.knowns}')
    return 0
  print(short_tb(exc))
  print(f'VIOLATION property={prop} replay={path}')
  return 1


def list_subs(prop, conn, scratch):
  quiet(scratch)
  try:
    conn.send(('ok', {n: (s.quick, s.thorough, s.blocks, s.rule,
                          s.cases is not None)
                      for n, s in load_checks(prop).items()}))
  except ImportViolation as e:
    conn.send(('import', str(e)))
  except BaseException as e:  # pylint: disable=broad-except
    conn.send(('error', short_tb(e)))


def write_replay(prop, sub_name, case, msg, seed, tier):
  d = os.path.join(HERE, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f'{prop}-{sub_name}-{core.case_hash(case)}.json')
  with open(path, 'w') as f:
    json.dump({'property': prop, 'sub': sub_name, 'case': case,
               'message': msg, 'seed': seed, 'tier': tier}, f, indent=1)
  return path


def explore(prop, args, seed, tier, scratch):
  t0 = time.time()
  mpc = mp.get_context('spawn')
  parent, child = mpc.Pipe()
  p = mpc.Process(target=list_subs, args=(prop, child, scratch))
  p.start()
  child.close()
  try:
    kind, info = parent.recv()
  except EOFError:
    print('harness: listing process died', file=sys.stderr)
    return 2
  p.join()
  if kind == 'error':
    print(info, file=sys.stderr)
    return 2
  violation = None
  results = {}
  errors = []
  skipped = 0
  if kind == 'import':
    violation = ('import', {'import': True}, info)
    info = {}
  if args.only:
    info = {k: v for k, v in info.items() if k in args.only.split(',')}

  tasks = []
  for name, (quick, thorough, blocks, _, enum) in info.items():
    n = max(1, int((quick if tier == 'quick' else thorough) * args.scale))
    nb = blocks if enum else min(n, blocks if tier == 'quick' else blocks * 8)
    for b in range(nb):
      size = n // nb + (1 if b < n % nb else 0)
      tasks.append((b, name, size))
  tasks.sort(key=lambda t: t[0])   # Interleave the sub-checks.

  if tasks:
    ex = cf.ProcessPoolExecutor(min(args.jobs, len(tasks)), mp_context=mpc)
    futs = {}
    for i, (b, name, size) in enumerate(tasks):
      f = ex.submit(run_block, prop, name, b, size, seed,
                    os.path.join(scratch, f'w{i}'))
      futs[f] = name
    pending = set(futs)
    try:
      while pending and violation is None:
        done, pending = cf.wait(pending, timeout=5,
                                return_when=cf.FIRST_COMPLETED)
        for f in sorted(done, key=lambda f: list(futs).index(f)):
          if f.cancelled():
            skipped += 1
            continue
          r = f.result()
          results.setdefault(futs[f], []).append(r)
          if r.error:
            errors.append(f'{futs[f]}: {r.error}')
          if r.failure and violation is None:
            violation = (futs[f],) + r.failure
        if time.time() - t0 > SOFT_BUDGET[tier]:
          for f in pending:
            f.cancel()
    except cf.process.BrokenProcessPool as e:
      errors.append(f'a worker process died: {e}')
    procs = list((getattr(ex, '_processes', None) or {}).values())
    if violation is not None or errors:
      ex.shutdown(wait=False, cancel_futures=True)
      for pr in procs:
        pr.kill()
    else:
      ex.shutdown(wait=True)

  # ------------------------------------------------------------- evidence
  known = load_known()
  per_sub, knowns_hit = {}, {}
  total = nontriv = 0
  samples = []
  for name, rs in results.items():
    hashes, nts, labels, ex_s = set(), set(), {}, []
    ev = 0
    for r in rs:
      ev += r.evaluations
      hashes |= r.hashes
      nts |= r.nontrivial
      for k, v in r.labels.items():
        labels[k] = labels.get(k, 0) + v
      ex_s += r.samples[:1]
      knowns_hit.update({k: v for k, v in r.knowns.items()
                         if k not in knowns_hit})
    per_sub[name] = {'evaluations': ev, 'distinct': len(hashes),
                     'distinct_nontrivial': len(nts), 'rule': info[name][3],
                     'exhaustive': info[name][4],
                     'labels': dict(sorted(labels.items())),
                     'cpu_s': round(sum(r.secs for r in rs), 1)}
    total += ev
    nontriv += len(nts)
    for c in ex_s[:2]:
      txt = core.canon(c)
      samples.append({'sub': name, 'case': c if len(txt) < 1500
                      else txt[:1500] + '...'})
  unlisted = [k for k in knowns_hit
              if k not in known or known[k]['property'] != prop]
  if unlisted and violation is None:
    violation = ('known', {'unlisted': unlisted}, str(knowns_hit))
  wall = time.time() - t0
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': total, 'distinct_nontrivial': nontriv,
          'rule': '; '.join(f'{n}: {d["rule"]}' for n, d in per_sub.items()),
          'samples': samples or ['none'],
          'sub_checks': per_sub,
          'blocks_not_run_for_time': skipped,
          'known_findings_hit': sorted(knowns_hit),
      },
      'wall_s': round(wall, 2),
      'violations': 0 if violation is None else 1,
  }
  if not args.no_evidence:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
      json.dump(evidence, f, indent=1)
  for n, d in per_sub.items():
    print(f'{prop}.{n}: {d["evaluations"]} cases, {d["distinct_nontrivial"]} '
          f'distinct non-trivial, {d["cpu_s"]} cpu-s')
  if violation is not None:
    name, case, msg = violation
    print(msg)
    path = write_replay(prop, name, case, msg, seed, tier)
    print(f'VIOLATION property={prop} replay={path}', flush=True)
    return 1
  if errors:
    print('\n'.join(errors), file=sys.stderr)
    return 2
  for k in sorted(knowns_hit):
    print(f'KNOWN-FINDING: property={prop} {k}: {known[k]["what"]}')
  if total == 0:
    print('harness: no case was evaluated', file=sys.stderr)
    return 2
  print(f'OK property={prop} evaluations={total} nontrivial={nontriv} '
        f'wall={wall:.1f}s')
  return 0


if __name__ == '__main__':
  sys.exit(main())
