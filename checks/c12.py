"""C12: content with an unsupported signature or version is rejected."""

import concurrent.futures
import json
import multiprocessing
import os

from sa import dispatch
from sa import engine
from sa import project as P
from sa import reject

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'spec', 'signatures.json')


DISPATCH = os.path.join(os.path.dirname(SPEC), 'dispatch.json')


def _job(args):
  kind, args = args
  if kind == 'dispatch':
    return dispatch.job(args)
  repo, mode, fabric, over, group, inside = args
  return engine.big_stack(lambda: reject.run(
      repo, mode, fabric, over, group, inside))


def check(rep):
  rep.rule(
      '1. For each signature, version and marker field, the readers of its '
      'definition file are interpreted with the field having only values that '
      'are not supported (intervals that cover every other integer of its '
      'size, or all other byte strings). From the point where such data is '
      'decoded on, no public method returns normally and nothing is yielded. 2. For each supported value of the fields that '
      'select a layout, the layouts and decompressors that the readers use '
      'when the field has that value are those of the value.')
  rep.assume('Of the versions that are composed of two numbers in a text '
             '(chrome cache), representative numbers are used.')
  repo = P.REPO
  with open(SPEC, encoding='utf8') as f:
    cases = json.load(f)
  proj = P.Project(repo)
  modes = (False, True) if rep.tier == 'thorough' else (False,)
  jobs = []
  for case in cases:
    fab = proj.fabrics.get(case['fabric'])
    if fab is None:
      continue
    for text, over in reject.values_of(fab, case):
      for mode in modes:
        jobs.append((case, text, (repo, mode, case['fabric'], over,
                                  case.get('group'), case.get('inside'))))
  with open(DISPATCH, encoding='utf8') as f:
    table = json.load(f)
  uses = [(case, i, (repo, case, x)) for case in table
          for i, x in enumerate(case['values'])]
  # The longest first.
  jobs.sort(key=lambda j: not j[2][2].startswith(('aul_', 'wmi_')))
  ctx = multiprocessing.get_context('fork')
  met = set()
  with concurrent.futures.ProcessPoolExecutor(
      max_workers=min(8, os.cpu_count() or 1), mp_context=ctx) as pool:
    results = iter(list(pool.map(
        _job, [('reject', j[2]) for j in jobs] +
        [('dispatch', j[2]) for j in uses], chunksize=1)))
    for case, text, _ in jobs:
      r = next(results)
      name = '%s %s %s' % (case['fabric'], '/'.join(case['layouts'][:2]),
                           case['field'])
      if r is None or not r['sites'] or not r['roots']:
        rep.count('cases with no reader')
        continue
      met.add((name, bool(case.get('inside'))))
      rep.count('ob:ranges of unsupported values')
      rep.count('function contexts', r['contexts'])
      rep.sample('%s = %s: decoded in %s, %d entry points, rejected' % (
          name, text, r['sites'][0][1], r['roots']))
      for rel, func, line in r['taken']:
        inner = [x for x in r['through'] if x != func]
        rep.add('unsupported value is taken', '%s:%s' % (rel, func), name,
                'the method returns with %s = %s%s' % (
                    name, text, '; it passes ' + ', '.join(inner[:6])
                    if inner else ''), line)
    for case, i, _ in uses:
      r = next(results)
      name = '%s %s %s' % (case['fabric'], '/'.join(case['layouts']),
                           case['field'])
      if r is None:
        rep.count('cases with no reader')
        continue
      rep.count('ob:values whose layouts were compared')
      x = case['values'][i]
      for n, (what, shape) in enumerate(case['varied']):
        got = dispatch.is_used(r, what, shape)
        if got == (n in case['uses'][i]):
          continue
        rep.add('other layout for a value', 'dtformats/' + case['fabric'],
                '%s = %s: %s' % (name, x, what), 'with %s = %s %s is %s' % (
                    name, x, what, 'used' if got else 'not used'))
  rep.count('ob:fields', len(met))
  rep.need('ob:fields', 50)
  rep.need('ob:values whose layouts were compared', 50)
