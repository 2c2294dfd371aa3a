"""C04: enabling debug output never changes what is parsed."""

from checks import common
from sa import both
from sa import models


def live_functions(it):
  """Functions that are called other than from debug output."""
  called = set()
  for x in it.live_calls.values():
    called |= x
  anyhow = {b for _, b in it.call_edges}
  # An entry point that the library itself only calls for debug output.
  todo = [f.q for f, _, _ in it.roots
          if f.q in called or f.q not in anyhow]
  seen = set()
  while todo:
    q = todo.pop()
    if q in seen:
      continue
    seen.add(q)
    todo.extend(it.live_calls.get(q, ()))
  return seen


def made_by_call(it, e):
  """Allocation sites of the call that has an effect, through its callees."""
  out = set()
  seen = set()
  todo = [k for line, col, k in it.callees.get(e.data['key'], ())
          if line == e.line and col == e.data['col']]
  while todo:
    k = todo.pop()
    if k in seen:
      continue
    seen.add(k)
    out |= it.allocs.get(k, set())
    todo.extend(x[2] for x in it.callees.get(k, ()))
  return out


def judge(it, e, live):
  """Why an effect under debug output matters, or None."""
  eff = e.data['effect']
  if eff[0] == 'file':
    return None    # the position is followed by debug-position
  if eff[0] == 'attr':
    if eff[2:] == (True,):
      return 'attribute %s of a result is set' % eff[1]
    readers = it.live_reads.get(eff[1], set()) & live
    if eff[1] != 'setattr' and not readers:
      return None
    return 'attribute %s is set, which %s reads' % (
        eff[1], sorted(readers)[0].split(':')[-1] if readers else 'anything')
  if eff[0] == 'mut':
    h = it.heap.get(eff[1])
    if h is not None and h.elem and all(
        t[0] in ('map', 'none') for t in h.elem):
      return None  # a cache of data type maps
    if eff[1] in made_by_call(it, e):
      return None
    return 'a %s is modified that was made at %s:%d' % (
        h.kind if h else 'container', eff[1][0], eff[1][2])
  return 'effect %s' % (eff,)


def extract(it):
  live = live_functions(it)
  effects = []
  n = 0
  for e in it.events.values():
    if e.kind == 'debug-effect':
      n += 1
      why = judge(it, e, live)
      if why and e.rel.startswith('dtformats'):
        effects.append((e.rel, e.func.split(':')[-1], e.line,
                        e.data['effect'][0], str(e.data['effect'][1])
                        if e.data['effect'][0] == 'attr' else '', why))
  raises = []
  for e in it.events.values():
    if e.kind == 'debug-raise':
      b = models.exc_bases(it, e.data['exc'])
      if 'OSError' not in b:
        raises.append((e.rel, e.func.split(':')[-1], e.line, e.text))
  ev = common.events(it, ('debug-control', 'debug-def', 'debug-position'))
  inside = sum(1 for e in it.events.values() if e.debug)
  return {'stats': common.stats(it), 'events': ev, 'effects': effects,
          'raises': raises, 'n': n, 'inside': inside,
          'live': len(live)}


def check(rep):
  rep.rule(
      'Code that only one of the two debug modes executes (branches on a '
      'value derived from the debug setting, and what they call) does not '
      'return, raise, break, continue, yield or let a parse error or another '
      'exception of the content escape; names that it binds are not used '
      'outside of it; attributes that it sets are not read outside of it; '
      'containers that it did not make are not modified; and no read relies '
      'on the file position that it leaves.')
  rep.assume('Reading a file for debug output does not fail with an I/O error '
             'that reading it otherwise would not meet.')
  rep.assume('The cache of data type maps only holds what its keys name.')
  results = both.run(extract)
  common.add_stats(rep, results)
  names = {'debug-control': 'control flow of debug output',
           'debug-def': 'value of debug output used outside',
           'debug-position': 'file position of debug output'}
  for r in results:
    rep.count('ob:effects under debug output', r['n'])
    rep.count('ob:constructs under debug output', r['inside'])
    for e in r['events']:
      rep.add(names[e['kind']], common.where(e), e['text'],
              'depends on whether debug output is enabled: %s' % e['text'],
              e['line'])
    for rel, func, line, kind, what, why in r['effects']:
      rep.add('effect of debug output', '%s:%s' % (rel, func), '%s %s %s' % (
          kind, what, why), why, line)
    for rel, func, line, text in r['raises']:
      rep.add('exception of debug output', '%s:%s' % (rel, func), text,
              'debug output can fail: %s' % text, line)
  rep.need('ob:constructs under debug output', 200)
