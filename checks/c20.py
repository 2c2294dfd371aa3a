"""C20: readers look at the positions the format gives."""

import ast
import json
import os

from sa import padding
from sa import places
from sa import project as P
from sa.report import Broken

SPEC = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'spec', 'places.json')
DECISIONS = os.path.join(os.path.dirname(SPEC), 'decisions.json')


def check(rep):
  rep.rule(
      'Symbolic places: for each place of the library and the tools that '
      'seeks, reads, decodes a structure or text or decompresses outside '
      'debug output, the position, the size and the bytes are derived from '
      'the reaching definitions and written as a sum over fields of decoded '
      'structures, parameters, constants, results of calls and loop '
      'variables (first value and steps); so are the arguments, attributes '
      'and results these are computed from, transitively. The set of places '
      'of each module equals the reviewed set (spec/places.json): a place '
      'that is not in it, and one that is no longer there, is reported. Comparisons of such numbers, as a sum and a boundary '
      'regardless of spelling and polarity, are those of the reviewed version '
      '(spec/decisions.json): a boundary that moved and a comparison of '
      'another value are reported. Padding B - r, with r a remainder by B, is only '
      'computed where the conditions on the path exclude r == 0.')
  rep.assume('The reviewed places are those of the pinned version, which the '
             'tests of the repository read real data with.')
  rep.assume('Renamed layouts, attributes and functions are other places.')
  proj = P.Project()
  with open(SPEC, encoding='utf8') as f:
    spec = {k: set(v) for k, v in json.load(f).items()}
  found, n, functions, tests = places.collect(proj)
  rep.count('functions', functions)
  rep.count('ob:places', n)
  for rel in sorted(set(spec) | set(found)):
    have, want = found.get(rel, {}), spec.get(rel, set())
    rep.count('modules')
    new = sorted(set(have) - want)
    gone = sorted(want - set(have))
    rep.count('ob:places as reviewed', len(want & set(have)))
    for form in new:
      where, line = have[form]
      kind = form.split(': ', 1)[0]
      near = [g for g in gone if g.split(': ', 1)[0] == kind]
      rep.add('place', '%s:%s' % (rel, where), form[:200],
              'data is taken from another place%s' % (
                  '; the reviewed one is: %s' % near[0][:300] if near else ''),
              line)
    if not new:
      for form in gone:
        rep.add('place is not read', rel, form[:200],
                'nothing is taken from this place any more')
  for rel, forms in sorted(found.items()):
    for form in sorted(forms)[:1]:
      rep.sample('%s:%s %s' % (rel, forms[form][0], form[:160]))
  with open(DECISIONS, encoding='utf8') as f:
    decisions = {k: {tuple(x) for x in v} for k, v in json.load(f).items()}
  for where, have in sorted(tests.items()):
    rep.count('ob:boundaries', len(have))
    want = decisions.get(where)
    if want is None:
      continue
    gone = want - set(have)
    for sums, bound in sorted(set(have) - want):
      was = ([b for s, b in sorted(gone) if s == sums] or
             [b for s, b in sorted(want) if s == sums])
      other = [s for s, b in sorted(gone) if b == bound]
      if was:
        rep.add('boundary', where, '%s %s' % (sums[:200], bound),
                'the value is compared with another boundary; reviewed: %s' %
                ', '.join(was[:4]), have[sums, bound])
      elif other:
        rep.add('decision', where, '%s %s' % (sums[:200], bound),
                'another value is tested; the reviewed one is: %s' %
                other[0][:200], have[sums, bound])
  for q, f in sorted(proj.functions.items()):
    for node, guarded in padding.paddings(f.node):
      rep.count('ob:paddings')
      where = '%s:%s' % (f.module.rel, q.split(':')[-1])
      rep.sample('%s:%d padding %s' % (where, node.lineno, ast.unparse(node)))
      if not guarded:
        rep.add('padding', where, 'padding to a multiple',
                'the padding %s is a whole block where the remainder is 0' %
                ast.unparse(node), node.lineno)
  rep.need('ob:places', 800)
  rep.need('ob:boundaries', 200)
  if not spec:
    raise Broken('no reviewed places')
