"""C16: calculated hash values are 32-bit values."""

import ast

from sa import engine
from sa import project as P
from sa import values as V
from sa.report import Broken

LIMIT = 0xffffffff


def is_hash(f):
  """A public module level function that calculates a hash of its argument."""
  return (f.cls is None and f.module.name.startswith('dtformats.') and
          not f.name.startswith('_') and 'hash' in f.name.lower())


def check(rep):
  rep.rule(
      'Interval analysis of every public hash function of the library (by '
      'name: module level functions named *Hash*), for all arguments of the '
      'documented type: each value it can return is an integer in '
      '[0, 4294967295].')
  proj = P.Project()

  def go():
    return engine.analyse(proj, False, lambda f, sa: is_hash(f))
  it = engine.big_stack(go)
  n = 0
  for f, sa_, env in it.roots:
    n += 1
    rep.count('ob:hash functions')
    s = it.summaries[(f.q, sa_, tuple(sorted(env.items())))]
    rep.sample('%s -> %s' % (f.q, V.show(s.ret)))
    rep.count('ob:return statements', sum(
        isinstance(x, ast.Return) for x in ast.walk(f.node)))
    where = '%s:%s' % (f.module.rel, f.name)
    if not s.ret:
      raise Broken('%s has no return value' % f.q)
    for t in s.ret:
      ok = t[0] == 'int' and t[1] is not None and t[2] is not None and (
          0 <= t[1] and t[2] <= LIMIT)
      if t[0] == 'bool':
        ok = True
      if not ok:
        rep.add('range', where, 'return',
                'can return %s' % V.show(frozenset([t])), f.node.lineno)
  rep.need('ob:hash functions', 4)
