"""C10: parser objects do not influence each other."""

import ast

from checks import common
from sa import both
from sa import project as P


def extract(it):
  ev = common.events(it, ('mutate-shared',))
  shared = [h for h in it.heap.values() if h.shared]
  return {'stats': common.stats(it), 'events': ev, 'shared': len(shared)}


def check(rep):
  rep.rule(
      'No reachable operation stores into, adds to, removes from or rebinds '
      'an object that is reachable from a module, a class or a default '
      'argument value, after the module was imported. Objects are followed '
      'through attributes, locals, arguments and return values by allocation '
      'site.')
  rep.assume('Caches inside the third party libraries do not change results.')
  proj = P.Project()
  for m in proj.modules.values():
    fn = common.qualname_of(m.tree)
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Global):
        rep.count('ob:global statements')
        rep.add('global', '%s:%s' % (m.rel, fn.get(n)), ','.join(n.names),
                'rebinds module level names', n.lineno)
  results = both.run(extract)
  common.add_stats(rep, results)
  rep.count('ob:shared objects', max(r['shared'] for r in results))
  for r in results:
    for e in r['events']:
      rep.add('mutation of a shared object', common.where(e), e['text'],
              'modifies %s' % e['text'], e['line'])
  rep.need('ob:shared objects', 100)
