"""C05: malformed content is reported as a parse error."""

from checks import common
from sa import both
from sa import models

GUARDS = 'dtformats/data_format.py'


def extract(it):
  """Origins of the exceptions that reach an entry point."""
  out = {}
  roots = 0
  for f, sa_, env in it.roots:
    if f.cls is None or f.cls.name == 'DataRange':
      continue
    if not f.module.name.startswith('dtformats'):
      continue
    s = it.summaries[(f.q, sa_, tuple(sorted(env.items())))]
    roots += 1
    for exc, o in s.exc:
      b = models.exc_bases(it, exc)
      if 'OSError' in b or exc in models.UNTRACKED or exc.endswith(
          ':ParseError'):
        continue
      out.setdefault((exc, o), []).append(f.q.split(':')[-1])
  # Arguments that were not given: raised where an argument can be None.
  given = set()
  for k, s in it.summaries.items():
    for exc, o in s.exc:
      f = it.p.functions.get(k[0])
      if f is None or o[2] != k[0] or exc != 'ValueError' or o[4] != 'raise':
        continue
      if not any(t[0] in ('none', 'any') for n, v in k[2] for t in v
                 if n != 'self'):
        given.add((exc, o))
  rows = []
  for (exc, o), rs in out.items():
    if (o[1] == GUARDS and exc == 'ValueError' and o[4] == 'raise' and
        (exc, o) not in given):
      continue
    rows.append((exc, o[1], o[2].split(':')[-1], o[3], o[4],
                 sorted(set(rs))))
  emits = {(e.rel, e.func, e.line, e.text) for e in it.events.values()
           if e.kind == 'escape'}
  handlers = {(e.rel, e.func, e.line, e.text) for e in it.events.values()
              if e.kind == 'handler'}
  return {'stats': common.stats(it), 'rows': rows, 'roots': roots,
          'emits': sorted(emits), 'handlers': len(handlers)}


def check(rep):
  rep.rule(
      'The exceptions that each operation can raise are derived from the '
      'types, value ranges and shapes of its operands (text decoding, '
      'decompression, dates, conversions, divisions, indexes, lookups, '
      'formats, seeks and reads with sizes of the content, library calls) and '
      'are propagated through calls, generators and handlers. At each public '
      'method of the library only parse errors and operating system errors '
      'remain.')
  rep.assume('Public methods are called with arguments of the documented '
             'types; an argument that was not given is not content.')
  rep.assume('Third party libraries raise the exceptions that they document, '
             'which are derived from OSError for the libyal libraries.')
  results = both.run(extract)
  common.add_stats(rep, results)
  emits = set()
  for r in results:
    emits |= set(r['emits'])
    for exc, rel, func, line, why, roots in r['rows']:
      rep.add('exception other than a parse error', '%s:%s' % (rel, func),
              '%s: %s' % (exc, why), '%s (%s) reaches the caller of %s' % (
                  exc, why, ', '.join(roots[:3])), line)
  rep.count('ob:public methods', max(r['roots'] for r in results))
  rep.count('ob:operations that can raise', len(emits))
  rep.count('handlers', max(r['handlers'] for r in results))
  for x in sorted(emits)[::max(1, len(emits) // 20)]:
    rep.sample('%s:%d in %s: %s' % (x[0], x[2], x[1].split(':')[-1], x[3]))
  rep.need('ob:public methods', 150)
  rep.need('ob:operations that can raise', 700)
