"""C02: every field a parser reads exists in the layout it decoded."""

from checks import common
from sa import both


def extract(it):
  ev = common.events(it, ('field', 'no-field', 'getattr-default'))
  return {'stats': common.stats(it), 'events': ev}


def check(rep):
  rep.rule(
      'For every attribute read (x.name, getattr(x, name) without a default) '
      'and every layout that can reach x, followed through locals, '
      'attributes, containers, arguments and return values: name is a member '
      'of the layout, or is set on structures of that layout by the parser.')
  rep.assume('Members that are set on a structure are set before they are '
             'read.')
  results = both.run(extract)
  common.add_stats(rep, results)
  pairs = set()
  for r in results:
    for e in r['events']:
      if e['kind'] == 'field':
        pairs.add((e['rel'], e['func'], e['line'], e['text']))
      elif e['kind'] == 'no-field':
        rep.add('missing field', common.where(e), e['text'],
                e['text'], e['line'])
  rep.count('ob:field reads by layout', len(pairs))
  rep.count('functions that read fields', len({p[:2] for p in pairs}))
  for p in sorted(pairs)[::max(1, len(pairs) // 20)]:
    rep.sample('%s:%s:%d reads %s' % p)
  rep.need('ob:field reads by layout', 900)
