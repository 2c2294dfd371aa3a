"""C06: a truncated read is never taken for complete data."""

from checks import common
from sa import both


def extract(it):
  ev = common.events(it, ('short-use', 'short-part', 'file-call', 'map'))
  return {'stats': common.stats(it), 'events': ev}


def check(rep):
  rep.rule(
      'What read(n) of a file returns is followed through locals, attributes, '
      'arguments and return values as data that can be short, until its '
      'length is compared on the path or it is mapped onto a layout (which '
      'enforces its size). Short data is not decoded, converted, sliced '
      'into a value, or returned as a value. Data of which only a part is '
      'mapped has its length compared: the layout of a part does not '
      'notice that the rest is missing.')
  results = both.run(extract)
  common.add_stats(rep, results)
  reads, maps = set(), set()
  for r in results:
    for e in r['events']:
      k = (e['rel'], e['func'], e['line'], e['text'])
      if e['kind'] == 'file-call' and e['text'] == 'read':
        reads.add(k)
      elif e['kind'] == 'map':
        maps.add(k)
      elif e['kind'] == 'short-use':
        rep.add('use of data that can be short', common.where(e), e['text'],
                'data is used (%s) although fewer bytes than asked for can '
                'have been read' % e['text'], e['line'])
      elif e['kind'] == 'short-part':
        rel, func, line = e['of'].split('|')
        rep.add('part of data that can be short', '%s:%s' % (rel, func),
                'read', 'a part of what is read is decoded, but nothing '
                'notices that fewer bytes than asked for were read', int(line))
  rep.count('ob:reads', len(reads))
  rep.count('ob:decoding call sites and layouts', len(maps))
  for k in sorted(reads)[:20]:
    rep.sample('%s:%s:%d %s' % k)
  rep.need('ob:reads', 10)
  rep.need('ob:decoding call sites and layouts', 150)
