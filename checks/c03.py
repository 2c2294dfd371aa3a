"""C03: debug definitions describe fields that exist."""

from checks import common
from sa import both
from sa import project as P

KINDS = ('type', 'format', 'none', 'compare', 'attribute', 'no-field',
         'unpack', 'arity', 'index')


def extract(it):
  ev = common.events(it, KINDS + ('debug-get', 'no-format', 'no-file'))
  groups = {}
  formatters = {}
  for (kind, what, name), rows in it.computed_attrs.items():
    for group, found, rel, func, line in rows:
      where = '%s:%s' % (rel, func)
      if kind == 'struct':
        fn = group[-1] if group else None
        groups.setdefault((str(group), it.p and fn), {}).setdefault(
            name, []).append(('%s:%s' % what, found, where, line))
      else:
        formatters.setdefault(name, []).append((what, found, where, line))
  # The functions that format a value, and what they call.
  names = set(formatters)
  inside = {q.split(':')[-1] for q in common.analysed(it)
            if q.split('.')[-1] in names}
  return {'stats': common.stats(it), 'events': ev, 'groups': groups,
          'formatters': formatters, 'inside': inside}


def check(rep):
  rep.rule(
      'With debug output enabled: each lookup in a debug information '
      'dictionary finds its key; each entry of a definition that is printed '
      'names a field of at least one layout that it is printed for; its '
      'format has a formatter, which is a method of the printing parser; and '
      'no formatter uses a value of the field in a way its type does not '
      'allow.')
  rep.assume('Structures whose debug information is built at run time '
             '(scripts/analyzer.py) are printed as the layout they are made '
             'from.')
  proj = P.Project()
  (r,) = both.run(extract, modes=(True,))
  common.add_stats(rep, [r, r])
  used = {}
  for e in r['events']:
    if e['kind'] == 'debug-get':
      rep.count('ob:lookups of debug information')
      d = proj.debugs.get(e['file'])
      for k in e['keys']:
        used.setdefault(e['site'], set()).add(k)
        if d is not None and k not in d.entries:
          rep.add('no debug information', common.where(e), '%s:%s' % (
              e['file'], k), '%s does not describe %s' % (e['file'], k),
                  e['line'])
      if d is not None:
        for x in d.errors:
          rep.add('debug definition file', 'dtformats/%s:' % e['file'], x, x)
  for e in r['events']:
    if e['kind'] == 'no-file' and 'debug' in e['text']:
      rep.add('missing debug definition file', common.where(e), e['text'],
              e['text'], e['line'])
    elif e['kind'] == 'no-format' and e['layout'] in used.get(
        e['site'], ()):
      rep.add('no formatter', common.where(e), e['text'], e['text'],
              e['line'])
    elif e['kind'] in KINDS and e['func'] in r['inside']:
      rep.add('formatter and type', common.where(e), e['text'],
              'a formatter of debug output gets a value it can not format: %s'
              % e['text'], e['line'])
  for (group, _), names in sorted(r['groups'].items()):
    for name, rows in sorted(names.items()):
      rep.count('ob:entries of printed definitions')
      if not any(x[1] for x in rows):
        lays = sorted({x[0] for x in rows})
        rep.add('entry without a field', 'dtformats/%s' % lays[0], name,
                'no field %s in %s, of which it is printed' % (
                    name, ', '.join(lays)), rows[0][3])
  for name, rows in sorted(r['formatters'].items()):
    rep.count('ob:formatters')
    for what, found, where, line in rows:
      if not found:
        rep.add('missing formatter', where, '%s.%s' % (
            what.split(':')[-1], name), '%s has no %s' % (what, name), line)
  rep.need('ob:lookups of debug information', 100)
  rep.need('ob:entries of printed definitions', 700)
  rep.need('ob:formatters', 30)
