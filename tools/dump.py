"""Development aid: every alarm of the engine in one mode, as text."""
import sys
sys.path.insert(0, '/verif')
from sa import engine, project as P, models
INFO = ('escape', 'field', 'handler', 'print', 'file-call', 'new',
        'store-attr', 'map', 'layout-request', 'debug-get', 'ext-call',
        'unknown-call', 'getattr-default', 'open', 'helper')


def main():
  mode = sys.argv[1] == '1'
  it = engine.analyse(P.Project(), mode)
  print('#', it.wall, len(it.summaries))
  rows = []
  for e in it.events.values():
    if e.kind in INFO:
      continue
    rows.append((e.rel, e.line, e.kind, e.func.split(':')[-1], e.text,
                 'D' if e.debug else ''))
  org = {}
  for f, sa_, env in it.roots:
    if not f.module.name.startswith('dtformats'):
      continue
    s = it.summaries[(f.q, sa_, tuple(sorted(env.items())))]
    for exc, o in s.exc:
      org.setdefault((exc, o), set()).add(f.q)
  for (exc, o), roots in org.items():
    b = models.exc_bases(it, exc)
    if 'OSError' in b or exc.endswith(':ParseError') or (
        exc in models.UNTRACKED):
      continue
    rows.append((o[1], o[3], 'EXC', o[2].split(':')[-1],
                 '%s %s' % (exc, o[4]), '%d %s' % (
                     len(roots), sorted(roots)[0].split(':')[-1])))
  for r in sorted(rows):
    print(*r)


engine.big_stack(main)
