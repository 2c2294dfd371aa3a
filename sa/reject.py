"""Follows data that has to be rejected through the readers.

A case gives one field of a layout a set of values that is not supported. The
program is interpreted with the field having only such values: from the point
where the data is decoded on, states are marked, and no public method may
return normally, or yield, in a marked state.
"""

import ast

from sa import engine
from sa import layouts
from sa import project as P
from sa import values as V


def using(proj, fabric):
  """Modules that name a definition file."""
  out = set()
  for m in proj.modules.values():
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Constant) and n.value == fabric:
        out.add(m.name)
  return out


def cells(accepted, size, signed=False):
  """The integers of a size that are not accepted, as intervals."""
  lo = -(1 << (8 * size - 1)) if signed else 0
  hi = (1 << (8 * size - (1 if signed else 0))) - 1
  out = []
  a = lo
  for x in sorted(accepted):
    if x > a:
      out.append((a, x - 1))
    a = x + 1
  if a <= hi:
    out.append((a, hi))
  return out


def run(repo, mode, fabric, overrides, group=None, inside=None):
  """Interprets the readers of a definition file with values overridden.

  overrides: [(layout, field, value)]. group: a structure group and the
  members its data can have. inside: functions that may not return normally
  after such data was met, in place of the public methods. Returns what was
  met.
  """
  proj = P.Project(repo)
  fab = proj.fabrics.get(fabric)
  if fab is None:
    return None
  if group:
    name, kind, members = group
    lay = fab.defs.get(name)
    if lay is None:
      return None
    if kind == 'except':
      members = [m for m in lay.spec.get('members') or []
                 if m not in members] + [None]
    fab.only(name, members)
  for layout, field, value in overrides:
    lay = fab.defs.get(layout)
    if lay is None or field not in lay.by_name:
      return None
    fab.override(layout, field, value)
  mods = using(proj, fabric)
  it = engine.analyse(proj, mode, select=lambda f, sa: (
      f.module.name in mods or sa is not None and sa[0] == 'inst' and
      proj.classes[sa[1]].module.name in mods), keep=[
          t for _, _, v in overrides for t in v if t[0] == 'int'])
  sites = sorted({(e.rel, e.func.split(':')[-1], e.text)
                  for e in list(it.events.values()) if e.kind == 'bad'})
  used = set()
  for e in list(it.events.values()):
    if e.kind == 'map':
      used.add('%s:%s' % e.data['layout'])
    elif e.kind == 'ext-call':
      used.add(e.text + '()')
  taken = []
  seen = 0
  if inside:
    for k, s in it.summaries.items():
      f = it.p.functions.get(k[0])
      if f is None or k[0].split(':')[-1] not in inside:
        continue
      seen += 1
      if s.mark_out & 2 or s.yield_mark & 2:
        taken.append((f.module.rel, k[0].split(':')[-1], f.node.lineno))
  else:
    for f, sa, env in it.roots:
      key = (f.q, sa, tuple(sorted(env.items())))
      s = it.summaries.get(key)
      if s is None:
        continue
      seen += 1
      if s.mark_out & 2 or s.yield_mark & 2:
        taken.append((f.module.rel, f.q.split(':')[-1], f.node.lineno))
  # The functions that go on with such data.
  through = set()
  for k, s in it.summaries.items():
    if s.mark_out & 2 or s.yield_mark & 2:
      through.add(k[0].split(':')[-1])
  return {'sites': sites, 'taken': sorted(set(taken)),
          'through': sorted(through), 'roots': seen,
          'contexts': len(it.summaries), 'used': used}


def values_of(fab, case):
  """The abstract values that a case gives to its fields.

  Returns [(text, [(layout, field, value)])].
  """
  if case.get('members'):
    return [('another member', [])]
  if 'pairs' in case:
    return [('%d.%d' % (a, b), [
        x for n in case['layouts'] for x in (
            (n, case['field'], V.int_const(a)),
            (n, case['second'], V.int_const(b)))]) for a, b in case['pairs']]
  if 'bytes' in case:
    acc = frozenset(x.encode('latin-1') for x in case['bytes'])
    n = {len(x) for x in acc}
    vals = [('not %s' % ', '.join(repr(x) for x in sorted(acc)), frozenset(
        [('bytes', None, min(n), max(n), frozenset([('not', acc)]))]))]
  else:
    cs = cells(case['integers'], case['size'], case.get('signed', False))
    vals = [('%d' % a if a == b else '%d to %d' % (a, b), V.int_range(a, b))
            for a, b in cs]
  out = []
  seen = set()
  for text, v in vals:
    over = [(n, case['field'], v) for n in case['layouts']]
    # Cells that leave nothing where the layout has the values of a field are
    # the same case.
    met = []
    for n, f, v in over:
      lay = fab.defs.get(n)
      fl = lay.by_name.get(f) if lay else None
      met.append(layouts._meet(v, fl.values) if fl is not None and fl.values
                 else v)
    key = tuple(met)
    if key in seen:
      continue
    seen.add(key)
    out.append((text, over))
  return out
