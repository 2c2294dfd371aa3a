"""C13: layouts agree with the documented on-disk formats."""

import json
import os

from checks import common
from sa import both
from sa import docmap
from sa import docs
from sa import layouts
from sa import normal
from sa import project as P

SPEC = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'spec')


def fabrics(repo):
  return layouts.load(os.path.join(repo, 'dtformats'))[0]


def forms(fab):
  """{name: [(path, leaf)]} of the definitions of a file."""
  n = normal.Normal(fab)
  out = {}
  for lay in fab.order:
    if lay.type != 'format':
      # Through JSON, as the reference is.
      out[lay.name] = [(tuple(p), json.loads(json.dumps(x)))
                       for p, x in n.layout(lay)]
  return out


def extract(it):
  """The layouts that are asked for, per definition file."""
  out = {}
  for e in common.events(it, ('layout-request', 'map')):
    x = e['layout']
    if isinstance(x, tuple) and len(x) == 2 and x[0] in it.p.fabrics:
      fab = it.p.fabrics[x[0]]
      lay = fab.defs.get(x[1])
      if lay is not None:
        out.setdefault('dtformats/' + x[0], {})[
            json.dumps(normal.Normal(fab).form(lay))] = x[1]
  return {'stats': common.stats(it), 'requested': out}


def short(leaf):
  return json.dumps(leaf)[:160] if leaf is not None else 'nothing'


def documented(rep, fabs, repo):
  """Rule 1: walk structures and documented tables together."""
  tables, orders = docs.load(repo)
  by_key = {t.key: t for t in tables}
  with open(os.path.join(SPEC, 'docmap.json'), encoding='utf8') as f:
    spec = json.load(f)
  for key, s in sorted(spec.items()):
    fn, _, name = key.partition(':')
    lay = fabs[fn].defs.get(name) if fn in fabs else None
    if lay is None or lay.type != 'structure':
      rep.count('documented structures that are no longer defined')
      continue
    if any(k not in by_key for k in s['tables']):
      rep.count('documented tables that are no longer there')
      continue
    where = 'dtformats/%s:%s' % (fn, name)
    rep.count('ob:structures with a documented table')
    title = s['tables'][-1].split('#')[1]
    t = docs.Table(by_key[s['tables'][0]].doc, title, 0, sum(
        [by_key[k].rows for k in s['tables']], []), 0)
    pairs, bad = docmap.compare(fabs[fn], lay, t, s['shift'])
    done = sum(len(r) for _, r, _ in pairs)
    want = sum(len(r) for _, r in s['pairs'])
    rep.count('ob:fields that agree with a documented row', sum(
        len(m) for m, _, _ in pairs))
    if done < want:
      if bad:
        text = '%s takes %s bytes, the documentation of "%s" has %s with %s' % (
            bad[0][0], bad[0][1], title, bad[1][0], bad[1][1])
        rep.add('field differs from documentation', where, bad[0][0], text)
      else:
        rep.add('field differs from documentation', where, name,
                'ends before %s, which the documentation of "%s" has' % (
                    [r.name for r in t.rows][-1:], title))
      continue
    # Which field is paired with which row.
    names = {x for m, _ in s['pairs'] for x in m}
    for (m, r, _), (w, v) in zip(pairs, s['pairs']):
      if r == v and m != w:
        for x, y in zip(m, w):
          if x != y and x in names:
            rep.add('field at another place', where, x,
                    '%s is at the place of "%s" in the documentation of '
                    '"%s"' % (x, ', '.join(r), title))
            break
    order = s.get('order') or orders.get(t.doc)
    if order in ('little-endian', 'big-endian'):
      want = order.split('-')[0]
      for path, leaf in normal.Normal(fabs[fn]).layout(lay):
        if leaf[0] in ('integer', 'float'):
          got = [x for x in leaf if x in ('little', 'big')]
          if got:
            rep.count('ob:byte orders')
            if got[0] != want:
              rep.add('byte order differs from documentation', where,
                      '.'.join(path), 'is decoded as %s-endian, the '
                      'documentation says %s' % (got[0], order))
  rep.need('ob:structures with a documented table', 180)
  rep.need('ob:byte orders', 500)


def reviewed(rep, fabs):
  """Rule 2: every definition against its reviewed layout."""
  with open(os.path.join(SPEC, 'layouts.json'), encoding='utf8') as f:
    spec = json.load(f)
  current = {fn: forms(fab) for fn, fab in fabs.items()}
  missing = 0
  for key, want in sorted(spec.items()):
    fn, _, name = key.partition(':')
    got = current.get(fn, {}).get(name)
    if got is None:
      missing += 1
      continue
    rep.count('ob:definitions compared with the reviewed layout')
    rep.count('ob:values compared with the reviewed layout', len(got))
    where = 'dtformats/%s:%s' % (fn, name)
    names = {p.split('.')[-1] for p, _ in want}
    for i in range(max(len(want), len(got))):
      wp, wl = want[i] if i < len(want) else (None, None)
      gp, gl = ('.'.join(got[i][0]), got[i][1]) if i < len(got) else (
          None, None)
      if wl != gl:
        rep.add('layout differs', where, gp or wp or name,
                'value %d (%s) is decoded as %s, has to be %s (%s)' % (
                    i + 1, gp, short(gl), short(wl), wp))
        break
      if gp is not None and gp.split('.')[-1] != wp.split('.')[-1] and (
          gp.split('.')[-1] in names):
        rep.add('field at another place', where, gp,
                'value %d is %s, has to be %s' % (i + 1, gp, wp))
        break
  rep.count('definitions that are no longer there', missing)
  rep.need('ob:definitions compared with the reviewed layout', 450)


def requested(rep, results):
  """Rule 3: what the readers decode."""
  with open(os.path.join(SPEC, 'requested.json'), encoding='utf8') as f:
    spec = json.load(f)
  current = {}
  for r in results:
    for m, d in r['requested'].items():
      current.setdefault(m, {}).update(d)
  new, lost = {}, {}
  for m in set(current) | set(spec):
    d, want = current.get(m, {}), set(spec.get(m, ()))
    rep.count('ob:layouts readers ask for', len(d))
    new[m] = {f: n for f, n in d.items() if f not in want}
    lost[m] = [f for f in want if f not in d]
  for m in sorted(new):
    for form, name in sorted(new[m].items(), key=lambda x: x[1]):
      if any(form in v for v in lost.values()):
        rep.count('layouts that moved to another definition file')
        continue
      rep.add('another layout is decoded', m, name,
              'a reader asks for %s, which none is specified to do' % name)
    for form in sorted(lost[m]):
      if any(form in v for v in new.values()):
        continue
      rep.add('layout is not decoded', m, form[:80],
              'no reader asks for the layout %s' % form[:160])


def check(rep):
  rep.rule(
      '1. Each structure that the format documentation has a table for is '
      'walked together with the table: members and rows take up the same '
      'bytes in the same order up to where they were reviewed to agree, and '
      'integers have the byte order the document states. 2. Every definition, '
      'brought into a normal form (nested structures expanded, names of types '
      'and of fields resolved, effective byte order), is the reviewed layout '
      'of the format. 3. The readers of each definition file ask for the reviewed '
      'layouts and no others.')
  rep.assume('The documentation and the reviewed layouts are right.')
  proj = P.Project()
  fabs = proj.fabrics
  documented(rep, fabs, proj.repo)
  reviewed(rep, fabs)
  results = both.run(extract)
  common.add_stats(rep, results)
  requested(rep, results)
  rep.need('ob:layouts readers ask for', 150)
