"""C01: every data layout a parser asks for is defined and closed."""

import fnmatch
import os
import re

from checks import common
from sa import both
from sa import layouts
from sa import project as P

SIZES = ('number_of_elements', 'elements_data_size')


class Closure:
  """Checks the definitions that are reached from a requested one."""

  def __init__(self, rep, fabric):
    self.rep = rep
    self.fab = fabric
    self.done = set()

  def bad(self, lay, member, text):
    self.rep.add('definition not closed', 'dtformats/%s:%s' % (
        self.fab.name, lay.name), member, text)

  def ref(self, name, lay, member):
    """The definition a name refers to, which has to come earlier."""
    self.rep.count('ob:references between definitions')
    d = self.fab.defs.get(name)
    if d is None:
      self.bad(lay, member, 'refers to %s, which is not defined' % name)
    elif d.index >= lay.index:
      self.bad(lay, member, 'refers to %s, which is defined later' % name)
      d = None
    return d

  def free(self, lay, outer=()):
    """{name: member} of the values a decoder of a layout has to be given.

    outer is the list of (structure, names of its decoded fields) around it.
    """
    out = {}
    spec = lay.spec
    t = lay.type
    if t == 'structure':
      seen = []
      for m in spec.get('members') or []:
        name = m.get('name') or ''
        scope = list(outer) + [(lay.name, seen, lay)]
        self.value(m, lay, name, scope, out)
        if m.get('name'):
          seen = seen + [m['name']]
    elif t == 'structure-group':
      ident = spec.get('identifier')
      base = self.ref(spec.get('base'), lay, 'base')
      if base and ident not in base.by_name:
        self.bad(lay, 'identifier', 'the base %s has no field %s' % (
            base.name, ident))
      used = {}
      for n in list(spec.get('members') or []) + (
          [spec['default']] if spec.get('default') else []):
        d = self.ref(n, lay, n)
        if d is None:
          continue
        out.update(self.free(d))
        f = d.by_name.get(ident)
        if f is None:
          self.bad(lay, n, '%s has no field %s' % (n, ident))
          continue
        if n == spec.get('default'):
          continue
        self.rep.count('ob:members of structure groups')
        if not f.values:
          self.bad(lay, n, '%s does not set the value of %s' % (n, ident))
        for v in f.values or ():
          if used.setdefault(v, n) != n:
            self.bad(lay, n, '%s and %s have the same %s: %r' % (
                n, used[v], ident, v))
    else:
      self.value(spec, lay, lay.name, list(outer), out)
    return out

  def value(self, spec, lay, member, scope, out):
    """A member or a definition that is not a structure."""
    for key in SIZES + ('condition',):
      if spec.get(key) is not None:
        self.names(spec[key], key, lay, member, scope, out)
    if spec.get('type') == 'format' or lay.type == 'format':
      return
    e = spec.get('element_data_type')
    if e is not None:
      d = self.ref(e, lay, member)
      if d is not None:
        for n in self.free(d):
          # Elements of a sequence do not see the values around it.
          self.bad(lay, member, 'the elements (%s) need %s' % (d.name, n))
    r = spec.get('data_type')
    if r is not None:
      d = self.ref(r, lay, member)
      if d is not None:
        out.update(self.free(d, scope))

  def names(self, expr, key, lay, member, scope, out):
    self.rep.count('ob:size, count and condition expressions')
    names = layouts.expression_names(expr)
    if names is None:
      self.bad(lay, member, 'the %s %r does not parse' % (key, expr))
      return
    for name, attr in names:
      hit = [s for s in scope if s[0] == name]
      if not hit:
        out[name if attr is None else '%s.%s' % (name, attr)] = '%s.%s' % (
            lay.name, member)
        continue
      _, seen, owner = hit[-1]
      if attr is None:
        self.bad(lay, member, 'the %s uses %s as a value' % (key, name))
      elif attr not in seen:
        self.bad(lay, member, 'the %s uses %s.%s, which %s' % (
            key, name, attr, 'is decoded later' if attr in owner.by_name else
            'is no field'))


def extract(it):
  ev = common.events(it, (
      'no-layout', 'layout-unknown', 'layout-request', 'map', 'no-file'))
  return {'stats': common.stats(it), 'events': ev,
          'files': sorted(it.used_fabrics) + sorted(it.used_debugs)}


def package_patterns(repo):
  """File patterns of the package data."""
  with open(os.path.join(repo, 'pyproject.toml'), encoding='utf8') as f:
    text = f.read()
  try:
    import tomllib
    d = tomllib.loads(text)
    return d['tool']['setuptools']['package-data']['dtformats']
  except ImportError:
    m = re.search(r'package-data\]\s*dtformats\s*=\s*\[(.*?)\]', text, re.S)
    return re.findall(r'"([^"]+)"', m.group(1)) if m else []
  except KeyError:
    return []


def check(rep):
  rep.rule(
      'Every name that can reach a request for a data type map is defined in '
      'the definition file of the requesting parser. From each requested '
      'definition on: references are to definitions that come earlier in the '
      'file; each name in a size, count or condition expression is an earlier '
      'field of the structure or of a directly enclosing structure, or is a '
      'key of the context every decoding call site passes; members of a '
      'structure group have distinct identifiers. Definition files that are '
      'named exist and are covered by the package data.')
  rep.assume('dtFabric decodes a closed definition as its documentation says.')
  proj = P.Project()
  results = both.run(extract)
  common.add_stats(rep, results)
  pats = package_patterns(proj.repo)
  for name in sorted({x for r in results for x in r['files']}):
    rep.count('ob:definition files')
    if not any(fnmatch.fnmatch(name, p) for p in pats):
      rep.add('definition file not shipped', 'pyproject.toml:package-data',
              name, '%s is not part of the package' % name)
  requested = set()
  closures = {}
  seen = set()
  for r in results:
    for e in r['events']:
      k = e['kind']
      if k == 'no-file':
        rep.add('missing definition file', common.where(e), e['text'],
                'does not exist', e['line'])
      elif k == 'no-layout':
        rep.add('undefined layout', common.where(e), e['text'],
                'the requested data type is not defined', e['line'])
      elif k == 'layout-unknown':
        rep.add('layout not derivable', common.where(e), e['text'],
                'the name of the requested data type is not derivable from '
                'the source', e['line'])
      elif k == 'layout-request':
        requested.add((e['fabric'], e['layout']))
      elif k == 'map':
        requested.add(e['layout'])
        key = (common.where(e), e['line'], e['text'], e['optional'])
        if key in seen:
          continue
        seen.add(key)
        rep.count('ob:decoding call sites and layouts')
        fn, name = e['layout']
        if fn not in closures:
          closures[fn] = Closure(rep, proj.fabrics[fn])
        free = closures[fn].free(proj.fabrics[fn].defs[name])
        if e['context'] is None:
          if free:
            rep.count('contexts that are not derivable')
          continue
        given = {}
        for x in e['structs']:
          k, _, v = x.partition('=')
          given.setdefault(k, []).append(v.split(':'))
        for n, m in free.items():
          n, _, attr = n.partition('.')
          if n not in e['context'] or e['optional'] or attr and any(
              attr not in proj.fabrics[f].defs[x].by_name
              for f, x in given.get(n, ())):
            rep.add('value not supplied', common.where(e), '%s: %s' % (
                name, n), '%s needs %s, which is not given here' % (
                    m, n + (attr and '.' + attr)), e['line'])
  for fn, name in sorted(requested):
    rep.count('ob:requested layouts')
    fab = proj.fabrics[fn]
    for x in fab.errors:
      rep.add('definition file', 'dtformats/%s:' % fn, x, x)
    closures.setdefault(fn, Closure(rep, fab)).free(fab.defs[name])
  rep.need('ob:requested layouts', 150)
  rep.need('ob:decoding call sites and layouts', 150)
