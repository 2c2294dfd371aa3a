"""The entry points of the analysis and the values they can get."""

import ast
import re

from sa import project as P
from sa import values as V


class Roots:
  """Builds entry points from the public interface."""

  def __init__(self, proj):
    self.p = proj
    self.by_name = {}
    for q, c in proj.classes.items():
      self.by_name.setdefault(c.name, []).append(q)
    self.untyped = []
    self.heaps = []

  def concrete(self, clsq):
    out = []
    for q in [clsq] + sorted(self.p.classes[clsq].subclasses):
      if not self.p.abstract_methods(q):
        out.append(q)
    return out or [clsq]

  def struct_value(self, module, name):
    """A decoded structure of a named layout, by the fabric of the module."""
    hits = []
    for fn, fab in self.p.fabrics.items():
      if name in fab.defs:
        hits.append(fn)
    base = module.name.split('.')[-1]
    pref = [h for h in hits if h.startswith(base + '.')]
    out = V.BOTTOM
    for fn in pref or hits:
      fab = self.p.fabrics[fn]
      out = V.join(out, fab.type_of(fab.defs[name]))
    return out

  def value(self, text, module):
    text = text.strip()
    if text.startswith('Optional[') and text.endswith(']'):
      return V.join(self.value(text[9:-1], module), V.none('attr'))
    if '|' in text and '[' not in text:
      out = V.BOTTOM
      for x in text.split('|'):
        out = V.join(out, self.value(x, module))
      return out
    m = re.match(r'^(\w+)\[(.*)\]$', text)
    if m:
      return V.ANY
    simple = {
        'int': V.INT, 'str': V.STR, 'bytes': V.BYTES, 'byte': V.BYTES,
        'bool': V.BOOL, 'float': V.FLOAT, 'file': V.atom('file', 'param'),
        'file object': V.atom('file', 'param'), 'None': V.none('attr'),
        'object': V.ANY, 'file-like object': V.atom('file', 'param')}
    if text in simple:
      return simple[text]
    name = text.split('.')[-1]
    qs = self.by_name.get(name)
    if qs:
      same = [q for q in qs if q.startswith(module.name + ':')]
      out = V.BOTTOM
      for q in same or qs:
        for c in self.concrete(q):
          out = V.join(out, V.atom('inst', c))
      return out
    s = self.struct_value(module, text)
    if s:
      return s
    return V.ANY

  def env_of(self, f, selfatom):
    a = f.node.args
    types = P.doc_args(f.node)
    if f.name == '__init__' and f.cls is not None:
      pass
    env = {}
    params = [x.arg for x in a.posonlyargs + a.args]
    if f.cls is not None and f.kind in ('method', 'class') and params:
      env[params[0]] = frozenset([selfatom])
      params = params[1:]
    for n in params + [x.arg for x in a.kwonlyargs]:
      t = types.get(n)
      if n == 'debug':
        env[n] = V.BOOL
        continue
      if t is None:
        self.untyped.append((f.q, n))
        env[n] = V.ANY
        continue
      v = self.value(t, f.module)
      if not v:
        v = V.ANY
      env[n] = v
    pos = [x.arg for x in a.posonlyargs + a.args]
    for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
        (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
      if isinstance(d, ast.Constant) and n in env and n != 'debug' and (
          V.ANY != env[n]):
        env[n] = V.join(env[n], V.none('attr') if d.value is None else
                        V.const(d.value))
    if a.vararg:
      env[a.vararg.arg] = V.vtuple(V.ANY)
    if a.kwarg:
      env[a.kwarg.arg] = V.ANY
    return env

  def public(self):
    """(function, self, environment) of every public entry point."""
    out = []
    for q in sorted(self.p.classes):
      c = self.p.classes[q]
      if self.p.abstract_methods(q):
        continue
      t = ('inst', q)
      names = {}
      for b in c.mro:
        for n, f in self.p.classes[b].methods.items():
          names.setdefault(n, f)
      if '__init__' in names:
        f = names['__init__']
        out.append((f, t, self.env_of(f, t)))
      for n, f in sorted(names.items()):
        if n.startswith('_') and n not in (
            '__iter__', '__enter__', '__exit__', '__str__', '__next__'):
          continue
        st = ('cls', q) if f.kind == 'class' else t
        if f.kind == 'static':
          st = None
        out.append((f, st, self.env_of(f, st)))
    for q in sorted(self.p.functions):
      f = self.p.functions[q]
      if f.cls is None and not f.name.startswith('_'):
        out.append((f, None, self.env_of(f, None)))
    return out
