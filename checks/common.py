"""What several checks share."""

import ast


def where(e):
  return '%s:%s' % (e['rel'], e['func'])


def events(it, kinds):
  """Events as plain data."""
  out = []
  for e in list(it.events.values()) + list(it.static_events.values()):
    if e.kind in kinds:
      d = {'kind': e.kind, 'rel': e.rel, 'func': e.func.split(':')[-1],
           'line': e.line, 'text': e.text, 'debug': e.debug, 'cls': e.cls,
           'mode': e.mode}
      for k, v in e.data.items():
        if isinstance(v, (str, int, bool, type(None), set, frozenset)) or (
            isinstance(v, tuple) and all(isinstance(x, str) for x in v)):
          d[k] = v
      out.append(d)
  return out


def stats(it):
  return {'contexts': len(it.summaries),
          'functions': len({k[0] for k in it.summaries}),
          'roots': len(it.roots)}


def add_stats(rep, results):
  rep.count('function contexts', sum(r['stats']['contexts'] for r in results))
  rep.count('functions', max(r['stats']['functions'] for r in results))
  rep.count('entry points', max(r['stats']['roots'] for r in results))
  if rep.counts['functions'] < 300 or rep.counts['entry points'] < 200:
    from sa.report import Broken
    raise Broken('the call graph collapsed: %r' % rep.counts)


def qualname_of(tree):
  """node -> name of the function that contains it, for a module."""
  out = {}

  def walk(n, name):
    for c in ast.iter_child_nodes(n):
      x = name
      if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
        x = (name + '.' if name else '') + c.name
      out[c] = x or '<module>'
      walk(c, x)
  walk(tree, '')
  return out


def analysed(it):
  """Functions that were analysed in at least one context."""
  out = {}
  for k in it.summaries:
    f = it.p.functions.get(k[0])
    if f is not None:
      out[k[0]] = f
  return out


def node_counts(it):
  """Number of constructs in the functions that were analysed."""
  c = {'calls': 0, 'attribute reads': 0, 'formatted values': 0,
       'operators': 0, 'names': 0, 'subscripts': 0}
  for f in analysed(it).values():
    if f.node is None:
      continue
    for n in ast.walk(f.node):
      if isinstance(n, ast.Call):
        c['calls'] += 1
      elif isinstance(n, ast.Attribute):
        c['attribute reads'] += 1
      elif isinstance(n, ast.FormattedValue):
        c['formatted values'] += 1
      elif isinstance(n, (ast.BinOp, ast.Compare, ast.UnaryOp)):
        c['operators'] += 1
      elif isinstance(n, ast.Name):
        c['names'] += 1
      elif isinstance(n, ast.Subscript):
        c['subscripts'] += 1
  return c
