"""C19: an error of reading is not swallowed."""

import ast
import json
import os

from checks import common
from sa import both
from sa import models
from sa import project as P

SPEC = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'spec', 'recoveries.json')

# Exceptions that stand for data that could not be read.
READING = ('ParseError', 'OSError', 'EOFError', 'MappingError',
           'ByteStreamTooSmallError', 'zlib.error', 'LZMAError', 'lzma.error',
           'LZ4BlockError', 'MemoryError')


def of_reading(it, exc):
  names = {exc.split(':')[-1].split('.')[-1], exc}
  for b in models.exc_bases(it, exc):
    names |= {b.split(':')[-1].split('.')[-1], b}
  return sorted(names & set(READING))


def closure(it, keys):
  """The function contexts that are reached."""
  out, todo = set(), list(keys)
  while todo:
    k = todo.pop()
    if k not in out:
      out.add(k)
      todo.extend(c for _, _, c in it.callees.get(k, ()))
  return out


def layouts_of(it, keys):
  """Names of the layouts that these contexts ask for."""
  names = set()
  asking = {e.func for e in it.events.values()
            if e.kind == 'layout-request'}
  for k in keys:
    if k[0] not in asking:
      continue
    for n, v in k[2]:
      if n == 'self':
        continue
      for t in v:
        if t[0] == 'str' and isinstance(t[1], frozenset):
          names |= t[1]
  return names


def extract(it):
  rows = []
  n = {'handlers': 0, 'handlers of errors of reading that can complete': 0}
  n['handlers'] = len([e for e in it.events.values() if e.kind == 'handler'])
  by_func = {}
  for k in it.callees:
    by_func.setdefault(k[0], []).append(k)
  for (q, _, debug), (node, handler, caught) in it.swallows.items():
    f = it.p.functions.get(q)
    if f is None or debug:
      continue
    excs = set()
    origins = set()
    for exc, o in caught:
      if of_reading(it, exc):
        excs.add(exc.split(':')[-1].split('.')[-1])
        origins.add('%s (%s)' % (o[2].split(':')[-1], o[4]))
    if not excs:
      continue
    n['handlers of errors of reading that can complete'] += 1
    lo, hi = node.body[0].lineno, node.body[-1].end_lineno
    starts = [c for k in by_func.get(q, ())
              for line, _, c in it.callees[k] if lo <= line <= hi]
    rows.append({
        'rel': f.module.rel, 'func': q.split(':')[-1],
        'line': handler.lineno,
        'cls': f.cls.name if f.cls is not None else f.module.name,
        'main': f.cls is None and f.name == 'Main',
        'excs': sorted(excs), 'origins': sorted(origins)[:6],
        'layouts': sorted(layouts_of(it, closure(it, starts)))})
  return {'rows': rows, 'n': n, 'stats': common.stats(it)}


def silent(proj):
  """Other constructs that drop exceptions."""
  rows = []
  n = 0
  for q, f in sorted(proj.functions.items()):
    if not isinstance(f.node, ast.FunctionDef):
      continue
    for x in ast.walk(f.node):
      if isinstance(x, ast.Try):
        n += 1
        for y in x.finalbody:
          for z in ast.walk(y):
            if isinstance(z, (ast.Return, ast.Break, ast.Continue)):
              rows.append((f.module.rel, q.split(':')[-1], z.lineno,
                           'finally', '%s in finally' % type(
                               z).__name__.lower()))
      if isinstance(x, ast.With):
        for item in x.items:
          e = item.context_expr
          d = (proj.resolve_dotted(f.module, e.func)
               if isinstance(e, ast.Call) else None)
          if d == 'contextlib.suppress' and not all(
              (proj.resolve_dotted(f.module, a) or '').split('.')[-1] in (
                  'ImportError', 'ValueError', 'KeyError', 'IndexError')
              for a in e.args):
            rows.append((f.module.rel, q.split(':')[-1], x.lineno,
                         'suppress', ast.unparse(e)))
  return rows, n


def check(rep):
  rep.rule(
      'Exception flow: for every handler, the exceptions of reading (parse '
      'errors, errors of the operating system, of mapping data and of '
      'decompression) that can reach it are derived from the operations it '
      'guards. When the handler can complete (fall through, return, break or '
      'continue) the error is swallowed; the only handlers that do are the '
      'reviewed recoveries (spec/recoveries.json), identified by the class, '
      'the exception and the layouts that are read under the handler. No '
      'finally clause leaves with return, break or continue, and '
      'contextlib.suppress is not used for such exceptions.')
  rep.assume('Main functions of tools report errors by their result (C18).')
  rep.assume('Exceptions have the origins the exception analysis of C05 '
             'finds.')
  with open(SPEC, encoding='utf8') as f:
    spec = json.load(f)
  proj = P.Project()
  results = both.run(extract, modes=(False,))
  common.add_stats(rep, results + results)
  r = results[0]
  for k, v in r['n'].items():
    rep.count('ob:' + k, v)
  for x in r['rows']:
    where = '%s:%s' % (x['rel'], x['func'])
    if x['main']:
      rep.count('ob:handlers of Main functions (C18)')
      continue
    for s in spec:
      if s['class'] == x['cls'] and set(x['excs']) <= set(s['exceptions']) and (
          s['layouts'] == ['*'] or set(s['layouts']) == set(
              x['layouts']) - set(s.get('optional', ()))):
        rep.count('ob:reviewed recoveries')
        rep.sample('%s: %s (%s)' % (where, ', '.join(x['excs']), s['why']))
        break
    else:
      rep.add('swallowed', where, 'except ' + ', '.join(x['excs']),
              'an error of reading %s from %s does not reach the caller' % (
                  ', '.join(x['layouts'][:6]) or 'data',
                  ', '.join(x['origins'][:3])), x['line'])
  rows, n = silent(proj)
  rep.count('ob:try statements', n)
  for rel, func, line, kind, text in rows:
    rep.add(kind, '%s:%s' % (rel, func), text,
            'drops the exception that is raised', line)
  rep.need('ob:handlers', 60)
  rep.need('ob:try statements', 100)
