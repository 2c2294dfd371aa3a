"""C07: reading and decoding ends for every input."""

import ast
import itertools

from checks import common
from sa import both
from sa import progress
from sa.report import Broken


def endless(an):
  """Loops over iterators that never end."""
  rows = []
  for q in sorted(an.p.functions):
    f = an.p.functions[q]
    if not isinstance(f.node, ast.FunctionDef):
      continue
    for n in ast.walk(f.node):
      if isinstance(n, ast.For):
        iters = [n.iter]
      elif isinstance(n, ast.comprehension):
        iters = [n.iter]
      else:
        continue
      found = None
      for x in ast.walk(iters[0]):
        if not isinstance(x, ast.Call):
          continue
        name = progress.path_of(x.func) or ''
        target = (f.module.imports.get(name.split('.')[0])
                  if name else None)
        full = '%s %s' % (target, name)
        if 'itertools' in full and (
            any(w in full for w in ('count', 'cycle')) or (
                'repeat' in full and len(x.args) == 1)):
          found = x
        if isinstance(x.func, ast.Name) and x.func.id == 'iter' and (
            len(x.args) == 2):
          y = x.args[0]
          if isinstance(y, ast.Lambda) and isinstance(
              y.body, ast.Call) and isinstance(
                  y.body.func, ast.Attribute) and (
                      y.body.func.attr == 'read'):
            continue
          if isinstance(y, ast.Call) and any(
              isinstance(a, ast.Attribute) and a.attr == 'read'
              for a in y.args[:1]):
            continue
          found = x
      rows.append((f.module.rel, f.q.split(':')[-1], ast.unparse(iters[0]),
                   iters[0].lineno, ast.unparse(found) if found else None))
  return rows


def sizes_shrink(edges, comp):
  """Whether a parameter per function gets smaller around each cycle."""
  funcs = sorted({e['caller'] for e in edges} | {e['callee'] for e in edges})
  options = []
  for q in funcs:
    names = {k[1] for e in edges if e['callee'] == q for k in e['kinds']
             if k[0] in ('part', 'same')}
    if not names:
      return False
    options.append(sorted(names))
  for n, choice in enumerate(itertools.product(*options)):
    if n > 5000:
      break
    m = dict(zip(funcs, choice))
    weak = {}
    ok = True
    for e in edges:
      key = (m[e['callee']], m[e['caller']])
      if ('part',) + key in e['kinds']:
        continue
      if ('same',) + key not in e['kinds']:
        ok = False
        break
      weak.setdefault(e['caller'], set()).add(e['callee'])
      weak.setdefault(e['callee'], set())
    if ok and not cyclic(weak):
      return True
  return False


def cyclic(graph):
  comp = progress.components(graph)
  if any(q in graph[q] for q in graph):
    return True
  return len(set(comp.values())) < len(comp)


def extract(it):
  an = progress.Progress(it)
  an.everything()
  loops = []
  live = set(common.analysed(it))
  for f, s, ok, used, edges in an.results.values():
    if f.q not in live:
      # No entry point reaches this function.
      continue
    test = ast.unparse(s.test if isinstance(s, ast.While) else s.iter)
    kind = 'while' if isinstance(s, ast.While) else 'for'
    loops.append({'rel': f.module.rel, 'func': f.q.split(':')[-1],
                  'line': s.lineno, 'ok': ok, 'used': used, 'edges': edges,
                  'text': '%s %s' % (kind, test)})
  calls = []
  seen = set()
  for f, node, g, kinds, comp in an.recursive.values():
    seen.add((f.q, node.lineno, node.col_offset, g.q))
    calls.append({'rel': f.module.rel, 'func': f.q.split(':')[-1],
                  'line': node.lineno, 'caller': f.q, 'callee': g.q,
                  'kinds': set(kinds), 'comp': comp})
  for (q, line, col, b), comp in an.cycles.items():
    f = an.p.functions.get(q)
    if f is None or (q, line, col, b) in seen:
      continue
    g = an.p.functions.get(b)
    if g is None:
      continue
    if not isinstance(g.node, ast.FunctionDef):
      continue
    calls.append({'rel': f.module.rel, 'func': f.q.split(':')[-1],
                  'line': line, 'caller': q, 'callee': b, 'kinds': set(),
                  'comp': comp})
  whiles = set()
  for q in an.p.functions:
    f = an.p.functions[q]
    if isinstance(f.node, ast.FunctionDef) and q in live:
      for n in ast.walk(f.node):
        if isinstance(n, ast.While):
          whiles.add((f.module.rel, n.lineno))
  measured = {(x['rel'], x['line']) for x in loops}
  return {'loops': loops, 'calls': calls, 'endless': endless(an),
          'missing': sorted(whiles - measured),
          'pushbacks': sorted(an.pushbacks), 'stats': common.stats(it)}


def check(rep):
  rep.rule(
      'Ranking measures by dataflow: for every while loop of the library and '
      'the scripts, on every path from the loop head back to it, a measure '
      'gets closer to a bound that the loop does not change: an offset, '
      'counter or file position increases by at least one and is compared '
      'with (or read at, which ends at the end of the data) something the '
      'loop leaves alone, a length or size decreases towards zero, the input '
      'is consumed by a read that cannot return the empty string, or a '
      'visited set gains an element that was not in it. Several measures '
      'can be combined lexicographically.')
  rep.rule(
      'For loops: the body does not add to the list that is iterated unless '
      'a visited set gains an element on that path; iterators that never '
      'end are not used.')
  rep.rule(
      'Recursion: on each cycle of the call graph a call site adds an '
      'element to a visited set that is shared by the calls, or each call '
      'passes a proper part of a parameter of its caller.')
  rep.assume('The input has a finite size that does not change.')
  rep.assume('Reads at an offset at or past the end fail (C06).')
  rep.assume('Keys that are added to visited sets come from the finite '
             'input.')
  rep.assume('dtFabric maps consume the minimum size of their data type.')
  rep.assume('Values decoded from a plist and structures mapped from data '
             'are finite trees, apart from UID references.')
  results = both.run(extract)
  loops = {}
  missing = set(results[0]['missing'])
  for r in results:
    missing &= set(r['missing'])
  if missing:
    raise Broken('loops that were not measured: %s' % sorted(missing))
  for mode, r in enumerate(results):
    for x in r['loops']:
      where = '%s:%s' % (x['rel'], x['func'])
      loops[(where, x['line'])] = x
      rep.count('ob:paths back to a loop head', x['edges'])
      if not x['ok']:
        rep.add('progress', where, x['text'],
                'an iteration can end without getting closer to the end of '
                'the loop%s' % (
                    ' (measures that hold on other paths: %s)' %
                    ', '.join(x['used']) if x['used'] else ''), x['line'])
    for rel, func, text, line, bad in r['endless']:
      if not mode:
        rep.count('ob:for loops')
      if bad:
        rep.add('endless', '%s:%s' % (rel, func), text,
                '%s never ends' % bad, line)
    groups = {}
    for c in r['calls']:
      if not mode:
        rep.count('ob:recursive call sites')
      groups.setdefault(c['comp'], []).append(c)
    for comp, edges in sorted(groups.items(), key=lambda x: str(x[0])):
      single = len({e['caller'] for e in edges} | {
          e['callee'] for e in edges}) == 1

      def fresh(e):
        for k in e['kinds']:
          if k[0] == 'fresh' and (k[1].startswith('self.') or single):
            return k[1]
        return None
      rest = [e for e in edges if not fresh(e)]
      graph = {}
      for e in rest:
        graph.setdefault(e['caller'], set()).add(e['callee'])
        graph.setdefault(e['callee'], set())
      if not cyclic(graph):
        how = 'visited: ' + ', '.join(sorted({
            fresh(e) for e in edges if fresh(e)}))
      elif sizes_shrink(edges, comp):
        how = 'parts of an argument'
      else:
        comps = progress.components(graph)
        for e in rest:
          if comps[e['caller']] == comps[e['callee']]:
            rep.add('recursion', '%s:%s' % (e['rel'], e['func']),
                    'call of ' + e['callee'].split('.')[-1],
                    'nothing gets smaller and no visited set grows on a '
                    'cycle of calls through this call', e['line'])
        continue
      if not mode:
        rep.sample('%s: %s' % (
            ', '.join(sorted({e['callee'].split(':')[-1] for e in edges}))[
                :120], how))
  for (where, line), x in sorted(loops.items()):
    rep.count('ob:while loops' if x['text'].startswith('while') else
              'ob:for loops that grow their list')
    rep.sample('%s %s: %s' % (where, x['text'], ', '.join(x['used'])))
  for x in sorted({y for r in results for y in r['pushbacks']}):
    rep.assume('The data that is put back was read before: %s' % x)
  common.add_stats(rep, results)
  rep.need('ob:while loops', 45)
  rep.need('ob:for loops', 200)
  rep.need('ob:recursive call sites', 4)
