"""C11: every file that is opened is closed on every exit."""

from checks import common
from sa import both
from sa import handles


def classes_of(h):
  """Classes with methods that open or close files."""
  out = []
  for q, c in sorted(h.p.classes.items()):
    names = {}
    for b in reversed(c.mro):
      for n, f in h.p.classes[b].methods.items():
        names[n] = f
    fs = [f for f in names.values() if f.q in h.relevant and
          not f.is_abstract]
    if fs and not h.p.abstract_methods(q):
      out.append((q, c, fs))
  return out


def reached(it, starts):
  """Functions that open methods call."""
  out = set()
  todo = list(starts)
  while todo:
    q = todo.pop()
    for a, b in it.call_edges:
      if a == q and b not in out:
        out.add(b)
        todo.append(b)
  # What can also be called when the object is open.
  return {q for q in out if q.split('.')[-1].startswith('_') or
          q.split('.')[-1] == 'ReadFileObject'}


def held_at(outcomes):
  out = set()
  for kind, s, v in outcomes:
    for p, r in s.binds:
      if not handles.local(p) and r in s.open:
        out.add(p)
  return out


def name(r):
  if r[0] == 'inst':
    return '%s opened by %s' % (r[1].split(':')[-1], r[2].split('.')[-1])
  if r[0] == 'lost':
    return '%s' % r[1]
  if r[0] == 'popped':
    return 'an element of %s' % r[-1]
  return str(r[-1])


def extract(it):
  h = handles.Handles(it)
  rows = []
  n = {'functions that open or close': 0, 'owner classes': 0, 'openers': 0,
       'exits': 0}
  skip = set()
  for f in h.funcs():
    # The end of a tool by an exception ends the process.
    if f.cls is None and f.module.name.startswith('scripts.') and (
        f.name == 'Main'):
      skip.add(f.q)

  def where(f):
    return f.module.rel, f.q.split(':')[-1]

  cls = classes_of(h)
  lazily = {}
  for q, c, fs in cls:
    init = h.init_state(q)
    held = set()
    opened = {}
    for f in fs:
      if f.name == '__init__':
        continue
      res = h.run(f, q, handles.EMPTY)
      n['exits'] += len(res)
      held |= held_at(res)
      if h.is_opener(f, q):
        opened[f.q] = f
    lazily[q] = held
    if not held:
      continue
    n['owner classes'] += 1
    # What an opener leaves, with what other methods add to it.
    starts = {}
    for oq, f in sorted(opened.items()):
      n['openers'] += 1
      covered = set()
      for s in h.opened(f, q):
        covered |= {p for p, r in s.binds if not handles.local(p)}
      starts[oq] = covered
    covered = set().union(*starts.values()) if starts else set()
    extra = frozenset(held - covered)
    within = reached(it, starts)
    for oq in starts:
      f = opened[oq]
      best = None
      for m in handles.CLOSE_NAMES:
        g = h.p.find_method(q, m)
        if g is None or g.q not in h.relevant or g.is_gen:
          continue
        bad = h.unclosed(q, oq, g, extra)
        if best is None or len(bad) < len(best[1]):
          best = (g, bad)
      if best is None:
        rows.append(where(f) + (
            f.node.lineno, 'owner', q.split(':')[-1],
            'no method closes what %s leaves open' % f.name))
      elif best[1]:
        for p in sorted(best[1]):
          rows.append(where(best[0]) + (
              best[0].node.lineno, 'owner', '%s %s' % (
                  q.split(':')[-1], p),
              'what %s refers to stays open' % p
              if p != '?' else 'the object cannot be closed'))
      else:
        # It can be opened again.
        g = best[0]
        for s in h.opened(f, q):
          for k, x, v in h.run(g, q, h.add_held(s, extra)):
            if k == 'return' and f.name == 'Open' and not any(
                k2 == 'return' for k2, _, _ in h.run(f, q, x)):
              rows.append(where(g) + (
                  g.node.lineno, 'reuse', q.split(':')[-1],
                  'a closed object cannot be opened again'))
      # A failed open leaves nothing behind.
      for k, x, v in h.run(f, q, init):
        if k != 'raise':
          continue
        left = {p for p, r in x.binds if not handles.local(p)}
        for p in sorted(left):
          rows.append(where(f) + (
              f.node.lineno, 'failed open', '%s %s' % (
                  q.split(':')[-1], p),
              'refers to a file after a failure (%s)' % v))
        if not left and not any(
            k2 == 'return' for k2, _, _ in h.run(f, q, x)):
          rows.append(where(f) + (
              f.node.lineno, 'failed open', q.split(':')[-1],
              'cannot be opened again after a failure (%s)' % v))
    # Every method, in the states an open object can be in.
    for oq in starts:
      for s in h.opened(opened[oq], q):
        e = h.add_held(s, extra)
        for f in fs:
          if f.name != '__init__' and f.q not in opened and f.q not in within:
            h.run(f, q, e)
    if not starts:
      # Opened by something else than an open method.
      e = h.add_held(handles.EMPTY, frozenset(held))
      ok = False
      for m in handles.CLOSE_NAMES:
        g = h.p.find_method(q, m)
        if g is None or g.q not in h.relevant:
          continue
        ends = [x for k, x, v in h.run(g, q, e) if k == 'return']
        if ends and not any({('held', p) for p in held} & x.open
                            for x in ends):
          ok = True
      if not ok:
        f = fs[0]
        rows.append(where(f) + (
            c.node.lineno, 'owner', '%s %s' % (
                q.split(':')[-1], ' '.join(sorted(held))),
            'no method closes it'))
  for f in h.funcs():
    if f.q in h.relevant:
      n['functions that open or close'] += 1
      if f.cls is None:
        n['exits'] += len(h.run(f, None, handles.EMPTY))
  for (fq, r, kind), excs in h.leaks.items():
    f = h.p.functions[fq]
    if kind == 'raise' and fq in skip:
      continue
    rows.append(where(f) + (
        r[2] if r[0] == 'raw' and len(r) > 3 else f.node.lineno,
        'leak', '%s %s' % (name(r), 'at an exception' if kind == 'raise'
                           else 'at the end'),
        '%s stays open%s' % (name(r), '' if kind != 'raise' else
                             ' when %s is raised' % ', '.join(
                                 sorted(x.split(':')[-1] for x in excs)[:4]))))
  for fq, line, c, m in h.misuse:
    f = h.p.functions[fq]
    rows.append(where(f) + (
        line, 'misuse', '%s.%s' % (c, m),
        'an object that was not opened is closed, which always fails'))
  return {'stats': common.stats(it), 'rows': sorted(set(rows)), 'n': n,
          'calls': h.n_calls}


def check(rep):
  rep.rule(
      'Each call that opens a file (open, OpenFileByPath, the open method of '
      'a library or of an object of the program) gives a handle that is '
      'followed along every path, with the exceptions that each expression '
      'can raise: at every exit of the function it is closed, returned, or '
      'kept by an object. An object that keeps it has a method that closes '
      'it in every state that opening and using the object can leave; an '
      'open method that fails keeps nothing and can be tried again, and what was never '
      'opened is not closed where that always fails. Main of '
      'a tool closes what it opened before it returns.')
  rep.assume('Closing a file does not fail.')
  rep.assume('An exception that leaves Main of a tool ends the process.')
  results = both.run(extract)
  common.add_stats(rep, results)
  for r in results:
    for k, v in r['n'].items():
      rep.count('ob:' + k, v)
    for rel, func, line, kind, what, text in r['rows']:
      rep.add(kind, '%s:%s' % (rel, func), what, text, line)
  rep.need('ob:functions that open or close', 20)
  rep.need('ob:owner classes', 10)
  rep.need('ob:openers', 10)
