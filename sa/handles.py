"""Typestate of open files: who owns them and where they are closed.

Each function that opens or closes something (or calls one that does) is run
over its syntax tree, with what can raise where and the targets of calls taken
from the interpreter.  A state holds the files that are open, the places they
are bound to and the truth of what guards closing them.
"""

import ast
import collections

State = collections.namedtuple('State', 'binds open consts')
EMPTY = State(frozenset(), frozenset(), frozenset())

OPENERS = {'open', 'io.open', 'os.fdopen', 'os.open', 'gzip.open', 'bz2.open',
           'lzma.open', 'codecs.open', 'tempfile.TemporaryFile',
           'tempfile.NamedTemporaryFile', 'tempfile.SpooledTemporaryFile',
           'zipfile.ZipFile', 'tarfile.open'}
OPEN_METHODS = {'OpenFileByPath'}
LIBRARY_OPEN = {'open', 'open_file_object', 'open_file_objects'}
CLOSE_NAMES = ('Close', 'close', '__exit__', '__del__')
DRAIN = {'pop', 'popitem', 'popleft'}

NONE = ('const', None)
UNKNOWN = ('?',)


def path_of(n):
  if isinstance(n, ast.Name):
    return n.id
  if isinstance(n, ast.Attribute):
    b = path_of(n.value)
    return b + '.' + n.attr if b else None
  if isinstance(n, ast.Subscript):
    b = path_of(n.value)
    return b + '[]' if b else None
  return None


def local(path):
  return not path.startswith('self.') and not path.startswith('self[')


class Handles:
  """The analysis for one interpreter result."""

  def __init__(self, it):
    self.it = it
    self.p = it.p
    self.memo = {}
    self.progress = set()
    self.leaks = {}
    self.misuse = set()
    self.n_calls = 0
    self.direct, self.relevant = self.relevance()
    self.flags = self.protocol_attrs()
    self.stack = []

  # -- what is looked at ------------------------------------------------------

  def funcs(self):
    return [f for f in self.p.functions.values()
            if isinstance(f.node, ast.FunctionDef)]

  def is_direct(self, f):
    for n in ast.walk(f.node):
      if not isinstance(n, ast.Call):
        continue
      if self.dotted(f, n.func) in OPENERS:
        return True
      if isinstance(n.func, ast.Attribute):
        a = n.func.attr
        if a in OPEN_METHODS or a in LIBRARY_OPEN or a in (
            'Open', 'Close', 'close'):
          return True
    return False

  def dotted(self, f, node):
    if isinstance(node, ast.Name) and node.id in f.locals:
      return None
    d = self.p.resolve_dotted(f.module, node)
    if d in ('builtins.open',):
      return 'open'
    return d

  def relevance(self):
    direct = {f.q for f in self.funcs() if self.is_direct(f)}
    rel = set(direct)
    callers = {}
    for a, b in self.it.call_edges:
      callers.setdefault(b, set()).add(a)
    todo = list(rel)
    while todo:
      q = todo.pop()
      for c in callers.get(q, ()):
        if c not in rel and c in self.p.functions:
          rel.add(c)
          todo.append(c)
    # Constructors give the state a new object is in.
    for q in list(rel):
      f = self.p.functions[q]
      if f.cls is not None:
        for b in f.cls.mro:
          i = self.p.classes[b].methods.get('__init__')
          if i is not None:
            rel.add(i.q)
    return direct, rel

  def protocol_attrs(self):
    out = set()
    for q in self.direct:
      for n in ast.walk(self.p.functions[q].node):
        tests = []
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
          tests.append(n.test)
        for t in tests:
          for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and isinstance(
                x.value, ast.Name) and x.value.id == 'self':
              out.add('self.' + x.attr)
    return out

  # -- states -----------------------------------------------------------------

  def rids(self, st, path):
    return {r for p, r in st.binds if p == path}

  def bind(self, st, path, val, weak=False):
    binds = set(st.binds)
    consts = set(st.consts)
    if not weak:
      binds = {(p, r) for p, r in binds if p != path and not (
          p.startswith(path + '.') or p.startswith(path + '[') or
          p.startswith(path + '!'))}
      consts = {(p, c) for p, c in consts if p != path and
                not p.startswith(path + '.')}
    if val is not None and val[0] == 'rid' and val[1][0] == 'obj' and (
        weak or not local(path) or '.' in path):
      pass
    elif val is not None and val[0] == 'rid':
      binds.add((path, val[1]))
    elif val is not None and val[0] == 'cont':
      for r in val[1]:
        binds.add((path + '[]', r))
    elif val is not None and val[0] == 'const' and not weak:
      if path in self.flags or (local(path) and self.stack and
                                self.stack[-1][0] in self.direct):
        consts.add((path, val[1]))
    return State(frozenset(binds), st.open, frozenset(consts))

  def close(self, st, rid):
    return st._replace(open=st.open - {rid})

  def forget(self, st, rid):
    return State(frozenset((p, r) for p, r in st.binds if r != rid),
                 st.open - {rid}, st.consts)

  # -- expressions ------------------------------------------------------------

  def raises(self, node, st, out):
    for exc in sorted(self.it.raise_at.get(id(node), ())):
      out.append(('raise', st, exc))

  def ev(self, n, st, out):
    """[(state, value)]; raised exceptions are added to out."""
    if n is None:
      return [(st, NONE)]
    if isinstance(n, ast.Constant):
      if n.value is None or isinstance(n.value, bool):
        return [(st, ('const', n.value))]
      return [(st, UNKNOWN)]
    if isinstance(n, ast.Call):
      return self.ev_call(n, st, out)
    if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
      res = [(st, None)]
      if isinstance(n, ast.Attribute):
        res = self.ev(n.value, st, out)
      elif isinstance(n, ast.Subscript):
        res = [(s2, None) for s, _ in self.ev(n.value, st, out)
               for s2, _ in self.ev(n.slice, s, out)]
      self.raises(n, st, out)
      p = path_of(n)
      outp = []
      for s, _ in res:
        outp.append((s, self.value_at(s, p)))
      return outp
    if isinstance(n, ast.IfExp):
      res = []
      for s in self.refine(n.test, st, True, out):
        res += self.ev(n.body, s, out)
      for s in self.refine(n.test, st, False, out):
        res += self.ev(n.orelse, s, out)
      return res
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
      states = [(st, frozenset())]
      for e in n.elts:
        nxt = []
        for s, rs in states:
          for s2, v in self.ev(e, s, out):
            nxt.append((s2, rs | (
                {v[1]} if v[0] == 'rid' and v[1][0] != 'obj' else
                v[1] if v[0] == 'cont' else set())))
        states = nxt
      return [(s, ('cont', frozenset(rs)) if rs else UNKNOWN)
              for s, rs in states]
    if isinstance(n, ast.NamedExpr):
      return [(self.bind(s, n.target.id, v), v)
              for s, v in self.ev(n.value, st, out)]
    if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
      res = []
      vals = self.ev(n.value, st, out) if n.value is not None else [
          (st, NONE)]
      for s, v in vals:
        out.append(('raise', s, 'GeneratorExit'))
        self.raises(n, s, out)
        # What is yielded belongs to who receives it.
        if v[0] == 'rid':
          s = self.forget(s, v[1])
        res.append((s, UNKNOWN))
      return res
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
      res = []
      cur = [st]
      for x in n.values[:-1]:
        nxt = []
        for s in cur:
          for t in self.refine(x, s, True, out):
            res += self.ev(x, t, []) if path_of(x) else [(t, UNKNOWN)]
          nxt += self.refine(x, s, False, out)
        cur = nxt
      for s in cur:
        res += self.ev(n.values[-1], s, out)
      return self.unique(res)
    if isinstance(n, (ast.Lambda, ast.GeneratorExp)):
      return [(st, UNKNOWN)]
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp)):
      return self.ev_comp(n, st, out)
    # Anything else: its parts in order.
    states = [st]
    for c in ast.iter_child_nodes(n):
      if isinstance(c, ast.expr):
        nxt = []
        for s in states:
          nxt += [x for x, _ in self.ev(c, s, out)]
        states = list(dict.fromkeys(nxt))
    for s in states[:1]:
      self.raises(n, s, out)
    return [(s, UNKNOWN) for s in states]

  def unique(self, res):
    return list(dict.fromkeys(res))

  def value_at(self, st, p):
    if p is None:
      return UNKNOWN
    if p.endswith('[]') and self.rids(st, p):
      return ('rid', ('elem', p[:-2]))
    rs = self.rids(st, p)
    if len(rs) == 1:
      return ('rid', next(iter(rs)))
    for q, c in st.consts:
      if q == p:
        return ('const', c)
    conts = self.rids(st, p + '[]')
    if conts:
      return ('alias', p)
    return UNKNOWN

  def ev_comp(self, n, st, out):
    g = n.generators[0]
    loop = ast.For(target=g.target, iter=g.iter,
                   body=[ast.Expr(value=n.elt if not isinstance(
                       n, ast.DictComp) else n.value)], orelse=[])
    res = []
    for kind, s, v in self.st_for(loop, st):
      if kind == 'fall':
        res.append((s, UNKNOWN))
      else:
        out.append((kind, s, v))
    self.raises(n, st, out)
    if isinstance(n, ast.ListComp) and isinstance(n.elt, ast.Call):
      fresh = {r for s, _ in res for r in s.open - st.open}
      res = [(s, ('cont', frozenset(fresh & s.open)) if fresh & s.open
              else UNKNOWN) for s, _ in res]
    return res

  # -- calls ------------------------------------------------------------------

  def targets(self, n):
    """[(function, class of self or None, how)] of a call."""
    f = n.func
    fn, cls = self.stack[-1][1:3]
    if isinstance(f, ast.Attribute):
      if isinstance(f.value, ast.Call) and isinstance(
          f.value.func, ast.Name) and f.value.func.id == 'super':
        if fn.cls is None:
          return []
        t = self.p.find_method(cls or fn.cls.q, f.attr, after=fn.cls.q)
        return [(t, cls, 'self')] if t is not None else []
      if isinstance(f.value, ast.Name) and f.value.id == 'self' and cls:
        t = self.p.find_method(cls, f.attr)
        if t is not None:
          return [(t, cls, 'self')]
    out = []
    for a in sorted(self.it.node_values.get(id(f), ()), key=repr):
      if a[0] == 'func' and a[1] in self.p.functions:
        out.append((self.p.functions[a[1]], None, 'func'))
      elif a[0] == 'bound' and a[1] in self.p.functions:
        c = a[2][1] if a[2][0] == 'inst' else None
        out.append((self.p.functions[a[1]], c, 'inst'))
      elif a[0] == 'cls':
        t = self.p.find_method(a[1], '__init__')
        if t is not None:
          out.append((t, a[1], 'new'))
    return out

  def site(self, n):
    fn = self.stack[-1][1]
    return (fn.q, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))

  def ev_call(self, n, st, out):
    f = n.func
    states = [(st, UNKNOWN)]
    if isinstance(f, ast.Attribute):
      states = self.ev(f.value, st, out)
    full = []
    for s, recv in states:
      cur = [(s, [])]
      for a in [*n.args, *(k.value for k in n.keywords)]:
        nxt = []
        for x, vals in cur:
          for y, v in self.ev(a.value if isinstance(
              a, ast.Starred) else a, x, out):
            nxt.append((y, vals + [v]))
        cur = nxt
      full += [(x, recv, vals) for x, vals in cur]
    res = []
    for s, recv, vals in full:
      res += self.apply(n, s, recv, vals, out)
    return self.unique(res)

  def apply(self, n, st, recv, vals, out):
    f = n.func
    fn = self.stack[-1][1]
    self.n_calls += 1
    d = self.dotted(fn, f)
    site = self.site(n)
    if d in OPENERS:
      self.raises(n, st, out)
      r = ('raw',) + site + (ast.unparse(n),)
      return [(st._replace(open=st.open | {r}), ('rid', r))]
    if isinstance(f, ast.Attribute):
      r = self.method(n, st, recv, vals, out, site)
      if r is not None:
        return r
    if d == 'contextlib.closing' and vals and vals[0][0] == 'rid':
      return [(st, vals[0])]
    if d in ('list', 'tuple', 'set', 'iter', 'reversed', 'sorted') and (
        len(vals) == 1 and vals[0][0] in ('alias', 'cont')):
      self.raises(n, st, out)
      return [(st, vals[0])]
    ts = self.targets(n)
    rel = [t for t in ts if t[0].q in self.relevant and
           not t[0].is_abstract]
    if not rel:
      self.raises(n, st, out)
      return [(st, UNKNOWN)]
    res = []
    if len(rel) < len(ts):
      self.raises(n, st, out)
      if any(t[0].q not in self.relevant for t in ts):
        res.append((st, UNKNOWN))
    for t, cls, how in rel:
      res += self.call(n, t, cls, how, st, recv, vals, out, site)
    return res

  def method(self, n, st, recv, vals, out, site):
    f = n.func
    p = path_of(f.value)
    a = f.attr
    if recv[0] == 'rid' and recv[1][0] in ('raw', 'lib', 'held', 'param',
                                           'elem', 'popped'):
      if a in ('close', 'Close'):
        # Closing is taken not to fail.
        if recv[1][0] == 'elem':
          return [(self.close(st, recv[1]), NONE)]
        return [(self.close(st, recv[1]), NONE)]
    if recv[0] == 'rid' and recv[1][0] == 'inst':
      if self.closes(recv[1][1], recv[1][2], a):
        return [(self.close(st, recv[1]), NONE)]
    if recv[0] == 'rid' and recv[1][0] == 'obj' and a in CLOSE_NAMES:
      g = self.p.find_method(recv[1][1], a)
      if g is not None and not any(k == 'return' for k, _, _ in self.run(
          g, recv[1][1], self.init_state(recv[1][1]))):
        self.misuse.add((self.stack[-1][0], n.lineno,
                         recv[1][1].split(':')[-1], a))
    if a in CLOSE_NAMES and not (isinstance(f.value, ast.Name) and
                                 f.value.id == 'self') and not isinstance(
                                     f.value, ast.Call):
      return [(st, NONE)]
    # Containers.
    if p is not None and a in ('append', 'add', 'insert', 'appendleft',
                               'setdefault', 'extend', 'update'):
      rs = set()
      for v in vals:
        if v[0] == 'rid' and v[1][0] != 'obj':
          rs.add(v[1])
        elif v[0] == 'cont':
          rs |= v[1]
      if rs:
        for r in rs:
          st = self.bind(st, p + '[]', ('rid', r), weak=True)
        return [(st, UNKNOWN)]
    if p is not None and a in ('enter_context', 'callback', 'push'):
      for v, x in zip(vals, n.args):
        if v[0] == 'rid':
          return [(self.bind(st, p + '!', v, weak=True), v)]
        if isinstance(x, ast.Attribute) and x.attr in ('close', 'Close'):
          b = self.value_at(st, path_of(x.value) or '')
          if b[0] == 'rid':
            return [(self.bind(st, p + '!', b, weak=True), UNKNOWN)]
    if p is not None and a in DRAIN and self.rids(st, p + '[]'):
      self.raises(n, st, out)
      r = ('popped',) + site + (p,)
      res = [(st._replace(open=st.open | {r}), ('rid', r))]
      if vals[1:]:
        res.append((st, vals[1]))
      return res
    if p is not None and a in ('values', 'items', 'copy') and self.rids(
        st, p + '[]'):
      return [(st, ('alias', p))]
    if p is not None and a == 'get' and self.rids(st, p + '[]'):
      self.raises(n, st, out)
      return [(st, ('rid', ('elem', p))), (st, NONE)]
    ts = self.targets(n)
    if not ts and a in OPEN_METHODS:
      self.raises(n, st, out)
      r = ('raw',) + site + (ast.unparse(n),)
      return [(st._replace(open=st.open | {r}), ('rid', r)), (st, NONE)]
    if not ts and a in LIBRARY_OPEN and not (
        isinstance(f.value, ast.Name) and
        f.value.id in self.stack[-1][1].module.imports and
        f.value.id not in self.stack[-1][1].locals):
      self.raises(n, st, out)
      r = ('lib',) + site + (ast.unparse(f.value),)
      s = st._replace(open=st.open | {r})
      return [(self.bind(s, p, ('rid', r)) if p else s, UNKNOWN)]
    return None

  def call(self, n, t, cls, how, st, recv, vals, out, site):
    """A call of a function of the program."""
    names = [a.arg for a in t.node.args.args]
    if t.kind in ('method', 'class') and names:
      names = names[1:]
    given = dict(zip(names, vals))
    for k, v in zip([k.arg for k in n.keywords], vals[len(n.args):]):
      if k:
        given[k] = v
    if t.is_gen:
      self.raises(n, st, out)
      return [(st, UNKNOWN)]
    params = frozenset((k, v[1]) for k, v in given.items()
                       if v[0] == 'rid' and v[1][0] != 'obj')
    for k, v in given.items():
      if v[0] == 'alias':
        params |= {(k + '[]', r) for r in self.rids(st, v[1] + '[]')}
    consts = frozenset((k, v[1]) for k, v in given.items()
                       if v[0] == 'const')
    if how == 'self':
      mine = frozenset((p, r) for p, r in st.binds if not local(p))
      entry = State(mine | params, frozenset(st.open),
                    frozenset((p, c) for p, c in st.consts
                              if not local(p)) | consts)
    elif how == 'new':
      entry = State(params, st.open, consts)
    elif how == 'inst':
      entry = State(params, st.open, consts)
      init = self.init_state(cls) if cls else EMPTY
      entry = entry._replace(consts=entry.consts | init.consts)
    else:
      entry = State(params, st.open, consts)
    opened_by = how == 'inst' and (
        recv[0] != 'rid' or recv[1][0] == 'obj') and cls is not None and (
        self.is_opener(t, cls))
    if how == 'inst' and not opened_by and t.q not in self.direct:
      self.raises(n, st, out)
      return [(st, UNKNOWN)]
    res = []
    before = st.open
    rests = self.run(t, cls, entry)
    if not rests:
      self.raises(n, st, out)
    for kind, s, v in rests:
      fresh = s.open - before
      gone = before - s.open
      if how == 'self':
        x = State(frozenset((p, r) for p, r in st.binds if local(p)) |
                  frozenset((p, r) for p, r in s.binds if not local(p)),
                  s.open,
                  frozenset((p, c) for p, c in st.consts if local(p)) |
                  frozenset((p, c) for p, c in s.consts if not local(p)))
      else:
        x = st._replace(open=st.open - gone)
      if kind == 'raise':
        out.append(('raise', x, v))
        continue
      val = v
      if how != 'self':
        owned = {r for p, r in s.binds if not local(p)} & s.open
        if how == 'new':
          val = UNKNOWN
          kept = [r for p, r in s.binds if not local(p) and r in before]
          if kept and self.owns(cls, t, entry):
            val = ('rid', kept[0])
          elif owned - before:
            r = ('inst', cls, t.q) + site
            if not self.closes(cls, t.q, '__del__'):
              x = x._replace(open=x.open | {r})
              val = ('rid', r)
          elif not owned and self.can_close(cls):
            val = ('rid', ('obj', cls) + site)
        elif opened_by and not owned - before:
          continue   # what it opened came from an unknown place
        elif opened_by:
          r = ('inst', cls, t.q) + site
          p = path_of(n.func.value)
          if not self.closes(cls, t.q, '__del__'):
            x = x._replace(open=x.open | {r})
            if p:
              x = self.bind(x, p, ('rid', r), weak=False)
        elif v[0] == 'rid' and v[1] in fresh:
          r = v[1]
          if r[0] == 'inst':
            r = r[:3] + site
          else:
            r = (r[0],) + site + (ast.unparse(n),)
          x = x._replace(open=x.open | {r})
          val = ('rid', r)
      elif v[0] == 'rid' and v[1] in fresh:
        r = v[1]
        if not any(b == r for p, b in x.binds):
          new = r[:3] + site if r[0] == 'inst' else (
              (r[0],) + site + (ast.unparse(n),))
          x = x._replace(open=(x.open - {r}) | {new})
          val = ('rid', new)
      res.append((x, val))
    return self.unique(res)

  # -- owners -----------------------------------------------------------------

  def init_state(self, cls):
    key = ('init', cls)
    if key not in self.memo:
      self.memo[key] = EMPTY
      f = self.p.find_method(cls, '__init__')
      if f is not None:
        res = [s for k, s, v in self.run(f, cls, EMPTY) if k == 'return']
        if res:
          c = res[0].consts
          for s in res[1:]:
            c &= s.consts
          self.memo[key] = State(frozenset(), frozenset(), frozenset(
              (p, x) for p, x in c if not local(p)))
    return self.memo[key]

  def opened(self, t, cls):
    """States in which an object is left by a method that opens it."""
    key = ('opened', t.q, cls)
    if key not in self.memo:
      self.memo[key] = ()
      self.memo[key] = tuple(dict.fromkeys(
          s for k, s, v in self.run(t, cls, self.init_state(cls))
          if k == 'return' and {r for p, r in s.binds
                                if not local(p)} & s.open))
    return self.memo[key]

  def is_opener(self, t, cls):
    if t.is_gen or t.q not in self.relevant:
      return False
    st = self.opened(t, cls)
    if not st:
      return False
    if t.name in ('Open', 'open', '__enter__', '__init__'):
      return True
    res = [s for k, s, v in self.run(t, cls, self.init_state(cls))
           if k == 'return']
    return len(set(res)) == len(st)

  def can_close(self, cls):
    f = self.p.find_method(cls, 'Close') or self.p.find_method(cls, 'close')
    return f is not None and f.q in self.relevant

  def owns(self, cls, t, entry):
    """Does an object close what it was made with."""
    for m in CLOSE_NAMES:
      f = self.p.find_method(cls, m)
      if f is None or f.q not in self.relevant:
        continue
      for k, s, v in self.run(t, cls, entry):
        if k != 'return':
          continue
        kept = {r for p, r in s.binds if not local(p) and r in entry.open}
        e = State(frozenset(x for x in s.binds if not local(x[0])), s.open,
                  frozenset(x for x in s.consts if not local(x[0])))
        for k2, s2, _ in self.run(f, cls, e):
          if k2 == 'return' and kept and not kept & s2.open:
            return True
    return False

  def closes(self, cls, opener, name):
    """Does a method close all that an opener left open."""
    key = ('closes', cls, opener, name)
    if key not in self.memo:
      self.memo[key] = False
      f = self.p.find_method(cls, name)
      if f is not None and f.q in self.relevant and not f.is_gen and (
          f.q != opener):
        self.memo[key] = not self.unclosed(cls, opener, f)
    return self.memo[key]

  def unclosed(self, cls, opener, f, extra=frozenset()):
    """Places still open after a closing method; None if it never ends."""
    bad = set()
    starts = self.opened(self.p.functions[opener], cls)
    if not starts:
      return {'?'}
    for s in starts:
      s = self.add_held(s, extra)
      mine = {r for p, r in s.binds if not local(p)} & s.open
      res = self.run(f, cls, s)
      ends = [x for k, x, v in res if k == 'return'] or [
          x for k, x, v in res]
      if not ends:
        bad.add('?')
      for x in ends:
        for r in mine & x.open:
          bad |= {p for p, b in s.binds if b == r}
    return bad

  def add_held(self, s, extra):
    b, o = set(s.binds), set(s.open)
    for p in extra:
      if not any(q == p for q, _ in b):
        b.add((p, ('held', p)))
        o.add(('held', p))
    return State(frozenset(b), frozenset(o), frozenset(
        (p, c) for p, c in s.consts if p not in extra))

  # -- statements -------------------------------------------------------------

  def refine(self, t, st, truth, out):
    """States in which a condition has this truth."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
      return self.refine(t.operand, st, not truth, out)
    if isinstance(t, ast.BoolOp):
      conj = isinstance(t.op, ast.And) == truth
      if conj:
        cur = [st]
        for x in t.values:
          cur = [y for s in cur for y in self.refine(x, s, truth, out)]
        return cur
      res = []
      cur = [st]
      for x in t.values:
        nxt = []
        for s in cur:
          res += self.refine(x, s, truth, out)
          nxt += self.refine(x, s, not truth, [])
        cur = nxt
      return list(dict.fromkeys(res))
    if isinstance(t, ast.Constant):
      return [st] if bool(t.value) == truth else []
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
        t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(
            t.comparators[0], ast.Constant) and (
                t.comparators[0].value is None or isinstance(
                    t.comparators[0].value, bool)):
      want = t.comparators[0].value
      same = isinstance(t.ops[0], (ast.Is, ast.Eq)) == truth
      res = []
      for s, v in self.ev(t.left, st, out):
        if v[0] == 'const':
          if (v[1] is want) == same:
            res.append(s)
        elif v[0] == 'rid' and v[1][0] != 'elem':
          if want is None and same:
            if v[1][0] in ('param', 'raw'):
              res.append(self.forget(s, v[1]))
          else:
            res.append(s)
        else:
          res.append(s)
      return res
    res = []
    for s, v in self.ev(t, st, out):
      p = path_of(t.target) if isinstance(t, ast.NamedExpr) else path_of(t)
      if v[0] == 'const':
        if bool(v[1]) == truth:
          res.append(s)
      elif v[0] == 'rid' and p is not None and v[1][0] != 'elem':
        if truth:
          res.append(s)
        elif v[1][0] in ('raw', 'popped', 'held'):
          res.append(self.forget(s, v[1]))
      elif v[0] == 'rid' and p is not None:
        # An element that is nothing needs not be closed.
        res.append(s if truth else self.close(s, v[1]))
      elif v[0] == 'alias' and not truth:
        for r in self.rids(s, v[1] + '[]'):
          s = self.forget(s, r)
        res.append(s)
      else:
        res.append(s)
    return res

  def assign(self, t, st, v, out):
    if isinstance(t, (ast.Tuple, ast.List)):
      self.raises(t, st, out)
      for i, e in enumerate(t.elts):
        last = i == len(t.elts) - 1
        st = self.assign(e, st, v if last and v[0] == 'rid' else UNKNOWN, out)
      return st
    if isinstance(t, ast.Starred):
      return self.assign(t.value, st, v, out)
    p = path_of(t)
    self.raises(t, st, out)
    if p is None:
      return st
    if v[0] == 'alias':
      rs = self.rids(st, v[1] + '[]')
      st = self.bind(st, p, UNKNOWN)
      for r in rs:
        st = self.bind(st, p + '[]', ('rid', r), weak=True)
      return st
    return self.bind(st, p, v, weak=isinstance(t, ast.Subscript))

  def block(self, body, states):
    live = list(dict.fromkeys(states))
    res = []
    for s in body:
      nxt = []
      for st in live:
        for o in self.stmt(s, st):
          if o[0] == 'fall':
            nxt.append(o[1])
          else:
            res.append(o)
      live = list(dict.fromkeys(nxt))
      if len(live) > 400:
        raise RuntimeError('too many states in %s' % (self.stack[-1][0],))
    return list(dict.fromkeys(res)) + [('fall', x, None) for x in live]

  def stmt(self, s, st):
    out = []
    if isinstance(s, ast.Return):
      for x, v in self.ev(s.value, st, out):
        out.append(('return', x, v))
      return out
    if isinstance(s, ast.Expr):
      for x, v in self.ev(s.value, st, out):
        out.append(('fall', x, None))
      return out
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
      if s.value is None:
        return [('fall', st, None)]
      for x, v in self.ev(s.value, st, out):
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
          x = self.assign(t, x, v, out)
        out.append(('fall', x, None))
      return out
    if isinstance(s, ast.AugAssign):
      for x, v in self.ev(s.value, st, out):
        p = path_of(s.target)
        if p and v[0] == 'cont':
          for r in v[1]:
            x = self.bind(x, p + '[]', ('rid', r), weak=True)
        elif p:
          x = x._replace(consts=frozenset(
              c for c in x.consts if c[0] != p))
        self.raises(s, x, out)
        self.raises(s.target, x, out)
        out.append(('fall', x, None))
      return out
    if isinstance(s, ast.If):
      for x in self.refine(s.test, st, True, out):
        out += self.block(s.body, [x])
      for x in self.refine(s.test, st, False, out):
        out += self.block(s.orelse, [x])
      return out
    if isinstance(s, ast.While):
      after = []
      seen = {st}
      todo = [st]
      while todo:
        x = todo.pop()
        after += self.refine(s.test, x, False, out)
        for y in self.refine(s.test, x, True, []):
          for o in self.block(s.body, [y]):
            if o[0] in ('fall', 'continue'):
              if o[1] not in seen:
                seen.add(o[1])
                todo.append(o[1])
            elif o[0] == 'break':
              out.append(('fall', o[1], None))
            else:
              out.append(o)
      for x in dict.fromkeys(after):
        out += self.block(s.orelse, [x]) if s.orelse else [('fall', x, None)]
      return list(dict.fromkeys(out))
    if isinstance(s, ast.For):
      return self.st_for(s, st)
    if isinstance(s, ast.With):
      return self.st_with(s.items, s.body, st)
    if isinstance(s, ast.Try):
      return self.st_try(s, st)
    if isinstance(s, ast.Raise):
      if s.exc is not None:
        self.ev(s.exc, st, out)
        names = self.it.raise_at.get(id(s)) or {'Exception'}
        for e in sorted(names):
          out.append(('raise', st, e))
      else:
        h = self.stack[-1][3]
        out.append(('raise', st, h[-1] if h else 'Exception'))
      return out
    if isinstance(s, ast.Break):
      return [('break', st, None)]
    if isinstance(s, ast.Continue):
      return [('continue', st, None)]
    if isinstance(s, ast.Delete):
      for t in s.targets:
        p = path_of(t)
        if p and not p.endswith('[]'):
          st = self.bind(st, p, UNKNOWN)
      return [('fall', st, None)]
    if isinstance(s, ast.Assert):
      self.raises(s, st, out)
      for x in self.refine(s.test, st, True, out):
        out.append(('fall', x, None))
      return out
    return [('fall', st, None)]

  def st_for(self, s, st):
    out = []
    it, target = s.iter, s.target
    if (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
        it.func.id == 'enumerate' and it.args and
        isinstance(target, ast.Tuple) and len(target.elts) == 2):
      st = self.assign(target.elts[0], st, UNKNOWN, out)
      it, target = it.args[0], target.elts[1]
    for x, v in self.ev(it, st, out):
      self.raises(s, x, out)
      cont = v[1] if v[0] == 'alias' else None
      if v[0] == 'cont':
        cont = '#%d' % getattr(it, 'lineno', 0)
        x = self.bind(x, cont, v)
      if cont is None and path_of(it):
        p = path_of(it)
        if self.rids(x, p + '[]'):
          cont = p
      elem = ('elem', cont) if cont else None
      start = x
      after = []
      if cont:
        empty = x
        for r in self.rids(x, cont + '[]'):
          empty = self.forget(empty, r)
        after.append(empty)
      else:
        after.append(x)
      seen = {start}
      todo = [start]
      while todo:
        y = todo.pop()
        if elem:
          y = y._replace(open=y.open | {elem})
          y = self.assign(target, y, ('rid', elem), out)
        else:
          y = self.assign(target, y, UNKNOWN, out)
        for o in self.block(s.body, [y]):
          z = o[1]
          if elem and o[0] in ('fall', 'continue', 'break'):
            done = elem not in z.open
            z = z._replace(open=z.open - {elem}, binds=frozenset(
                b for b in z.binds if b[1] != elem))
            if o[0] == 'break':
              out.append(('fall', z, None))
              continue
            if done:
              e = z
              for r in self.rids(z, cont + '[]'):
                e = self.forget(e, r)
              after.append(e)
            else:
              after.append(z)
              if z not in seen:
                seen.add(z)
                todo.append(z)
          elif o[0] in ('fall', 'continue'):
            after.append(z)
            if z not in seen:
              seen.add(z)
              todo.append(z)
          elif o[0] == 'break':
            out.append(('fall', z, None))
          else:
            if elem:
              z = z._replace(open=z.open - {elem})
            out.append((o[0], z, o[2]))
      for z in dict.fromkeys(after):
        out += self.block(s.orelse, [z]) if s.orelse else [('fall', z, None)]
    return list(dict.fromkeys(out))

  def st_with(self, items, body, st):
    if not items:
      return self.block(body, [st])
    out = []
    i = items[0]
    for x, v in self.ev(i.context_expr, st, out):
      names = []
      y = x
      if i.optional_vars is not None:
        y = self.assign(i.optional_vars, x, v, out)
        if isinstance(i.optional_vars, ast.Name):
          names.append(i.optional_vars.id)
      for o in self.st_with(items[1:], body, y):
        z = o[1]
        if v[0] == 'rid':
          r = v[1]
          closing = 'closing' in ast.unparse(i.context_expr)
          if r[0] != 'inst' or closing or self.closes(
              r[1], r[2], '__exit__'):
            z = self.close(z, r)
        for nme in names:
          for r in self.rids(z, nme + '!'):
            z = self.close(z, r)
        out.append((o[0], z, o[2]))
    return list(dict.fromkeys(out))

  def st_try(self, s, st):
    ends = []
    for o in self.block(s.body, [st]):
      if o[0] == 'fall' and s.orelse:
        ends += self.block(s.orelse, [o[1]])
        continue
      if o[0] != 'raise':
        ends.append(o)
        continue
      caught = False
      for h in s.handlers:
        types = self.it.handler_types.get(id(h), ()) if h.type is not None \
            else None
        m = 'no'
        if types is None:
          m = 'yes'
        else:
          for t in types:
            r = self.matches(o[2], t)
            m = r if r == 'yes' or m == 'no' else m
        if m == 'no':
          continue
        self.stack[-1][3].append(o[2])
        ends += self.block(h.body, [o[1]])
        self.stack[-1][3].pop()
        if m == 'yes':
          caught = True
          break
      if not caught:
        ends.append(o)
    ends = list(dict.fromkeys(ends))
    if not s.finalbody:
      return ends
    out = []
    for kind, x, v in ends:
      for o in self.block(s.finalbody, [x]):
        out.append((kind, o[1], v) if o[0] == 'fall' else o)
    return list(dict.fromkeys(out))

  def matches(self, exc, t):
    if exc == 'GeneratorExit':
      return 'yes' if t in ('GeneratorExit', 'BaseException') else 'no'
    return self.it.exc_matches(exc, t)

  # -- functions --------------------------------------------------------------

  def run(self, f, cls, entry):
    """Outcomes ('return' or 'raise', state, value) of a function."""
    key = (f.q, cls, entry)
    if key in self.memo:
      return self.memo[key]
    if key in self.progress or len(self.stack) > 40:
      return []
    self.progress.add(key)
    self.stack.append((f.q, f, cls, []))
    res = []
    for kind, s, v in self.block(f.node.body, [entry]):
      if kind == 'fall':
        kind, v = 'return', NONE
      if kind not in ('return', 'raise'):
        continue
      keep = {r for p, r in s.binds if not local(p)}
      args = {a.arg for a in f.node.args.args}
      for p, r in s.binds:
        if p.split('.')[0].split('[')[0] in args and p not in args:
          keep.add(r)   # an object that the caller has
      if kind == 'return' and v is not None and v[0] == 'rid':
        keep.add(v[1])
      if kind == 'return' and v is not None and v[0] in ('cont',):
        keep |= v[1]
      if kind == 'return' and v is not None and v[0] == 'alias':
        keep |= self.rids(s, v[1] + '[]')
      for r in s.open - entry.open - keep:
        self.leaks.setdefault((f.q, r, kind), set()).add(
            v if kind == 'raise' else '')
      # What the object no longer refers to was lost here.
      for p, r in entry.binds:
        if not local(p) and r in s.open and r not in keep and (
            r in entry.open):
          self.leaks.setdefault((f.q, ('lost', p, f.q), kind), set()).add(
              v if kind == 'raise' else '')
      s = State(frozenset(b for b in s.binds if not local(b[0])),
                frozenset(r for r in s.open if r in entry.open or r in keep),
                frozenset(c for c in s.consts if not local(c[0])))
      if kind == 'return' and (v is None or v[0] not in ('rid', 'const')):
        v = UNKNOWN
      res.append((kind, s, v))
    self.stack.pop()
    self.progress.discard(key)
    res = list(dict.fromkeys(res))
    self.memo[key] = res
    return res
