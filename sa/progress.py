"""Progress of loops: what each iteration does to the values it starts with.

A dataflow analysis over the syntax tree. The value of a place (a variable,
an attribute path, the position of a file, the length of a container) is
described relative to the values at the loop head or function entry: base ->
interval of the difference, and the base ZERO for its numeric interval. Facts
that hold on every path are kept as a set: a value is bounded by something the
loop does not change, a value is not in a set, a set has grown.

What calls do comes from the analysis of the callee (targets are those the
interpreter found) and from the primitives that read from files.
"""

import ast

from sa import values as V

ZERO = 0
TOP = {}
READ_DATA = '_ReadData'
READ_FILE = '_ReadStructureFromFileObject'
READ_STREAM = '_ReadStructureFromByteStream'
GROW = {'append', 'add', 'appendleft', 'insert'}
SHRINK = {'pop', 'popleft', 'popitem', 'remove'}
MUTATE = GROW | SHRINK | {'extend', 'update', 'clear', 'discard',
                          'difference_update', 'intersection_update'}


def path_of(n):
  if isinstance(n, ast.Name):
    return n.id
  if isinstance(n, ast.Attribute):
    b = path_of(n.value)
    return b + '.' + n.attr if b else None
  return None


def under(path, root):
  """Whether a place is (part of) another one."""
  if path.startswith('@'):
    path = path[1:]
  if path.startswith('len(') and path.endswith(')'):
    path = path[4:-1]
  if '+' in path:
    return any(under(x, root) for x in path.split('+'))
  return path == root or path.startswith(root + '.')


def add_iv(a, b):
  return (None if a[0] is None or b[0] is None else a[0] + b[0],
          None if a[1] is None or b[1] is None else a[1] + b[1])


def neg_iv(a):
  return (None if a[1] is None else -a[1], None if a[0] is None else -a[0])


def meet_iv(a, b):
  lo = b[0] if a[0] is None else a[0] if b[0] is None else max(a[0], b[0])
  hi = b[1] if a[1] is None else a[1] if b[1] is None else min(a[1], b[1])
  return lo, hi


def hull_iv(a, b):
  return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
          None if a[1] is None or b[1] is None else max(a[1], b[1]))


FULL = (None, None)


def num(v):
  return v.get(ZERO, FULL)


def meet(a, b):
  out = dict(a)
  for k, iv in b.items():
    out[k] = meet_iv(out[k], iv) if k in out else iv
  return out


def hull(a, b):
  out = {}
  for k in a:
    if k in b:
      iv = hull_iv(a[k], b[k])
      if iv != FULL:
        out[k] = iv
  return out


def plus(a, b):
  out = {}
  nb, na = num(b), num(a)
  for k, iv in a.items():
    out[k] = add_iv(iv, nb)
  for k, iv in b.items():
    if k == ZERO:
      continue
    x = add_iv(iv, na)
    out[k] = meet_iv(out[k], x) if k in out else x
  # The sum of two unknown values.
  ka = [k for k in a if k != ZERO and k[0] != 's']
  kb = [k for k in b if k != ZERO and k[0] != 's']
  if len(ka) <= 3 and len(kb) <= 3:
    for k in ka:
      for j in kb:
        out[('s',) + tuple(sorted((k, j)))] = add_iv(a[k], b[j])
  return {k: iv for k, iv in out.items() if iv != FULL}


def minus(a, b):
  out = {}
  nb = neg_iv(num(b))
  for k, iv in a.items():
    out[k] = add_iv(iv, nb)
  for k, iv in b.items():
    if k != ZERO and k in a:
      # The same base on both sides: the difference is a number.
      d = add_iv(a[k], neg_iv(iv))
      out[ZERO] = meet_iv(out.get(ZERO, FULL), d)
  return {k: iv for k, iv in out.items() if iv != FULL}


def constant(i):
  return {ZERO: (i, i)}


def interval(v):
  """Numeric value of what the interpreter found."""
  if v is None:
    return TOP
  b = V.bounds(frozenset(t for t in v if t[0] != 'none'))
  if b is None:
    return TOP
  return {ZERO: b} if b != FULL else TOP


class State:
  """What is known at a point."""

  __slots__ = ('env', 'facts', 'defs')

  def __init__(self, env=None, facts=frozenset(), defs=None):
    self.env = env if env is not None else {}
    self.facts = facts
    self.defs = defs if defs is not None else {}

  def copy(self):
    return State(dict(self.env), self.facts, dict(self.defs))

  def kill(self, root, keep_len=False):
    """Forgets what depends on a place."""
    for k in [k for k in self.env if under(k, root)]:
      del self.env[k]
    for k in [k for k, d in self.defs.items()
              if under(k, root) or any(under(p, root) or under(root, p)
                                       for p in d[1])]:
      del self.defs[k]
    self.facts = frozenset(
        f for f in self.facts
        if f[0] in ('ub', 'lb', 'fresh', 'eaten') or
        not any(under(p, root) for p in f[1:] if isinstance(p, str)))


def join(a, b):
  if a is None:
    return b
  if b is None:
    return a
  env = {}
  for k in a.env:
    if k in b.env:
      x, y = a.env[k], b.env[k]
      if isinstance(x, tuple) or isinstance(y, tuple):
        if (isinstance(x, tuple) and isinstance(y, tuple) and
            len(x) == len(y)):
          env[k] = tuple(hull(p, q) for p, q in zip(x, y))
        continue
      env[k] = hull(x, y)
  return State(env, a.facts & b.facts,
               {k: d for k, d in a.defs.items() if b.defs.get(k) == d})


def widen(old, new, marks):
  """Moves unstable bounds to the next mark."""
  env = {}
  for k, v in new.env.items():
    o = old.env.get(k)
    if isinstance(v, tuple) or isinstance(o, tuple) or o is None:
      if v == o:
        env[k] = v
      continue
    w = {}
    for b, (lo, hi) in v.items():
      if b not in o:
        continue
      ol, oh = o[b]
      if ol is None or lo is None or lo < ol:
        lo = None if lo is None or ol is None else max(
            (m for m in marks if m <= lo), default=None)
      if oh is None or hi is None or hi > oh:
        hi = None if hi is None or oh is None else min(
            (m for m in marks if m >= hi), default=None)
      if (lo, hi) != FULL:
        w[b] = (lo, hi)
    env[k] = w
  return State(env, new.facts & old.facts,
               {k: d for k, d in new.defs.items() if old.defs.get(k) == d})


def same(a, b):
  return (a is None) == (b is None) and (
      a is None or (a.env == b.env and a.facts == b.facts and
                    a.defs == b.defs))


class Summary:
  """What a call does, in terms of the values at its start."""

  def __init__(self):
    self.ret = TOP          # value or tuple of values
    self.env = None         # places of the callee at its end
    self.facts = frozenset()
    self.eats = False       # every result that is true was consumed
    self.parts = []         # one for each return
    self.objs = {}          # attributes of the result: (index, name) -> value


def components(graph):
  """Strongly connected components; None for a node on no cycle."""
  index, low, on, stack, out = {}, {}, set(), [], {}
  n = 0
  for root in sorted(graph, key=repr):
    if root in index:
      continue
    work = [(root, iter(sorted(graph[root], key=repr)))]
    index[root] = low[root] = n
    n += 1
    stack.append(root)
    on.add(root)
    while work:
      v, it = work[-1]
      for w in it:
        if w not in index:
          index[w] = low[w] = n
          n += 1
          stack.append(w)
          on.add(w)
          work.append((w, iter(sorted(graph[w], key=repr))))
          break
        if w in on:
          low[v] = min(low[v], index[w])
      else:
        work.pop()
        if work:
          low[work[-1][0]] = min(low[work[-1][0]], low[v])
        if low[v] == index[v]:
          c = []
          while True:
            w = stack.pop()
            on.discard(w)
            c.append(w)
            if w == v:
              break
          for w in c:
            out[w] = v if len(c) > 1 or v in graph[v] else (w, None)
  return out


def names_in(n):
  return {p for x in ast.walk(n) for p in [path_of(x)] if p}


def stored_in(stmts):
  """Places assigned in statements."""
  out = set()

  def target(t):
    if isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        target(x)
    elif isinstance(t, ast.Starred):
      target(t.value)
    elif isinstance(t, ast.Subscript):
      p = path_of(t.value)
      if p:
        out.add('len(%s)' % p)
    else:
      p = path_of(t)
      if p:
        out.add(p)
  for s in stmts:
    for n in ast.walk(s):
      if isinstance(n, ast.Assign):
        for t in n.targets:
          target(t)
      elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
        target(n.target)
      elif isinstance(n, ast.NamedExpr):
        target(n.target)
      elif isinstance(n, ast.withitem) and n.optional_vars is not None:
        target(n.optional_vars)
      elif isinstance(n, ast.ExceptHandler) and n.name:
        out.add(n.name)
      elif isinstance(n, ast.Delete):
        for t in n.targets:
          target(t)
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        if n.func.attr in MUTATE:
          p = path_of(n.func.value)
          if p:
            out.add('len(%s)' % p)
  return out


def step_of(s):
  """x += y, also when it is written as x = x + y."""
  if isinstance(s, ast.AugAssign):
    return s
  if (isinstance(s, ast.Assign) and len(s.targets) == 1 and
      isinstance(s.value, ast.BinOp) and
      isinstance(s.value.op, (ast.Add, ast.Sub))):
    p = path_of(s.targets[0])
    v = s.value
    if p and path_of(v.left) == p:
      return ast.copy_location(
          ast.AugAssign(s.targets[0], v.op, v.right), s)
    if p and isinstance(v.op, ast.Add) and path_of(v.right) == p:
      return ast.copy_location(
          ast.AugAssign(s.targets[0], v.op, v.left), s)
  return None


class Progress:
  """The analysis for one interpreter result."""

  def __init__(self, it):
    self.it = it
    self.p = it.p
    self.sites = {}       # caller -> {(line, column): callees}
    for key, calls in it.callees.items():
      d = self.sites.setdefault(key[0], {})
      for line, col, ctx in calls:
        d.setdefault((line, col), set()).add(ctx[0])
    self.memo = {}
    self.active = set()
    self.universes = {}
    self.results = {}     # id(loop) -> (function, loop, verdict, reason)
    self.recursive = {}   # (caller, id(call), callee) -> (f, call, g, kind)
    self.pushbacks = set()
    self.cycles = self.find_cycles()

  # -- the program ----------------------------------------------------------

  def find_cycles(self):
    """Call sites on cycles of the call graph, by class of the object."""
    graph = {}
    sites = []
    for key, calls in self.it.callees.items():
      a = (key[0], key[1])
      for line, col, ctx in calls:
        b = (ctx[0], ctx[1])
        graph.setdefault(a, set()).add(b)
        graph.setdefault(b, set())
        sites.append((a, line, col, b))
    comp = components(graph)
    out = {}
    for a, line, col, b in sites:
      if comp[a] == comp[b]:
        out[(a[0], line, col, b[0])] = comp[a]
    return out

  def targets(self, f, node):
    """Functions of the program that a call can reach."""
    qs = self.sites.get(f.q, {}).get(
        (node.lineno, node.col_offset), ())
    fs = [self.p.functions[q] for q in qs if q in self.p.functions]
    fs = [x for x in fs if isinstance(x.node, ast.FunctionDef)]
    name = None
    if isinstance(node.func, ast.Attribute):
      name = node.func.attr
    elif isinstance(node.func, ast.Name):
      name = node.func.id
    same_name = [x for x in fs if x.name == name]
    if same_name:
      return same_name
    # A constructor, or a function held in a variable.
    return [x for x in fs if not x.is_property]

  def universe(self, f):
    """Places of the arguments and the object that a function works on."""
    if f.q in self.universes:
      return self.universes[f.q]
    self.universes[f.q] = out = set()
    args = f.node.args
    roots = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
    for n in ast.walk(f.node):
      p = path_of(n)
      if p and p.split('.')[0] in roots:
        out.add(p)
        out.add('@' + p)
        out.add('len(%s)' % p)
    for n in ast.walk(f.node):
      if not isinstance(n, ast.Call):
        continue
      for g in self.targets(f, n):
        m = self.mapping(f, n, g)
        for k in self.universe(g):
          c = m(k)
          if c and c.lstrip('@').replace('len(', '').split('.')[0].rstrip(
              ')') in roots and len(c) < 80:
            out.add(c)
    return out

  def mapping(self, f, node, g):
    """Translates places of a callee to places of the caller."""
    names = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
    to = {}
    if g.kind in ('method', 'class') and names:
      r = None
      if isinstance(node.func, ast.Attribute):
        v = node.func.value
        if isinstance(v, ast.Call) and isinstance(
            v.func, ast.Name) and v.func.id == 'super':
          r = 'self'
        else:
          r = path_of(v)
        if g.name == '__init__' and node.func.attr != '__init__':
          r = None
      to[names[0]] = r
      names = names[1:]
    exprs = {}
    for name, a in zip(names, node.args):
      if isinstance(a, ast.Starred):
        break
      to[name] = path_of(a)
      exprs[name] = a
    for k in node.keywords:
      if k.arg:
        to[k.arg] = path_of(k.value)
        exprs[k.arg] = k.value

    def translate(place):
      pre, post = '', ''
      if place.startswith('@'):
        pre, place = '@', place[1:]
      elif place.startswith('len('):
        pre, post, place = 'len(', ')', place[4:-1]
      if '+' in place:
        return None
      head, _, rest = place.partition('.')
      r = to.get(head)
      if r is None:
        return None
      return pre + r + ('.' + rest if rest else '') + post
    translate.exprs = exprs
    return translate

  def summary(self, f):
    if f.q in self.memo:
      return self.memo[f.q]
    if f.q in self.active or len(self.active) > 150:
      return None
    self.active.add(f.q)
    r = Run(self, f)
    s = r.function()
    self.active.discard(f.q)
    if not r.cut:
      self.memo[f.q] = s
    return s

  def everything(self):
    for q in sorted(self.p.functions):
      f = self.p.functions[q]
      if isinstance(f.node, ast.FunctionDef) and q not in self.memo:
        self.summary(f)


class Run:
  """One pass over a function."""

  def __init__(self, an, f):
    self.an = an
    self.it = an.it
    self.f = f
    self.brk = []
    self.cont = []
    self.raisers = []
    self.rets = []
    self.measuring = None
    self.pure = 0
    self.ate = None
    self.objs = {}
    self.cut = False
    self.program = False
    self.marks = sorted({0, 1} | {
        c + d for n in ast.walk(f.node)
        for c in [self.constant(n)] if c is not None for d in (-1, 0, 1)})
    self.pairs = self.find_pairs()

  def constant(self, n):
    if isinstance(n, ast.Constant) and isinstance(
        n.value, int) and not isinstance(n.value, bool):
      return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
      a, b = self.constant(n.left), self.constant(n.right)
      if a is not None and b is not None:
        return a * b
    return None

  def find_pairs(self):
    """Pairs of places where what one gains the other one loses."""
    out = set()
    for n in ast.walk(self.f.node):
      for block in (getattr(n, 'body', None), getattr(n, 'orelse', None)):
        if not isinstance(block, list):
          continue
        augs = [t for t in map(step_of, block) if t]
        for a in augs:
          for b in augs:
            pa, pb = path_of(a.target), path_of(b.target)
            if (pa and pb and pa != pb and isinstance(a.op, ast.Add) and
                isinstance(b.op, ast.Sub) and
                ast.dump(a.value) == ast.dump(b.value)):
              out.add(tuple(sorted((pa, pb))))
    return out

  # -- functions --------------------------------------------------------------

  def function(self):
    f = self.f
    st = State()
    stored = set(stored_in(f.node.body))
    args = f.node.args
    self.params = {a.arg for a in args.posonlyargs + args.args +
                   args.kwonlyargs} - stored - {'self', 'cls'}
    for k in self.an.universe(f):
      st.env[k] = {('p', k): (0, 0)}
      if not k.startswith(('@', 'len(')):
        # Which object it is; this outlives changes to the object.
        st.env['id:' + k] = {('p', k): (0, 0)}
    out = self.block(f.node.body, st)
    if out is not None:
      self.rets.append((TOP, out, True, None))
    s = Summary()
    if not self.rets:
      return s
    changed = stored_in(f.node.body)
    s.eats = all(e for _, _, e, _ in self.rets)
    groups = [[x] for x in self.rets] if len(self.rets) <= 4 else [self.rets]
    s.parts = [self.part(g, changed) for g in groups]
    s.env = s.parts[0].env
    return s

  def part(self, rets, changed):
    """What some of the returns have in common."""
    s = Summary()
    final = None
    ret = None
    objs = None
    for v, x, _, o in rets:
      final = join(final, x)
      if o is not None:
        objs = o if objs is None else {
            k: hull(w, o[k]) for k, w in objs.items() if k in o}
      if ret is None:
        ret = v
      elif isinstance(ret, tuple) and isinstance(v, tuple) and len(
          ret) == len(v):
        ret = tuple(hull(a, b) for a, b in zip(ret, v))
      elif isinstance(ret, dict) and isinstance(v, dict):
        ret = hull(ret, v)
      else:
        ret = TOP
    s.ret = ret
    s.objs = objs or {}
    s.env = final.env
    s.facts = frozenset(
        x for x in final.facts if x[0] in ('ub', 'lb') and
        not any(under(d, c) for d in x[2] for c in changed) or
        x[0] == 'fresh' and self.kept(x[1], final) or
        x[0] == 'notin' and self.kept(x[1], final) and self.kept(
            x[2], final))
    return s

  def kept(self, p, st):
    """A place that the caller knows still refers to the same object."""
    return st.env.get('id:' + p) == {('p', p): (0, 0)}

  # -- statements -------------------------------------------------------------

  def block(self, stmts, st):
    saved = {}
    for i, s in enumerate(stmts):
      if st is None:
        return None
      for c in self.raisers:
        c[0] = join(c[0], st)
      mate = self.mate(stmts, i)
      if mate:
        saved[mate[0]] = (mate[1], st.env.get(mate[1]))
      m = getattr(self, 'st_' + type(s).__name__, None)
      st = m(s, st) if m else st
      if i in saved and st is not None:
        k, v = saved.pop(i)
        if v is not None:
          st.env[k] = v
    return st

  def mate(self, stmts, i):
    """The statement that undoes the sum of what this one adds."""
    s = step_of(stmts[i])
    if s is None or not isinstance(s.op, (ast.Add, ast.Sub)):
      return None
    a = path_of(s.target)
    for j in range(i + 1, len(stmts)):
      t = stmts[j]
      step = step_of(t)
      if step:
        t = step
        b = path_of(t.target)
        pair = tuple(sorted((a or '', b or '')))
        if (pair in self.pairs and type(t.op) is not type(s.op) and
            isinstance(t.op, (ast.Add, ast.Sub)) and
            ast.dump(s.value) == ast.dump(t.value)):
          return j, '+'.join(pair)
      touched = stored_in([stmts[j]])
      need = names_in(s.value) | {a}
      if any(under(n, x) for n in need for x in touched):
        return None
    return None

  def assign(self, path, v, st, value=None):
    """Binds a place."""
    alias = path_of(value) if value is not None else None
    if ('none', path) not in st.facts:
      for k in [k for k in st.env if k.startswith('id:') and under(
          k[3:], path)]:
        del st.env[k]
    length = self.length(value, st) if value is not None else TOP
    deps = names_in(value) if value is not None else set()
    st.kill(path)
    if isinstance(v, tuple):
      st.env[path] = v
    else:
      st.env[path] = v
    if length:
      st.env['len(%s)' % path] = length
    if value is not None and not any(under(d, path) for d in deps) and (
        alias or (isinstance(value, ast.BinOp) and not any(
            isinstance(x, ast.Call) for x in ast.walk(value)))):
      st.defs[path] = (value, frozenset(deps))
    for a, b in self.pairs:
      if path in (a, b):
        st.env[a + '+' + b] = plus(
            self.place(a, st), self.place(b, st))

  def place(self, p, st):
    v = st.env.get(p, TOP)
    return TOP if isinstance(v, tuple) else v

  def target(self, t, v, st, value=None):
    if isinstance(t, (ast.Tuple, ast.List)):
      vals = v if isinstance(v, tuple) and len(v) == len(t.elts) else [
          TOP] * len(t.elts)
      exprs = [None] * len(t.elts)
      if isinstance(value, (ast.Tuple, ast.List)) and len(
          value.elts) == len(t.elts):
        exprs = [None] * len(t.elts)
      for x, y, e in zip(t.elts, vals, exprs):
        self.target(x, y, st, e)
      return
    if isinstance(t, ast.Starred):
      t = t.value
    if isinstance(t, ast.Subscript):
      p = path_of(t.value)
      if p:
        self.grown(p, t.slice, st)
        if 'len(%s)' % p in st.env and not isinstance(
            st.env['len(%s)' % p], tuple):
          st.env['len(%s)' % p] = plus(
              st.env['len(%s)' % p], {ZERO: (0, 1)})
      return
    p = path_of(t)
    if p:
      self.assign(p, v, st, value)

  def st_Assign(self, s, st):
    self.ate = None
    v = self.ev(s.value, st)
    step = step_of(s)
    if step is not None and isinstance(step.op, ast.Add):
      p, b = path_of(step.target), path_of(step.value)
      if p and b and '+'.join(sorted((p, b))) in st.env:
        v = meet(v, st.env['+'.join(sorted((p, b)))])
    ate = self.ate
    objs = dict(self.objs) if isinstance(s.value, ast.Call) else {}
    if isinstance(s.value, (ast.Tuple, ast.List)) and isinstance(
        s.targets[0], (ast.Tuple, ast.List)) and len(
            s.value.elts) == len(s.targets[0].elts):
      v = tuple(self.scalar(x, st) for x in s.value.elts)
    d = self.derived(s.value, st)
    for t in s.targets:
      self.target(t, v, st, s.value)
      if isinstance(t, (ast.Name, ast.Attribute)):
        self.parts_of(t, d, st, False)
      p = path_of(t)
      if p and ate:
        st.facts |= {('ate', p)}
      elts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else []
      for (i, name), x in objs.items():
        q = p if i is None else (
            path_of(elts[i]) if i < len(elts) else None)
        if q:
          st.env[q + '.' + name] = x
    return st

  def st_AnnAssign(self, s, st):
    if s.value is not None:
      self.target(s.target, self.ev(s.value, st), st, s.value)
    return st

  def st_AugAssign(self, s, st):
    y = self.scalar(s.value, st)
    p = path_of(s.target)
    if p is None:
      if isinstance(s.target, ast.Subscript):
        self.ev(s.target.value, st)
      return st
    x = self.place(p, st)
    b = path_of(s.value)
    v = self.arith(s.op, x, y)
    if b and isinstance(s.op, ast.Add):
      pair = '+'.join(sorted((p, b)))
      if pair in st.env:
        v = meet(v, st.env[pair])
    self.assign(p, v, st)
    return st

  def st_Expr(self, s, st):
    self.ev(s.value, st)
    return st

  def st_Delete(self, s, st):
    for t in s.targets:
      p = path_of(t)
      if p:
        st.kill(p)
      elif isinstance(t, ast.Subscript) and path_of(t.value):
        st.env.pop('len(%s)' % path_of(t.value), None)
    return st

  def st_Return(self, s, st):
    self.ate = None
    v = TOP
    eats = True
    if s.value is not None:
      v = self.ev(s.value, st)
      falsy = isinstance(s.value, ast.Constant) and not s.value.value
      p = path_of(s.value)
      eats = bool(self.ate) or falsy or (p and ('ate', p) in st.facts)
    self.rets.append((v, st, bool(eats), self.objects(s.value, st)))
    return None

  def objects(self, node, st):
    """Attributes of the result of an expression; None for no object."""
    if node is None or isinstance(node, ast.Constant):
      return None
    if isinstance(node, ast.Call):
      return dict(self.objs)
    out = {}
    elts = [(None, node)]
    if isinstance(node, ast.Tuple):
      elts = list(enumerate(node.elts))
    for i, e in elts:
      p = path_of(e)
      if not p:
        continue
      for k, v in st.env.items():
        if k.startswith(p + '.') and not isinstance(v, tuple) and v:
          out[(i, k[len(p) + 1:])] = v
    return out

  def st_Raise(self, s, st):
    return None

  def st_Break(self, s, st):
    if self.brk:
      self.brk[-1].append(st)
    return None

  def st_Continue(self, s, st):
    if self.cont:
      self.cont[-1].append(st)
    return None

  def st_Assert(self, s, st):
    self.ev(s.test, st)
    return self.assume(s.test, True, st)

  def st_If(self, s, st):
    self.ev(s.test, st)
    a = self.assume(s.test, True, st.copy())
    b = self.assume(s.test, False, st.copy())
    if a is not None:
      a = self.block(s.body, a)
    if b is not None and s.orelse:
      b = self.block(s.orelse, b)
    return join(a, b)

  def st_With(self, s, st):
    for i in s.items:
      v = self.ev(i.context_expr, st)
      if i.optional_vars is not None:
        self.target(i.optional_vars, v, st)
    return self.block(s.body, st)

  def st_Try(self, s, st):
    box = [st.copy()]
    self.raisers.append(box)
    n = len(self.rets)
    out = self.block(s.body, st)
    self.raisers.pop()
    if out is not None:
      box[0] = join(box[0], out)
    for _, x, _, _ in self.rets[n:]:
      box[0] = join(box[0], x)
    outs = []
    if out is not None:
      if s.orelse:
        out = self.block(s.orelse, out)
      outs.append(out)
    for h in s.handlers:
      x = box[0].copy()
      for k in [k for k in x.env if k.startswith('@')]:
        del x.env[k]
      if h.name:
        x.kill(h.name)
      outs.append(self.block(h.body, x))
    res = None
    for x in outs:
      res = join(res, x)
    if s.finalbody:
      if res is not None:
        res = self.block(s.finalbody, res)
      else:
        x = box[0].copy()
        self.block(s.finalbody, x)
    return res

  st_TryStar = st_Try

  def st_Match(self, s, st):
    self.ev(s.subject, st)
    res = st.copy()
    for c in s.cases:
      res = join(res, self.block(c.body, st.copy()))
    return res

  # -- loops --------------------------------------------------------------------

  def turn(self, s, head):
    """One iteration: the state after the test fails, at the breaks and at
    each way back to the test."""
    st = head.copy()
    self.brk.append([])
    self.cont.append([])
    if isinstance(s, ast.While):
      self.ev(s.test, st)
      t = self.assume(s.test, True, st.copy())
      out = self.assume(s.test, False, st)
    else:
      out = st
      t = st.copy()
      d = self.derived(s.iter, t)
      self.target(s.target, TOP, t)
      self.parts_of(s.target, d, t, True)
      v = self.item(s)
      for x in ([s.target] if isinstance(s.target, ast.Name) else []):
        t.env[x.id] = v
    end = self.block(s.body, t) if t is not None else None
    brk = self.brk.pop()
    back = self.cont.pop()
    if end is not None:
      back.append(end)
    return out, brk, back

  def item(self, s):
    v = self.it.node_values.get(id(s.target))
    return interval(v) if v else TOP

  def st_While(self, s, st):
    head = st
    for i in range(12):
      out, brk, back = self.turn(s, head)
      new = head
      for b in back:
        new = join(new, b)
      if i >= 2:
        new = widen(head, new, self.marks)
      if i >= 9:
        new.env = {k: v for k, v in new.env.items() if head.env.get(k) == v}
      if same(new, head):
        break
      head = new
    grown = isinstance(s, ast.For) and self.grows(s)
    if (isinstance(s, ast.While) or grown) and self.measuring is None:
      self.measure(s, head, grown)
      out, brk, back = self.turn(s, head)
    res = out
    if res is not None and s.orelse:
      res = self.block(s.orelse, res)
    for b in brk:
      res = join(res, b)
    return res

  def st_For(self, s, st):
    self.ev(s.iter, st)
    return self.st_While(s, st)

  def source(self, e):
    """The place that a loop goes over, or None; finite or not."""
    while True:
      if isinstance(e, ast.NamedExpr):
        e = e.value
      elif isinstance(e, ast.Call) and isinstance(
          e.func, ast.Name) and e.func.id in (
              'enumerate', 'map', 'filter', 'zip') and e.args:
        if e.func.id == 'zip' or len(e.args) > 2:
          return None
        e = e.args[-1 if e.func.id in ('map', 'filter') else 0]
      else:
        return path_of(e)

  def grows(self, s):
    """Whether the body of a loop can add to the list it goes over."""
    p = self.source(s.iter)
    if not p:
      return None
    for x in s.body:
      for n in ast.walk(x):
        if isinstance(n, ast.AugAssign) and path_of(n.target) == p:
          v = self.it.node_values.get(id(n.target))
          if not v or any(t[0] == 'list' for t in v):
            return p
        if not isinstance(n, ast.Call):
          continue
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
            GROW | {'extend'}) and path_of(n.func.value) == p:
          return p
        for g in self.an.targets(self.f, n):
          tr = self.an.mapping(self.f, n, g)
          if any(tr(k) in (p, 'len(%s)' % p) for k in self.an_changes(g)):
            return p
    return None

  def places(self, s):
    out = set()
    for n in ast.walk(s):
      p = path_of(n)
      if p:
        out |= {p, '@' + p, 'len(%s)' % p}
    out |= {a + '+' + b for a, b in self.pairs}
    return out

  def measure(self, s, head, grown=None):
    """Looks for a measure that decreases in each iteration."""
    m = head.copy()
    for p in self.places(s):
      if '+' in p and not p.startswith(('@', 'len(')):
        continue
      v = m.env.get(p, TOP)
      if isinstance(v, tuple):
        v = TOP
      m.env[p] = dict(v)
      m.env[p][('h', p)] = (0, 0)
    for a, b in self.pairs:
      m.env[a + '+' + b] = plus(self.place(a, m), self.place(b, m))
    m.facts = frozenset(f for f in m.facts if f[0] not in (
        'ub', 'lb', 'fresh', 'eaten'))
    self.measuring = s
    saved = self.rets, self.raisers
    self.rets, self.raisers = [], []
    _, _, back = self.turn(s, m)
    self.rets, self.raisers = saved
    edges = []
    for b in back:
      if not grown:
        self.pure += 1
        b = self.assume(s.test, True, b)
        self.pure -= 1
      if b is not None:
        edges.append(b)
    self.measuring = None
    changed = self.changed(s)
    used = []
    left = list(edges)
    while left:
      best = None
      for name, strict, weak in self.measures(left, changed, grown):
        if all(weak(e) for e in left) and any(strict(e) for e in left):
          rest = [e for e in left if not strict(e)]
          if best is None or len(rest) < len(best[1]):
            best = name, rest
      if best is None:
        break
      used.append(best[0])
      left = best[1]
    self.an.results[id(s)] = (self.f, s, not left, tuple(used), len(edges))

  def measures(self, edges, changed, grown=None):
    names = sorted({k for e in edges for k in e.env})

    def invariant(f):
      return not any(under(d, c) for d in f[2] for c in changed)

    def delta(e, p):
      v = e.env.get(p, TOP)
      return FULL if isinstance(v, tuple) else v.get(('h', p), FULL)

    def has(e, kind, p):
      if kind == 'lb' and p.startswith('len('):
        return True
      for f in e.facts:
        if f[0] != kind or not invariant(f):
          continue
        k = f[1]
        if k == ('h', p):
          return True
        if k[0] == 's' and ('h', p) in k[1:]:
          others = list(k[1:])
          others.remove(('h', p))
          if all(o[0] == 'h' and not any(under(o[1], c) for c in changed)
                 for o in others):
            return True
      return False
    if grown:
      def steady(e):
        d = delta(e, 'len(%s)' % grown)
        return d[1] is not None and d[1] <= 0
      yield 'elements of %s left' % grown, steady, steady
      names = []
    for p in names:
      yield (
          '%s increases' % p,
          lambda e, p=p: (delta(e, p)[0] or 0) >= 1 and has(e, 'ub', p),
          lambda e, p=p: delta(e, p)[0] is not None and delta(e, p)[0] >= 0)
      yield (
          '%s decreases' % p,
          lambda e, p=p: delta(e, p)[1] is not None and
          delta(e, p)[1] <= -1 and has(e, 'lb', p),
          lambda e, p=p: delta(e, p)[1] is not None and delta(e, p)[1] <= 0)
    for f in sorted({f for e in edges for f in e.facts if f[0] == 'fresh'}):
      if f[1] not in changed and 'shrink(%s)' % f[1] not in changed:
        yield ('%s grows' % f[1], lambda e, f=f: f in e.facts,
               lambda e: True)
    if not grown:
      yield ('input is consumed', lambda e: ('eaten',) in e.facts,
             lambda e: True)

  def changed(self, s):
    """Places that an iteration can change."""
    out = set(stored_in(s.body))
    for n in ast.walk(s):
      if not isinstance(n, ast.Call):
        continue
      if isinstance(n.func, ast.Attribute) and n.func.attr in (
          SHRINK | {'clear', 'discard', 'difference_update',
                    'intersection_update'}):
        p = path_of(n.func.value)
        if p:
          out.add('shrink(%s)' % p)
      for g in self.an.targets(self.f, n):
        tr = self.an.mapping(self.f, n, g)
        for k in self.an_changes(g):
          c = tr(k)
          if c:
            out.add(c)
    return out

  def an_changes(self, g, seen=None):
    """Places of its arguments that a function can change."""
    memo = self.an.__dict__.setdefault('changes', {})
    if g.q in memo:
      return memo[g.q]
    memo[g.q] = out = set()
    args = {a.arg for a in g.node.args.posonlyargs + g.node.args.args +
            g.node.args.kwonlyargs}
    for p in stored_in(g.node.body):
      inner = p[4:-1] if p.startswith('len(') else p
      root = inner.split('.')[0]
      if root in args and (p != inner or '.' in inner):
        out.add(p)
    for n in ast.walk(g.node):
      if isinstance(n, ast.Call):
        for h in self.an.targets(g, n):
          tr = self.an.mapping(g, n, h)
          for k in list(self.an_changes(h)):
            c = tr(k)
            if c and len(c) < 80:
              inner = c[4:-1] if c.startswith('len(') else c
              if inner.split('.')[0] in args:
                out.add(c)
    return out

  # -- expressions ------------------------------------------------------------

  def engine(self, node):
    """What the interpreter found for an expression."""
    v = self.it.node_values.get(id(node))
    if v is None:
      return TOP
    v = frozenset(t for t in v if t[0] != 'none')
    tuples = [t for t in v if t[0] == 'tuple']
    if v and len(tuples) == len(v) and len(
        {len(t[1]) for t in tuples}) == 1:
      out = [None] * len(tuples[0][1])
      for t in tuples:
        for i, x in enumerate(t[1]):
          iv = interval(x)
          out[i] = iv if out[i] is None else hull(out[i], iv)
      return tuple(out)
    return interval(v)

  def scalar(self, node, st):
    v = self.ev(node, st)
    return TOP if isinstance(v, tuple) else v

  def ev(self, node, st):
    m = getattr(self, 'ex_' + type(node).__name__, None)
    if m:
      v = m(node, st)
    else:
      for c in ast.iter_child_nodes(node):
        if isinstance(c, ast.expr):
          self.ev(c, st)
      v = TOP
    e = self.engine(node)
    if isinstance(v, tuple):
      if isinstance(e, tuple) and len(e) == len(v):
        return tuple(meet(a, b) for a, b in zip(v, e))
      return v
    if isinstance(e, tuple):
      return e if not v else v
    return meet(v, e) if e else v

  def ex_Constant(self, node, st):
    c = self.constant(node)
    return constant(c) if c is not None else TOP

  def ex_Name(self, node, st):
    return st.env.get(node.id, TOP)

  def ex_Attribute(self, node, st):
    p = path_of(node)
    if p is None:
      self.ev(node.value, st)
      return TOP
    return st.env.get(p, TOP)

  def ex_Tuple(self, node, st):
    return tuple(self.scalar(x, st) for x in node.elts)

  def ex_Subscript(self, node, st):
    v = self.ev(node.value, st)
    self.ev(node.slice, st)
    if isinstance(v, tuple) and isinstance(
        node.slice, ast.Constant) and isinstance(
            node.slice.value, int) and -len(v) <= node.slice.value < len(v):
      return v[node.slice.value]
    return TOP

  def ex_Slice(self, node, st):
    for x in (node.lower, node.upper, node.step):
      if x is not None:
        self.ev(x, st)
    return TOP

  def ex_UnaryOp(self, node, st):
    v = self.scalar(node.operand, st)
    if isinstance(node.op, ast.USub):
      iv = neg_iv(num(v))
      return {ZERO: iv} if iv != FULL else TOP
    if isinstance(node.op, ast.Not):
      return {ZERO: (0, 1)}
    return TOP

  def ex_BinOp(self, node, st):
    x, y = self.scalar(node.left, st), self.scalar(node.right, st)
    v = self.arith(node.op, x, y)
    a, b = path_of(node.left), path_of(node.right)
    if a and b and isinstance(node.op, ast.Add):
      pair = '+'.join(sorted((a, b)))
      if pair in st.env and not isinstance(st.env[pair], tuple):
        v = meet(v, st.env[pair])
    return v

  def arith(self, op, x, y):
    a, b = num(x), num(y)
    if isinstance(op, ast.Add):
      return plus(x, y)
    if isinstance(op, ast.Sub):
      return minus(x, y)
    iv = FULL
    if isinstance(op, ast.Mult):
      if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
        iv = (a[0] * b[0], None if a[1] is None or b[1] is None
              else a[1] * b[1])
    elif isinstance(op, ast.Mod) and b[0] is not None and b[0] >= 0 and (
        b[1] is None or b[0] != b[1]):
      # Less than the divisor, which is not 0.
      out = {k: (None, h[1] - 1) for k, h in y.items()
             if k != ZERO and h[1] is not None}
      out[ZERO] = (0, None if b[1] is None else max(b[1] - 1, 0))
      return out
    elif isinstance(op, ast.Mod):
      if b[0] is not None and b[0] >= 1 and b[1] is not None:
        iv = (0, b[1] - 1)
        if a[0] is not None and a[0] >= 0 and a[1] is not None:
          iv = (0, min(iv[1], a[1]))
    elif isinstance(op, (ast.FloorDiv, ast.RShift)):
      if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 1:
        iv = (0, a[1])
    elif isinstance(op, ast.BitAnd):
      his = [h[1] for h in (a, b)
             if h[0] is not None and h[0] >= 0 and h[1] is not None]
      pos = any(h[0] is not None and h[0] >= 0 for h in (a, b))
      iv = (0 if pos else None, min(his) if his else None)
    return {ZERO: iv} if iv != FULL else TOP

  def ex_IfExp(self, node, st):
    self.ev(node.test, st)
    a = self.assume(node.test, True, st.copy())
    b = self.assume(node.test, False, st.copy())
    if a is None:
      return self.ev(node.orelse, st)
    if b is None:
      return self.ev(node.body, st)
    x, y = self.scalar(node.body, a), self.scalar(node.orelse, b)
    return hull(x, y)

  def ex_BoolOp(self, node, st):
    out = None
    cur = st
    for i, x in enumerate(node.values):
      v = self.scalar(x, cur)
      out = v if out is None else hull(out, v)
      if i + 1 < len(node.values):
        nxt = self.assume(x, isinstance(node.op, ast.And), cur.copy())
        if nxt is None:
          break
        cur = nxt
    if cur is not st and any(isinstance(x, ast.Call)
                             for x in ast.walk(node)):
      # Effects of calls in the later operands.
      for k in [k for k in st.env if k not in cur.env or
                k.startswith('@') and st.env[k] != cur.env[k]]:
        st.env.pop(k, None)
    return out or TOP

  def ex_NamedExpr(self, node, st):
    self.ate = None
    v = self.ev(node.value, st)
    ate = self.ate
    if not self.pure:
      self.assign(node.target.id, v, st, node.value)
      if ate:
        st.facts |= {('ate', node.target.id)}
    return st.env.get(node.target.id, v) if self.pure else v

  def ex_Lambda(self, node, st):
    return TOP

  def comprehension(self, node, st):
    inner = st.copy()
    for i, g in enumerate(node.generators):
      self.ev(g.iter, st if i == 0 else inner)
      if i == 0:
        inner = st.copy()
      self.parts_of(g.target, self.derived(g.iter, inner), inner, True)
      for x in g.ifs:
        self.ev(x, inner)
        inner = self.assume(x, True, inner) or inner
    for x in ([node.key, node.value] if isinstance(node, ast.DictComp)
              else [node.elt]):
      self.ev(x, inner)
    if any(isinstance(x, ast.Call) for x in ast.walk(node)) and not self.pure:
      for k in [k for k in st.env if k.startswith('@')]:
        del st.env[k]
      for n in ast.walk(node):
        if isinstance(n, ast.Call):
          for g in self.an.targets(self.f, n):
            tr = self.an.mapping(self.f, n, g)
            for k in self.an_changes(g):
              c = tr(k)
              if c:
                st.kill(c)
    return TOP

  ex_ListComp = ex_SetComp = ex_DictComp = ex_GeneratorExp = comprehension

  def ex_Yield(self, node, st):
    if node.value is not None:
      self.ev(node.value, st)
    if not self.pure:
      for k in [k for k in st.env if k.startswith('@')]:
        del st.env[k]
    return TOP

  ex_YieldFrom = ex_Yield

  def length(self, node, st):
    """Length of the value of an expression."""
    p = path_of(node)
    if p:
      return self.place('len(%s)' % p, st)
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and not any(
        isinstance(x, ast.Starred) for x in node.elts):
      return constant(len(node.elts))
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
      base = self.length(node.value, st)
      lo = node.slice.lower
      if node.slice.step is None and lo is not None:
        self.pure += 1
        n = num(self.scalar(lo, st))
        self.pure -= 1
        if n[0] is not None and n[0] >= 0:
          nb = num(base)
          cut = 1 if n[0] >= 1 and nb[0] is not None and nb[0] >= 1 else 0
          out = {k: (None, None if iv[1] is None else iv[1] - cut)
                 for k, iv in base.items()}
          out[ZERO] = (0, out.get(ZERO, FULL)[1])
          return out
      return {ZERO: (0, None)}
    v = self.it.node_values.get(id(node))
    if v and all(t[0] == 'bytes' for t in v):
      lo = min(t[2] for t in v)
      his = [t[3] for t in v]
      return {ZERO: (lo, None if None in his else max(his))}
    return TOP

  # -- calls --------------------------------------------------------------------

  def ex_Call(self, node, st):
    v = self.call(node, st)
    if not self.pure and not self.program:
      self.objs = {}
    return v

  def call(self, node, st):
    self.ate = None
    self.program = False
    f = node.func
    recv = None
    if isinstance(f, ast.Attribute):
      self.ev(f.value, st)
      recv = path_of(f.value)
    args = []
    for a in node.args:
      args.append(self.scalar(a.value if isinstance(a, ast.Starred) else a,
                              st))
    kw = {k.arg: self.scalar(k.value, st) for k in node.keywords}
    self.ate = None
    if self.pure:
      return self.pure_call(node, args, st)
    v = self.builtin(node, args, st)
    if v is not None:
      return v
    if isinstance(f, ast.Attribute):
      v = self.method(node, f.attr, recv, args, kw, st)
      if v is not None:
        return v
    fs = self.an.targets(self.f, node)
    if fs:
      return self.program_call(node, fs, st)
    # Something outside the program: it can move the files it is given.
    for a in list(node.args) + [k.value for k in node.keywords]:
      p = path_of(a)
      if p:
        st.env.pop('@' + p, None)
    if recv and '@' + recv in st.env:
      st.env.pop('@' + recv, None)
    return TOP

  def pure_call(self, node, args, st):
    f = node.func
    if isinstance(f, ast.Attribute) and f.attr == 'tell':
      return self.place('@%s' % path_of(f.value), st)
    return self.builtin(node, args, st) or TOP

  def builtin(self, node, args, st):
    f = node.func
    if not isinstance(f, ast.Name) or f.id in self.f.locals:
      return None
    name = f.id
    if name == 'len' and len(node.args) == 1:
      return meet(self.length(node.args[0], st), {ZERO: (0, None)})
    if name in ('min', 'max') and len(args) > 1:
      lo = name == 'max'
      out = {}
      ns = [num(a) for a in args]
      los, his = [n[0] for n in ns], [n[1] for n in ns]
      if lo:
        known = [x for x in los if x is not None]
        out[ZERO] = (max(known) if known else None,
                     None if None in his else max(his))
      else:
        known = [x for x in his if x is not None]
        out[ZERO] = (None if None in los else min(los),
                     min(known) if known else None)
      for a in args:
        for k, iv in a.items():
          if k == ZERO:
            continue
          x = (iv[0], None) if lo else (None, iv[1])
          out[k] = meet_iv(out[k], x) if k in out else x
      return {k: iv for k, iv in out.items() if iv != FULL}
    if name == 'divmod' and len(args) == 2:
      return (self.arith(ast.FloorDiv(), args[0], args[1]),
              self.arith(ast.Mod(), args[0], args[1]))
    if name == 'abs' and args:
      return {ZERO: (0, None)}
    if name == 'int' and len(args) == 1:
      return args[0]
    if name == 'getattr' and len(node.args) >= 2 and isinstance(
        node.args[1], ast.Constant):
      if node.args[1].value == 'unused_data':
        self.ate = True
      p = path_of(node.args[0])
      if p:
        return st.env.get('%s.%s' % (p, node.args[1].value), TOP)
    if name == 'next' and node.args:
      self.ate = True
    return None

  def moved(self, p, st):
    """Another name can stand for the same file."""
    for k in [k for k in st.env if k.startswith('@') and k != '@' + p]:
      if k.startswith('@' + p + '.') or ('@' + p).startswith(k + '.'):
        continue
      if self.filelike(k[1:]):
        del st.env[k]

  def filelike(self, p):
    return 'file' in p.rsplit('.', 1)[-1]

  def method(self, node, name, recv, args, kw, st):
    """Methods of files and containers, and the primitives."""
    if name in ('tell', 'get_offset') and not node.args:
      if recv:
        return meet(self.place('@' + recv, st), {ZERO: (0, None)})
      return {ZERO: (0, None)}
    if name == 'seek' and recv and node.args:
      self.seek(node, recv, args, st)
      return TOP
    if name in ('read', 'read_buffer', 'readline'):
      if recv:
        n = num(args[0])[1] if args else None
        hi = n if n is not None and n >= 0 else None
        lo = num(args[0])[0] if args else None
        if lo is not None and lo < 0:
          hi = None
        before = self.place('@' + recv, st)
        self.moved(recv, st)
        st.env['@' + recv] = plus(before, {ZERO: (0, hi)})
        if lo is None and args or lo is not None and lo != 0 or not args:
          if self.measuring is None or before.get(
              ('h', '@' + recv), FULL)[0] is None or before[
                  ('h', '@' + recv)][0] >= 0:
            self.ate = recv
      return TOP
    if name in SHRINK and recv and not self.an.targets(self.f, node):
      k = 'len(%s)' % recv
      if k in st.env and not isinstance(st.env[k], tuple):
        by = (-1, -1)
        if name == 'pop' and len(node.args) > 1:
          by = (-1, 0)
        st.env[k] = plus(st.env[k], {ZERO: by})
      self.ate = recv
      return TOP
    if name in MUTATE and recv and not self.an.targets(self.f, node):
      k = 'len(%s)' % recv
      v = self.place(k, st)
      if name in ('append', 'appendleft', 'insert'):
        v = plus(v, constant(1))
      elif name == 'add':
        v = plus(v, {ZERO: (0, 1)})
      elif name in ('extend', 'update'):
        v = plus(v, {ZERO: (0, None)})
      else:
        v = TOP
      if k in st.env:
        st.env[k] = v
      if name in ('append', 'add', 'appendleft') and node.args:
        self.grown(recv, node.args[0], st)
      elif name == 'insert' and len(node.args) > 1:
        self.grown(recv, node.args[1], st)
      return TOP
    if name in ('heappop',) and node.args:
      p = path_of(node.args[0])
      k = 'len(%s)' % p
      if k in st.env and not isinstance(st.env[k], tuple):
        st.env[k] = plus(st.env[k], constant(-1))
      self.ate = p
      return TOP
    if name == READ_DATA:
      self.primitive_read(node, ('file_object', 'file_offset', 'data_size'),
                          st)
      return TOP
    if name == READ_FILE:
      return self.read_structure(node, st)
    if name in (READ_STREAM, 'MapByteStream'):
      self.map_stream(node, name, st)
      return TOP
    return None

  def bind(self, node, names):
    out = dict(zip(names, node.args))
    for k in node.keywords:
      out[k.arg] = k.value
    return out

  def seek(self, node, recv, args, st):
    whence = node.args[1] if len(node.args) > 1 else None
    w = 0
    if whence is not None:
      v = self.it.node_values.get(id(whence))
      c = V.consts(v) if v else None
      w = next(iter(c)) if c is not None and len(c) == 1 else None
    self.moved(recv, st)
    key = '@' + recv
    if w == 0:
      st.env[key] = dict(args[0])
    elif w == 1:
      a = node.args[0]
      if isinstance(a, ast.UnaryOp) and isinstance(
          a.op, ast.USub) and isinstance(a.operand, ast.Call) and isinstance(
              a.operand.func, ast.Name) and a.operand.func.id == 'len':
        # Part of what was read last is put back.
        self.an.pushbacks.add('%s: %s' % (self.f.where, ast.unparse(node)))
        return
      st.env[key] = plus(self.place(key, st), {ZERO: num(args[0])})
    else:
      st.env.pop(key, None)

  def bounded(self, v, deps, st, kind='ub'):
    """Every base of a value that is bounded is bounded itself."""
    for k, iv in v.items():
      if k != ZERO and iv[0 if kind == 'ub' else 1] is not None:
        st.facts |= {(kind, k, tuple(sorted(deps)))}

  def at_least(self, node, n, st):
    """Records that an expression is not less than a number."""
    self.le(ast.Constant(n), node, 0, st)

  def primitive_read(self, node, names, st):
    """A read of an exact number of bytes at an offset."""
    a = self.bind(node, names)
    fo, off, size = (a.get(n) for n in names)
    p = path_of(fo) if fo is not None else None
    if off is None or size is None:
      return
    self.at_least(size, 0, st)
    self.pure += 1
    o = self.scalar(off, st)
    v = self.scalar(size, st)
    d = st.defs.get(path_of(size))
    if d:
      v = meet(v, self.scalar(d[0], st))
    n = num(v)
    self.pure -= 1
    if n[0] is not None and n[0] >= 1:
      self.bounded(o, (), st)
    if p:
      self.moved(p, st)
      st.env['@' + p] = plus(o, {ZERO: n})

  def minimum(self, node):
    """Least size of the layouts of a data type map."""
    v = self.it.node_values.get(id(node)) if node is not None else None
    if not v:
      return 0
    out = None
    for t in v:
      if t[0] == 'none':
        continue
      if t[0] != 'map':
        return 0
      fab = self.an.p.fabrics[t[1]]
      n = fab.min_size(fab.defs[t[2]])
      out = n if out is None else min(n, out)
    return out or 0

  def read_structure(self, node, st):
    a = self.bind(node, ('file_object', 'file_offset', 'data_type_map'))
    fo, off = a.get('file_object'), a.get('file_offset')
    n = self.minimum(a.get('data_type_map'))
    size = {ZERO: (n, None)}
    e = self.engine(node)
    if isinstance(e, tuple) and len(e) == 2:
      size = meet(size, e[1])
    p = path_of(fo) if fo is not None else None
    if off is not None:
      self.pure += 1
      o = self.scalar(off, st)
      self.pure -= 1
      if n >= 1:
        self.bounded(o, (), st)
      if p:
        self.moved(p, st)
        st.env['@' + p] = plus(o, size)
    return (TOP, size)

  def map_stream(self, node, name, st):
    if name == READ_STREAM:
      a = self.bind(node, ('byte_stream', 'file_offset', 'data_type_map'))
      m = a.get('data_type_map')
    else:
      a = self.bind(node, ('byte_stream',))
      m = node.func.value
    n = self.minimum(m)
    ctx = a.get('context')
    if ctx is not None and path_of(ctx):
      st.kill(path_of(ctx) + '.byte_size')
      st.env[path_of(ctx) + '.byte_size'] = {ZERO: (n, None)}
    self.sliced(a.get('byte_stream'), n, st)

  def sliced(self, data, n, st):
    """Data that starts at an offset is not empty."""
    if n < 1 or not isinstance(data, ast.Subscript) or not isinstance(
        data.slice, ast.Slice) or data.slice.lower is None:
      return
    p = path_of(data.value)
    if p:
      self.pure += 1
      o = self.scalar(data.slice.lower, st)
      self.pure -= 1
      self.bounded(o, (p,), st)

  def canonical(self, node, st):
    return self.canonical_path(path_of(node), st) or ast.unparse(node)

  def canonical_path(self, p, st):
    seen = set()
    while p in st.defs and p not in seen:
      seen.add(p)
      q = path_of(st.defs[p][0])
      if q is None:
        break
      p = q
    return p

  def grown(self, s, item, st):
    """A value is put in a container."""
    k = self.canonical(item, st)
    if any(f[0] == 'notin' and f[1] == k and f[2] == s for f in st.facts):
      st.facts |= {('fresh', s)}

  def program_call(self, node, fs, st):
    an = self.an
    ret = None
    env_out = []
    facts = None
    objs = None
    eats = True
    outs = []
    for g in fs:
      site = (self.f.q, node.lineno, node.col_offset, g.q)
      if site in an.cycles:
        self.recursion(node, g, an.cycles[site], st)
      tr = an.mapping(self.f, node, g)
      s = an.summary(g)
      if s is None:
        self.cut = True
      eats = eats and s is not None and s.eats
      if s is None or g.is_gen or not s.parts:
        outs.append((g, tr, s))
      else:
        outs += [(g, tr, x) for x in s.parts]
    for g, tr, s in outs:
      changes = {}
      r = TOP
      fa = frozenset()
      uni = an.universe(g)
      for k in uni:
        c = tr(k)
        if c is None:
          continue
        if s is None or s.env is None and not g.is_gen:
          v = TOP if s is None else None
        elif g.is_gen:
          v = TOP
        else:
          v = s.env.get(k, TOP)
          if not isinstance(v, tuple) and v.get(('p', k)) == (0, 0):
            continue
          if '.' not in k and not k.startswith(('@', 'len(')):
            continue
          v = self.translate(v, tr, st, node)
        if '.' not in k and not k.startswith(('@', 'len(')):
          continue
        if v is not None:
          if g.is_gen or s is None:
            base = k.lstrip('@')
            if k.startswith('@') and not self.filelike(base):
              continue
            if not k.startswith('@') and k not in self.an_changes(g):
              continue
          changes[c] = v
      if s is not None and s.env is not None and not g.is_gen:
        r = s.ret
        if isinstance(r, tuple):
          r = tuple(self.translate(x, tr, st, node) for x in r)
        else:
          r = self.translate(r, tr, st, node)
        for f in s.facts:
          if f[0] in ('fresh', 'notin'):
            d = [tr(x) for x in f[1:]]
            if None not in d:
              if f[0] == 'notin':
                d[0] = self.canonical_path(d[0], st)
              fa |= {(f[0],) + tuple(d)}
            continue
          kind, base, deps = f
          d = [tr(x) for x in deps]
          if None in d:
            continue
          v = self.translate({base: (0, 0)}, tr, st, node)
          for k, iv in v.items():
            if k != ZERO and iv[0 if kind == 'ub' else 1] is not None:
              fa |= {(kind, k, tuple(sorted(d)))}
      ob = {}
      if s is not None and s.env is not None and not g.is_gen:
        if g.name == '__init__' and tr('self') is None:
          # The object that is made.
          for k, v in s.env.items():
            if k.startswith('self.') and not isinstance(v, tuple):
              ob[(None, k[5:])] = self.translate(v, tr, st, node)
        else:
          for k, v in s.objs.items():
            ob[k] = self.translate(v, tr, st, node)
      objs = ob if objs is None else {
          k: hull(v, ob[k]) for k, v in objs.items() if k in ob}
      ret = r if ret is None else (
          hull(ret, r) if isinstance(ret, dict) and isinstance(r, dict)
          else tuple(hull(a, b) for a, b in zip(ret, r))
          if isinstance(ret, tuple) and isinstance(r, tuple) and len(
              ret) == len(r) else TOP)
      env_out.append(changes)
      facts = fa if facts is None else facts & fa
    keys = set()
    for c in env_out:
      keys |= set(c)
    new = {}
    for k in keys:
      v = None
      for c in env_out:
        x = c.get(k, st.env.get(k, TOP))
        if isinstance(x, tuple):
          x = TOP
        v = x if v is None else hull(v, x)
      new[k] = v
    for k in sorted(keys):
      if not k.startswith(('@', 'len(')):
        st.kill(k)
    for k, v in new.items():
      if v:
        st.env[k] = v
      else:
        st.env.pop(k, None)
    if facts:
      st.facts |= facts
    self.ate = 'call' if eats else None
    self.program = True
    self.objs = objs or {}
    return ret if ret is not None else TOP

  def recursion(self, node, g, comp, st):
    """What gets smaller when a function is called again."""
    tr = self.an.mapping(self.f, node, g)
    kinds = set()
    passed = {path_of(a) for a in node.args} | {
        path_of(k.value) for k in node.keywords}
    for f in st.facts:
      if f[0] == 'fresh':
        p = f[1]
        kept = st.env.get('id:' + p) == {('p', p): (0, 0)}
        if kept and (p.startswith('self.') and tr('self') == 'self' or
                     p in passed):
          kinds.add(('fresh', p))
    for name, e in tr.exprs.items():
      v = self.it.node_values.get(id(e)) or frozenset()
      if v and all(t[0] in ('int', 'bool', 'none') for t in v):
        continue
      for param, strict in self.derived(e, st):
        kinds.add(('part' if strict else 'same', name, param))
    key = (self.f.q, id(node), g.q)
    old = self.an.recursive.get(key)
    if old is not None:
      kinds &= old[3]
    self.an.recursive[key] = (self.f, node, g, kinds, comp)

  def derived(self, e, st):
    """Parameters that an expression is a part of: {(name, properly)}."""
    if isinstance(e, ast.Name):
      out = {f[2:] for f in st.facts if f[0] == 'part' and f[1] == e.id}
      if e.id in self.params:
        out.add((e.id, False))
      return out
    if isinstance(e, ast.Attribute):
      p = path_of(e)
      return {f[2:] for f in st.facts if f[0] == 'part' and f[1] == p}
    if isinstance(e, ast.NamedExpr):
      return self.derived(e.value, st)
    if isinstance(e, ast.IfExp):
      return self.derived(e.body, st) & self.derived(e.orelse, st)
    if isinstance(e, ast.Subscript):
      whole = isinstance(e.slice, ast.Slice)
      return {(n, s or not whole) for n, s in self.derived(e.value, st)}
    if isinstance(e, ast.Call):
      if isinstance(e.func, ast.Name) and e.args:
        if e.func.id == 'getattr':
          return {(n, True) for n, _ in self.derived(e.args[0], st)}
        if e.func.id in ('enumerate', 'sorted', 'list', 'reversed', 'iter',
                         'tuple', 'set'):
          return self.derived(e.args[0], st)
      if isinstance(e.func, ast.Attribute):
        if e.func.attr in ('get', 'pop'):
          return {(n, True) for n, _ in self.derived(e.func.value, st)}
        if e.func.attr in ('items', 'values', 'keys'):
          return self.derived(e.func.value, st)
    return set()

  def parts_of(self, t, found, st, item):
    """Records that a target is bound to parts of parameters."""
    if isinstance(t, (ast.Tuple, ast.List)):
      for x in t.elts:
        self.parts_of(x, found, st, item)
      return
    p = path_of(t)
    if p:
      if item and isinstance(t, ast.Name):
        st.kill(p)
      st.facts |= {('part', p, n, s or item) for n, s in found
                   if p.split('.')[0] != n}

  def translate(self, v, tr, st, node):
    """A value of a callee in terms of the caller."""
    if isinstance(v, tuple):
      return TOP
    out = {}
    for k, iv in v.items():
      if k == ZERO:
        out = meet(out, {ZERO: iv})
        continue
      if k[0] == 's':
        x, y = (self.base_value(j, tr, st) for j in k[1:])
        if x is not None and y is not None:
          out = meet(out, plus(plus(x, y), {ZERO: iv}))
        continue
      x = self.base_value(k, tr, st)
      if x is not None:
        out = meet(out, plus(x, {ZERO: iv}))
    return {k: iv for k, iv in out.items() if iv != FULL}

  def base_value(self, k, tr, st):
    """What a place of the callee had at its start."""
    if k[0] != 'p':
      return None
    if k[1] in tr.exprs:
      self.pure += 1
      x = self.scalar(tr.exprs[k[1]], st)
      self.pure -= 1
      return x
    c = tr(k[1])
    if c is None and k[1].startswith('len(') and k[1][4:-1] in tr.exprs:
      return self.length(tr.exprs[k[1][4:-1]], st)
    return None if c is None else self.place(c, st)

  # -- tests ----------------------------------------------------------------------

  def assume(self, test, truth, st):
    """The state in which a test has a result, or None."""
    self.pure += 1
    try:
      return self.assume_(test, truth, st)
    finally:
      self.pure -= 1

  def assume_(self, test, truth, st):
    if st is None:
      return None
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
      return self.assume_(test.operand, not truth, st)
    if isinstance(test, ast.BoolOp):
      every = isinstance(test.op, ast.And) == truth
      if every:
        # The second time each one profits from what the others say.
        for x in list(test.values) * 2:
          st = self.assume_(x, truth, st)
        return st
      out = None
      cur = st
      for x in test.values:
        if cur is None:
          break
        out = join(out, self.assume_(x, truth, cur.copy()))
        cur = self.assume_(x, not truth, cur)
      return out
    if isinstance(test, ast.Constant):
      return st if bool(test.value) == truth else None
    if isinstance(test, ast.NamedExpr):
      return self.truthy(test.target, truth, st)
    if isinstance(test, ast.Compare):
      if len(test.ops) > 1:
        if not truth:
          return st
        left = test.left
        for op, right in zip(test.ops, test.comparators):
          st = self.compare(left, op, right, True, st)
          if st is None:
            return None
          left = right
        return st
      return self.compare(test.left, test.ops[0], test.comparators[0],
                          truth, st)
    return self.truthy(test, truth, st)

  def truthy(self, node, truth, st):
    if isinstance(node, ast.Call) and isinstance(
        node.func, ast.Name) and node.func.id == 'len' and node.args:
      if truth:
        self.le(ast.Constant(1), node, 0, st)
        node = node.args[0]
    p = path_of(node)
    v = self.scalar(node, st)
    n = num(v)
    if truth:
      if n[0] is not None and n[0] >= 0:
        if n[1] == 0:
          return None
        self.le(ast.Constant(1), node, 0, st)
      if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitAnd):
        pass
      if p:
        k = 'len(%s)' % p
        if k in st.env and not isinstance(st.env[k], tuple):
          st.env[k] = meet(st.env[k], {ZERO: (1, None)})
        if ('ate', p) in st.facts:
          st.facts |= {('eaten',)}
    else:
      if n[0] is not None and n[0] >= 1 or n[1] is not None and n[1] <= -1:
        return None
      if p and p in st.env and n != FULL and not isinstance(
          st.env[p], tuple):
        st.env[p] = meet(st.env[p], constant(0))
      if p:
        st.facts |= {('none', p)}
    return st

  def bound_deps(self, node):
    """Places that the value of an expression depends on, or None."""
    for x in ast.walk(node):
      if isinstance(x, ast.Call):
        if not (isinstance(x.func, ast.Name) and x.func.id in (
            'len', 'min', 'max', 'int', 'abs')):
          return None
    out = set()
    skip = set()
    for x in ast.walk(node):
      if isinstance(x, ast.Call) and x.func.id == 'len':
        p = path_of(x.args[0]) if x.args else None
        if p is None:
          return None
        out |= {'len(%s)' % p, p}
      if isinstance(x, ast.Call):
        skip.add(x.func.id)
    for x in ast.walk(node):
      p = path_of(x)
      if p and p not in skip:
        out.add(p)
    return out

  def compare(self, a, op, b, truth, st):
    ops = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE,
           ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
           ast.IsNot: ast.Is}
    o = type(op) if truth else ops[type(op)]
    if o in (ast.Lt, ast.LtE):
      self.order(a, b, -1 if o is ast.Lt else 0, st)
    elif o in (ast.Gt, ast.GtE):
      self.order(b, a, -1 if o is ast.Gt else 0, st)
    elif o is ast.Eq:
      self.order(a, b, 0, st)
      self.order(b, a, 0, st)
    elif o is ast.NotEq:
      self.differ(a, b, st)
    elif o in (ast.In, ast.NotIn):
      s = path_of(b)
      if o is ast.NotIn and s:
        st.facts |= {('notin', self.canonical(a, st), s)}
      elif o is ast.In and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
        vals = [self.constant(x) for x in b.elts]
        if vals and None not in vals:
          self.order(ast.Constant(min(vals)), a, 0, st)
          self.order(a, ast.Constant(max(vals)), 0, st)
    elif o is ast.Is and isinstance(
        b, ast.Constant) and b.value is None and path_of(a):
      st.facts |= {('none', path_of(a))}
    elif o in (ast.Is, ast.IsNot):
      if isinstance(b, ast.Constant) and b.value is None and (
          o is ast.IsNot):
        p = path_of(a)
        if p and ('ate', p) in st.facts:
          st.facts |= {('eaten',)}
    for x in (a, b):
      va = num(self.scalar(x, st))
      if va[0] is not None and va[1] is not None and va[0] > va[1]:
        return None
    return self.nonempty(a, st)

  def nonempty(self, a, st):
    """len(x) == 4 says that x is true."""
    if isinstance(a, ast.Call) and isinstance(
        a.func, ast.Name) and a.func.id == 'len' and a.args:
      p = path_of(a.args[0])
      lo = num(self.scalar(a, st))[0]
      if p and lo is not None and lo >= 1 and ('ate', p) in st.facts:
        st.facts |= {('eaten',)}
    return st

  def differ(self, a, b, st):
    va, vb = self.scalar(a, st), self.scalar(b, st)
    for x, n, m in ((a, num(va), num(vb)), (b, num(vb), num(va))):
      if m[0] is not None and m[0] == m[1]:
        if n[0] == m[0]:
          self.le(ast.Constant(m[0] + 1), x, 0, st)
        elif n[1] == m[0]:
          self.le(x, ast.Constant(m[0] - 1), 0, st)
    pa, pb = path_of(a), path_of(b)
    if pa and pb:
      st.facts |= {('ne', pa, pb), ('ne', pb, pa)}
    k = set(va) & set(vb) - {ZERO}
    for base in k:
      # Values that are ordered and differ are strictly ordered.
      d = add_iv(va[base], neg_iv(vb[base]))
      if d[0] == 0:
        self.le(b, a, -1, st)
      elif d[1] == 0:
        self.le(a, b, -1, st)
    # A value that counts down to what it is compared with stays above it.

  def order(self, a, b, c, st):
    """a <= b + c holds from here on, and bounds what it is made of."""
    self.le(a, b, c, st)
    db, da = self.bound_deps(b), self.bound_deps(a)
    if db is not None:
      self.bounded(self.scalar(a, st), db, st, 'ub')
    if da is not None:
      self.bounded(self.scalar(b, st), da, st, 'lb')

  def le(self, a, b, c, st, depth=0):
    pa, pb = path_of(a), path_of(b)
    if c == 0 and pa and pb and ('ne', pa, pb) in st.facts:
      c = -1
    self.pure += 1
    va, vb = self.scalar(a, st), self.scalar(b, st)
    self.pure -= 1
    for k, (lo, hi) in list(vb.items()):
      if hi is not None:
        self.limit(a, k, (None, hi + c), st, depth)
    for k, (lo, hi) in list(va.items()):
      if lo is not None:
        self.limit(b, k, (lo - c, None), st, depth)

  def limit(self, node, base, iv, st, depth):
    """Restricts an expression relative to a base."""
    if depth > 4:
      return
    p = path_of(node)
    key = p
    if isinstance(node, ast.Call) and isinstance(
        node.func, ast.Name) and node.func.id == 'len' and node.args:
      q = path_of(node.args[0])
      key = 'len(%s)' % q if q else None
    if isinstance(node, ast.NamedExpr):
      key = p = node.target.id
    if isinstance(node, ast.Constant):
      return
    if key:
      v = st.env.get(key, TOP)
      if not isinstance(v, tuple):
        e = self.engine(node)
        if not v and isinstance(e, dict):
          v = e
        st.env[key] = meet(v, {base: iv})
      if p in st.defs:
        self.limit(st.defs[p][0], base, iv, st, depth + 1)
      return
    if isinstance(node, ast.BinOp) and isinstance(node.op,
                                                  (ast.Add, ast.Sub)):
      self.pure += 1
      x, y = self.scalar(node.left, st), self.scalar(node.right, st)
      self.pure -= 1
      sub = isinstance(node.op, ast.Sub)
      ny = num(y)
      d = add_iv(iv, ny if sub else neg_iv(ny))
      if d != FULL:
        self.limit(node.left, base, d, st, depth + 1)
      if not sub:
        d = add_iv(iv, neg_iv(num(x)))
        if d != FULL:
          self.limit(node.right, base, d, st, depth + 1)
      elif base == ZERO:
        # left - right >= lo: left >= right + lo.
        lo, hi = iv
        if lo is not None:
          self.le(node.right, node.left, -lo, st, depth + 1)
        if hi is not None:
          self.le(node.left, node.right, hi, st, depth + 1)
