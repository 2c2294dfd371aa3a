"""C15: a data range only exposes bytes of its range.

Abstract interpretation of the methods of the data range class in a
disjunctive domain of linear inequalities over the attributes and arguments
on entry, with calls of methods of the same object inlined.
"""

import ast

from sa import linear as L
from sa import project as P
from sa.report import Broken

SEEK = {'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}
MAXDEPTH = 6


class Unsupported(Broken):
  """A construct the domain has no transfer function for."""


class St:
  """One disjunct."""

  def __init__(self):
    self.env = {}
    self.attr = {}
    self.cons = []
    self.seeked = None      # position of the parent file, if known
    self.reads = []         # (position, size, data)

  def copy(self):
    s = St()
    s.env = dict(self.env)
    s.attr = dict(self.attr)
    s.cons = list(self.cons)
    s.seeked = self.seeked
    s.reads = list(self.reads)
    return s


class Raised(Exception):
  pass


class Machine:
  """Transfer functions."""

  def __init__(self, proj, clsq):
    self.p = proj
    self.clsq = clsq
    self.n = 0
    self.paths = 0
    self.raises = []

  def fresh(self, hint):
    self.n += 1
    return L.sym('%s#%d' % (hint, self.n))

  # Values: ('int', lin), ('none',), ('bool', b), ('bytes', start, len, src),
  # ('file',), ('self',), ('str',), ('mod', name), ('any',)

  def ev(self, n, st):
    """[(state, value)]"""
    if isinstance(n, ast.Constant):
      v = n.value
      if v is None:
        return [(st, ('none',))]
      if isinstance(v, bool):
        return [(st, ('bool', v))]
      if isinstance(v, int):
        return [(st, ('int', L.const(v)))]
      if isinstance(v, bytes):
        return [(st, ('bytes', None, L.const(len(v)), 'const'))]
      return [(st, ('str',))]
    if isinstance(n, ast.JoinedStr):
      return [(st, ('str',))]
    if isinstance(n, ast.Name):
      if n.id in st.env:
        return [(st, st.env[n.id])]
      if n.id in ('os', 'io'):
        return [(st, ('mod', n.id))]
      c = self.module_const(n.id)
      if c is not None:
        return self.ev(c, st)
      return [(st, ('fn', n.id))]
    if isinstance(n, ast.Attribute):
      out = []
      for s, v in self.ev(n.value, st):
        if v[0] == 'mod' and n.attr in SEEK:
          out.append((s, ('int', L.const(SEEK[n.attr]))))
        elif v[0] == 'self':
          if n.attr in s.attr:
            out.append((s, s.attr[n.attr]))
          else:
            f = self.p.find_method(self.clsq, n.attr)
            c = self.class_const(n.attr)
            if f is not None and f.is_property:
              out.extend(self.call(f, [('self',)], {}, s, 0))
            elif f is not None:
              out.append((s, ('method', n.attr)))
            elif c is not None:
              out.extend(self.ev(c, s))
            else:
              raise Unsupported('attribute self.%s' % n.attr)
        elif v[0] == 'file':
          out.append((s, ('filemethod', n.attr)))
        else:
          out.append((s, ('any',)))
      return out
    if isinstance(n, ast.BinOp):
      out = []
      for s, a in self.ev(n.left, st):
        for s2, b in self.ev(n.right, s):
          out.append((s2, self.binop(n.op, a, b)))
      return out
    if isinstance(n, ast.UnaryOp):
      if isinstance(n.op, ast.Not):
        return self.as_bool(n, st)
      out = []
      for s, a in self.ev(n.operand, st):
        if a[0] == 'int' and isinstance(n.op, ast.USub):
          out.append((s, ('int', L.scale(a[1], -1))))
        else:
          out.append((s, a))
      return out
    if isinstance(n, (ast.Compare, ast.BoolOp)):
      if isinstance(n, ast.BoolOp):
        return self.boolop_value(n, st)
      return self.as_bool(n, st)
    if isinstance(n, ast.IfExp):
      out = []
      t, f = self.cond(n.test, st)
      for s in t:
        out.extend(self.ev(n.body, s))
      for s in f:
        out.extend(self.ev(n.orelse, s))
      return out
    if isinstance(n, ast.Tuple):
      outs = [(st, [])]
      for e in n.elts:
        nxt = []
        for s, vs in outs:
          for s2, v in self.ev(e, s):
            nxt.append((s2, vs + [v]))
        outs = nxt
      return [(s, ('tuple', tuple(v))) for s, v in outs]
    if isinstance(n, ast.Subscript):
      return self.subscript(n, st)
    if isinstance(n, ast.Call):
      return self.ev_call(n, st)
    raise Unsupported('expression %s' % ast.unparse(n))

  def module_const(self, name):
    for m in (self.p.classes[self.clsq].module,):
      for x in m.tree.body:
        if isinstance(x, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == name for t in x.targets):
          return x.value
    return None

  def class_const(self, name):
    for b in self.p.classes[self.clsq].mro:
      for x in self.p.classes[b].node.body:
        if isinstance(x, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == name for t in x.targets):
          return x.value
    return None

  def boolop_value(self, n, st):
    # The value of "a or b" / "a and b".
    first, rest = n.values[0], n.values[1:]
    rest = rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)
    out = []
    t, f = self.cond(first, st)
    if isinstance(n.op, ast.Or):
      for s in t:
        out.extend(self.ev(first, s))
      for s in f:
        out.extend(self.ev(rest, s))
    else:
      for s in f:
        out.extend(self.ev(first, s))
      for s in t:
        out.extend(self.ev(rest, s))
    return out

  def as_bool(self, n, st):
    t, f = self.cond(n, st)
    return [(s, ('bool', True)) for s in t] + [
        (s, ('bool', False)) for s in f]

  def binop(self, op, a, b):
    if a[0] == 'int' and b[0] == 'int':
      if isinstance(op, ast.Add):
        return ('int', L.add(a[1], b[1]))
      if isinstance(op, ast.Sub):
        return ('int', L.add(a[1], b[1], -1))
      if isinstance(op, ast.Mult):
        if L.is_const(a[1]):
          return ('int', L.scale(b[1], L.value(a[1])))
        if L.is_const(b[1]):
          return ('int', L.scale(a[1], L.value(b[1])))
      return ('int', self.fresh('op'))
    return ('any',)

  def subscript(self, n, st):
    out = []
    for s, v in self.ev(n.value, st):
      if v[0] == 'bytes' and isinstance(n.slice, ast.Slice) and (
          n.slice.step is None):
        lo = [(s, None)] if n.slice.lower is None else self.ev(
            n.slice.lower, s)
        for s2, l in lo:
          up = [(s2, None)] if n.slice.upper is None else self.ev(
              n.slice.upper, s2)
          for s3, u in up:
            s3 = s3.copy()
            ln = self.fresh('slice')
            s3.cons.append(ln)
            s3.cons.append(L.add(v[2], ln, -1))
            start = v[1]
            if l is not None and not (l[0] == 'int' and L.is_const(l[1]) and
                                      L.value(l[1]) == 0):
              start = None if start is None else L.add(start, l[1])
            if u is not None and u[0] == 'int' and L.entails(s3.cons, u[1]):
              # the shorter of the two
              s4 = s3.copy()
              s3.cons += [L.add(v[2], u[1], -1), L.add(ln, u[1], -1),
                          L.add(u[1], ln, -1)]
              s4.cons += [L.add(u[1], v[2], -1), L.add(ln, v[2], -1)]
              for x in (s3, s4):
                if L.feasible(x.cons):
                  out.append((x, ('bytes', start, ln, v[3])))
            else:
              out.append((s3, ('bytes', start, ln, v[3])))
      elif v[0] == 'tuple' and isinstance(n.slice, ast.Constant):
        out.append((s, v[1][n.slice.value]))
      else:
        out.append((s, ('any',)))
    return out

  def ev_call(self, n, st):
    out = []
    for s, fv in self.ev(n.func, st):
      argss = [(s, [], {})]
      for a in n.args:
        nxt = []
        for s1, vs, ks in argss:
          for s2, v in self.ev(a, s1):
            nxt.append((s2, vs + [v], ks))
        argss = nxt
      for k in n.keywords:
        nxt = []
        for s1, vs, ks in argss:
          for s2, v in self.ev(k.value, s1):
            kk = dict(ks)
            kk[k.arg] = v
            nxt.append((s2, vs, kk))
        argss = nxt
      for s1, vs, ks in argss:
        out.extend(self.apply(fv, vs, ks, s1, n))
    return out

  def apply(self, fv, vs, ks, st, node):
    if fv[0] == 'method':
      f = self.p.find_method(self.clsq, fv[1])
      pre = [] if f.kind == 'static' else [('self',)]
      return self.call(f, pre + vs, ks, st, 0)
    if fv[0] == 'filemethod':
      st = st.copy()
      if fv[1] == 'seek':
        wh = vs[1] if len(vs) > 1 else ks.get('whence')
        pos = vs[0][1] if vs and vs[0][0] == 'int' else None
        if wh is not None:
          if not (wh[0] == 'int' and L.is_const(wh[1])):
            pos = None
          elif L.value(wh[1]) == 1:
            pos = L.add(st.seeked, pos) if st.seeked is not None else None
          elif L.value(wh[1]) != 0:
            pos = None
        st.seeked = pos
        return [(st, ('any',))]
      if fv[1] == 'read':
        size = vs[0] if vs else ks.get('size', ('none',))
        ln = self.fresh('read')
        st.cons.append(ln)
        if size[0] == 'int':
          # Not for negative sizes; those are reported anyway.
          if L.entails(st.cons, size[1]):
            st.cons.append(L.add(size[1], ln, -1))
        data = ('bytes', st.seeked, ln, 'file')
        st.reads.append((st.seeked, size, ln))
        if st.seeked is not None:
          st.seeked = L.add(st.seeked, ln)
        return [(st, data)]
      return [(st, ('any',))]
    if fv[0] == 'fn':
      name = fv[1]
      if name == 'len' and vs and vs[0][0] == 'bytes':
        return [(st, ('int', vs[0][2]))]
      if name in ('min', 'max') and len(vs) >= 2 and all(
          v[0] == 'int' for v in vs):
        outs = [(st, vs[0])]
        for v in vs[1:]:
          nxt = []
          for s, w in outs:
            a, b = s.copy(), s.copy()
            d = L.add(w[1], v[1], -1)           # w - v
            a.cons.append(d)                    # w >= v
            b.cons.append(L.add(L.scale(d, -1), L.const(-1)))  # w < v
            pick = (v, w) if name == 'min' else (w, v)
            for x, r in ((a, pick[0]), (b, pick[1])):
              if L.feasible(x.cons):
                nxt.append((x, r))
          outs = nxt
        return outs
      if name == 'int' and vs and vs[0][0] == 'int':
        return [(st, vs[0])]
      if name == 'abs' and vs and vs[0][0] == 'int':
        return [(st, ('int', self.fresh('abs')))]
      if name == 'bytes' and vs and vs[0][0] == 'bytes':
        return [(st, vs[0])]
      if name == 'super':
        return [(st, ('super',))]
      return [(st, ('any',))]
    return [(st, ('any',))]

  def call(self, f, args, kwargs, st, depth):
    """[(state, return value)]; raising paths go to self.raises."""
    if depth > MAXDEPTH:
      raise Unsupported('call depth')
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
      r = self.ev(d, st)
      env[n] = r[0][1]
    for n, v in zip(names, args):
      env[n] = v
    env.update(kwargs)
    s = st.copy()
    saved = st.env
    s.env = env
    out = []
    for kind, x, v in self.block(f.node.body, s):
      if kind == 'raise':
        x.env = saved
        self.raises.append(x)
        continue
      x.env = saved
      out.append((x, v if v is not None else ('none',)))
    return out

  # -- conditions

  def cond(self, n, st):
    """(states in which it holds, states in which it does not)"""
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      t, f = self.cond(n.operand, st)
      return f, t
    if isinstance(n, ast.BoolOp):
      first, rest = n.values[0], n.values[1:]
      rest = rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)
      t, f = self.cond(first, st)
      if isinstance(n.op, ast.And):
        tt, ff = [], list(f)
        for s in t:
          a, b = self.cond(rest, s)
          tt += a
          ff += b
        return tt, ff
      tt, ff = list(t), []
      for s in f:
        a, b = self.cond(rest, s)
        tt += a
        ff += b
      return tt, ff
    if isinstance(n, ast.Compare):
      if len(n.ops) > 1:
        parts = []
        left = n.left
        for op, r in zip(n.ops, n.comparators):
          parts.append(ast.Compare(left, [op], [r]))
          left = r
        return self.cond(ast.BoolOp(ast.And(), parts), st)
      tt, ff = [], []
      for s, a in self.ev(n.left, st):
        if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
            n.comparators[0], (ast.Tuple, ast.List, ast.Set)):
          alts = [ast.Compare(n.left, [ast.Eq()], [e])
                  for e in n.comparators[0].elts]
          t, f = self.cond(
              alts[0] if len(alts) == 1 else ast.BoolOp(ast.Or(), alts), s)
          if isinstance(n.ops[0], ast.NotIn):
            t, f = f, t
          tt += t
          ff += f
          continue
        for s2, b in self.ev(n.comparators[0], s):
          t, f = self.compare(n.ops[0], a, b, s2)
          tt += t
          ff += f
      return tt, ff
    tt, ff = [], []
    for s, v in self.ev(n, st):
      if v[0] == 'none':
        ff.append(s)
      elif v[0] == 'bool':
        (tt if v[1] else ff).append(s)
      elif v[0] == 'int':
        f, t = self.compare(ast.Eq(), v, ('int', L.const(0)), s)
        tt += t
        ff += f
      elif v[0] == 'bytes':
        f, t = self.compare(ast.Eq(), ('int', v[2]), ('int', L.const(0)), s)
        tt += t
        ff += f
      elif v[0] in ('file', 'self', 'method'):
        tt.append(s)
      else:
        tt.append(s.copy())
        ff.append(s.copy())
    return tt, ff

  def compare(self, op, a, b, st):
    def only(s, cs):
      x = s.copy()
      x.cons += cs
      return [x] if L.feasible(x.cons) else []
    if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and (
        'none' in (a[0], b[0])):
      same = a[0] == b[0]
      known = a[0] != 'any' and b[0] != 'any'
      neg = isinstance(op, (ast.IsNot, ast.NotEq))
      if not known:
        return [st.copy()], [st.copy()]
      return ([st], []) if same != neg else ([], [st])
    if a[0] == 'int' and b[0] == 'int':
      d = L.add(a[1], b[1], -1)
      nd = L.scale(d, -1)
      m1 = L.const(-1)
      ge, le = only(st, [d]), only(st, [nd])
      gt, lt = only(st, [L.add(d, m1)]), only(st, [L.add(nd, m1)])
      eq = only(st, [d, nd])
      if isinstance(op, ast.Lt):
        return lt, ge
      if isinstance(op, ast.LtE):
        return le, gt
      if isinstance(op, ast.Gt):
        return gt, le
      if isinstance(op, ast.GtE):
        return ge, lt
      if isinstance(op, (ast.Eq, ast.Is)):
        return eq, gt + lt
      if isinstance(op, (ast.NotEq, ast.IsNot)):
        return gt + lt, eq
    return [st.copy()], [st.copy()]

  # -- statements

  def block(self, body, st):
    """[('fall'|'return'|'raise', state, value)]"""
    live = [st]
    done = []
    for s in body:
      nxt = []
      for x in live:
        for kind, y, v in self.stmt(s, x):
          if kind == 'fall':
            nxt.append(y)
          else:
            done.append((kind, y, v))
      live = nxt
      if len(live) > 4000:
        raise Unsupported('too many disjuncts')
    return done + [('fall', x, None) for x in live]

  def assign(self, target, v, st):
    if isinstance(target, ast.Name):
      st.env[target.id] = v
    elif isinstance(target, ast.Attribute) and isinstance(
        target.value, ast.Name) and st.env.get(target.value.id) == ('self',):
      st.attr[target.attr] = v
    elif isinstance(target, ast.Tuple) and v[0] == 'tuple':
      for t, x in zip(target.elts, v[1]):
        self.assign(t, x, st)
    else:
      raise Unsupported('assignment to %s' % ast.unparse(target))

  def stmt(self, n, st):
    if isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
      return [('fall', st, None)]
    if isinstance(n, ast.Expr):
      return [('fall', s, None) for s, _ in self.ev(n.value, st)]
    if isinstance(n, ast.Return):
      if n.value is None:
        return [('return', st, ('none',))]
      return [('return', s, v) for s, v in self.ev(n.value, st)]
    if isinstance(n, ast.Raise):
      return [('raise', st, None)]
    if isinstance(n, ast.Assign):
      out = []
      for s, v in self.ev(n.value, st):
        s = s.copy()
        for t in n.targets:
          self.assign(t, v, s)
        out.append(('fall', s, None))
      return out
    if isinstance(n, ast.AnnAssign):
      if n.value is None:
        return [('fall', st, None)]
      out = []
      for s, v in self.ev(n.value, st):
        s = s.copy()
        self.assign(n.target, v, s)
        out.append(('fall', s, None))
      return out
    if isinstance(n, ast.AugAssign):
      load = ast.parse(ast.unparse(n.target), mode='eval').body
      out = []
      for s, a in self.ev(load, st):
        for s2, b in self.ev(n.value, s):
          s2 = s2.copy()
          self.assign(n.target, self.binop(n.op, a, b), s2)
          out.append(('fall', s2, None))
      return out
    if isinstance(n, ast.If):
      t, f = self.cond(n.test, st)
      out = []
      for s in t:
        out += self.block(n.body, s)
      for s in f:
        out += self.block(n.orelse, s)
      return out
    if isinstance(n, ast.Try) and not n.handlers:
      out = []
      for k, s, v in self.block(n.body, st):
        for k2, s2, v2 in self.block(n.finalbody, s):
          out.append((k2, s2, v2) if k2 != 'fall' else (k, s2, v))
      return out
    raise Unsupported('statement %s' % type(n).__name__)


def find_class(proj):
  hits = [q for q, c in proj.classes.items() if c.name == 'DataRange']
  if len(hits) != 1:
    raise Broken('%d classes are named DataRange' % len(hits))
  return hits[0]


def roles(proj, clsq):
  """The attributes that hold the file, offset, size and position.

  Found by interpreting __init__ on symbolic arguments.
  """
  m = Machine(proj, clsq)
  f = proj.find_method(clsq, '__init__')
  st = St()
  names = [x.arg for x in f.node.args.args]
  if len(names) < 4:
    raise Broken('unexpected constructor of the data range')
  D, S = L.sym('D'), L.sym('S')
  res = m.call(f, [('self',), ('file',), ('int', D), ('int', S)], {}, st, 0)
  if len(res) != 1:
    raise Broken('the constructor has several outcomes')
  attrs = res[0][0].attr
  out = {}
  for k, v in attrs.items():
    if v == ('file',):
      out['file'] = k
    elif v == ('int', D):
      out['offset'] = k
    elif v == ('int', S):
      out['size'] = k
    elif v[0] == 'int' and v[1] == {}:
      out['position'] = k
  if len(out) != 4:
    raise Broken('cannot tell the attributes of the data range: %r' % attrs)
  return out


def entry(role):
  st = St()
  st.attr = {role['file']: ('file',), role['offset']: ('int', L.sym('D')),
             role['size']: ('int', L.sym('S')),
             role['position']: ('int', L.sym('C'))}
  st.cons = [L.sym('C')]        # the invariant: the position is not negative
  return st


def show(l):
  return ' + '.join('%s*%s' % (c, s) if s != 1 else str(c)
                    for s, c in sorted(l.items(), key=str)) or '0'


def check(rep):
  rep.rule(
      'Disjunctive linear inequality analysis of the data range class. '
      'Invariant: position >= 0. read: each read of the parent is preceded '
      'by a seek to exactly offset + position, its size n satisfies '
      '0 <= n <= size of the range - position and n <= the size asked for, '
      'the data is returned unchanged and the position advances by its '
      'length; an empty result without a read needs position >= size of the '
      'range or a request for nothing. seek: the new position is the one '
      'asked for, is not negative, and is unchanged when refused. tell, '
      'get_offset, get_size return position and size.')
  rep.assume('The parent file object reads at the position it was given.')
  proj = P.Project()
  clsq = find_class(proj)
  role = roles(proj, clsq)
  rel = proj.classes[clsq].module.rel
  pos, off, size_a = role['position'], role['offset'], role['size']
  C, S, D = L.sym('C'), L.sym('S'), L.sym('D')

  def where(name):
    return '%s:%s.%s' % (rel, clsq.split(':')[1], name)

  def method(name):
    f = proj.find_method(clsq, name)
    if f is None:
      raise Broken('the data range has no method %s' % name)
    rep.count('ob:methods')
    return f

  def frame_ok(s, name, f):
    """The range itself does not change."""
    for a, v in ((off, ('int', D)), (size_a, ('int', S)),
                 (role['file'], ('file',))):
      if s.attr[a] != v:
        rep.add('range changes', where(name), a,
                'the method changes self.%s' % a, f.node.lineno)
    p = s.attr[pos]
    if p[0] != 'int' or not L.entails(s.cons, p[1]):
      rep.add('position', where(name), 'self.%s' % pos,
              'the position can become negative or unknown', f.node.lineno)

  # read
  f = method('read')
  for what in ('none', 'int'):
    m = Machine(proj, clsq)
    st = entry(role)
    arg = ('none',) if what == 'none' else ('int', L.sym('N'))
    for s, v in m.call(f, [('self',), arg], {}, st, 0):
      rep.count('ob:paths')
      frame_ok(s, 'read', f)
      if v[0] != 'bytes':
        rep.add('result', where('read'), 'return',
                'the result is not the data that was read', f.node.lineno)
        continue
      if not s.reads:
        done = L.entails(s.cons, L.add(C, S, -1))
        zero = what == 'int' and L.entails_eq(s.cons, L.sym('N'), {})
        if not (done or zero) or not L.entails_eq(s.cons, v[2], {}):
          rep.add('short read', where('read'), 'return',
                  'returns without reading although position < size',
                  f.node.lineno)
        if not L.entails_eq(s.cons, s.attr[pos][1], C):
          rep.add('position', where('read'), 'self.%s' % pos,
                  'the position moves without a read', f.node.lineno)
        continue
      if len(s.reads) > 1:
        rep.add('reads', where('read'), 'read',
                'more than one read of the parent', f.node.lineno)
        continue
      at, n, ln = s.reads[0]
      if at is None or not L.entails_eq(s.cons, at, L.add(D, C)):
        rep.add('start', where('read'), 'seek',
                'the parent is not positioned at offset + position but at %s'
                % (show(at) if at is not None else 'an unknown offset'),
                f.node.lineno)
      if n[0] != 'int':
        rep.add('end', where('read'), 'read',
                'the parent is read without a size', f.node.lineno)
        continue
      if not L.entails(s.cons, n[1]):
        rep.add('end', where('read'), 'read',
                'a negative size is passed to the parent, which then reads '
                'past the end of the range', f.node.lineno)
      if not L.entails(s.cons, L.add(L.add(S, C, -1), n[1], -1)):
        rep.add('end', where('read'), 'read',
                'can read past the end of the range: size %s' % show(n[1]),
                f.node.lineno)
      if what == 'int':
        # For a negative request everything that remains may be returned.
        asked = list(s.cons) + [L.sym('N')]
        if L.feasible(asked) and not L.entails(
            asked, L.add(L.sym('N'), n[1], -1)):
          rep.add('more than asked', where('read'), 'read',
                  'can return more than was asked for', f.node.lineno)
        if L.feasible(asked):
          # all of it, unless the range ends before
          less = asked + [L.add(L.add(L.sym('N'), n[1], -1), L.const(-1)),
                          L.add(L.add(L.add(S, C, -1), n[1], -1),
                                L.const(-1))]
          if L.feasible(less):
            rep.add('less than asked', where('read'), 'read',
                    'asks the parent for less than the range holds',
                    f.node.lineno)
      else:
        if not L.entails_eq(s.cons, n[1], L.add(S, C, -1)):
          rep.add('less than asked', where('read'), 'read',
                  'does not ask for all remaining data', f.node.lineno)
      if v[3] != 'file' or v[1] is None or not (
          L.entails_eq(s.cons, v[1], L.add(D, C)) and
          L.entails_eq(s.cons, v[2], ln)):
        rep.add('result', where('read'), 'return',
                'the data that was read is not returned unchanged',
                f.node.lineno)
      if not L.entails_eq(s.cons, s.attr[pos][1], L.add(C, ln)):
        rep.add('position', where('read'), 'self.%s' % pos,
                'the position does not advance by what was read',
                f.node.lineno)
    for s in m.raises:
      rep.count('ob:paths')
      # Only an invalid range is refused.
      bad = list(s.cons) + [D, S]
      if L.feasible(bad) and not s.reads:
        rep.add('refused', where('read'), 'raise',
                'a read of a valid range is refused', f.node.lineno)

  # seek
  f = method('seek')
  for wh, base in ((0, {}), (1, C), (2, S), (3, None), (None, {})):
    m = Machine(proj, clsq)
    st = entry(role)
    O = L.sym('O')
    args = [('self',), ('int', O)]
    if wh is not None:
      args.append(('int', L.const(wh)))
    for s, v in m.call(f, args, {}, st, 0):
      rep.count('ob:paths')
      frame_ok(s, 'seek', f)
      if base is None:
        rep.add('whence', where('seek'), 'whence',
                'an unsupported whence is accepted', f.node.lineno)
      elif s.attr[pos][0] != 'int' or not L.entails_eq(
          s.cons, s.attr[pos][1], L.add(O, base)):
        rep.add('target', where('seek'), 'whence %s' % wh,
                'the new position is %s' % (
                    show(s.attr[pos][1]) if s.attr[pos][0] == 'int'
                    else 'unknown'), f.node.lineno)
    for s in m.raises:
      rep.count('ob:paths')
      if s.attr[pos][0] != 'int' or not L.entails_eq(
          s.cons, s.attr[pos][1], C):
        rep.add('refused seek moves', where('seek'), 'self.%s' % pos,
                'the position changes although the seek is refused',
                f.node.lineno)
      if base is not None and L.feasible(
          list(s.cons) + [L.add(O, base), S, D]):
        rep.add('refused', where('seek'), 'raise',
                'a position inside a valid range is refused', f.node.lineno)

  for name, want in (('tell', C), ('get_offset', C), ('get_size', S)):
    f = method(name)
    m = Machine(proj, clsq)
    for s, v in m.call(f, [('self',)], {}, entry(role), 0):
      rep.count('ob:paths')
      frame_ok(s, name, f)
      if v[0] != 'int' or not L.entails_eq(s.cons, v[1], want) or not (
          L.entails_eq(s.cons, s.attr[pos][1], C)):
        rep.add('result', where(name), 'return',
                'does not return the %s' % (
                    'size' if name == 'get_size' else 'position'),
                f.node.lineno)
  rep.need('ob:methods', 5)
  rep.need('ob:paths', 15)
