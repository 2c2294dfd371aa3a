"""Where readers take data from, in a form that does not depend on spelling.

For every place that reads, seeks or decodes, the position, the size and the
bytes are written as sums over what they are computed from: fields of decoded
structures, parameters, constants, results of calls and variables of loops
(which are described by their first value and their steps). Local names,
temporary variables, the order of terms and the form of conditions and loops
do not show in the result.
"""

import ast
import re

LIMIT = 8
LAYOUT = re.compile(r"<'[^']*'>")
# symbols of which the comparison is not one of numbers of the format
NOT_A_NUMBER = re.compile(
    r"['\"]|\blen\(|\bNone\b|\btext\b|\bcond\b|\blist\b|\?|\bdata\(|\beach\b")
# says nothing about a place
VAGUE = {'None', 'list', '?', 'cond', 'text', 'none', '{}'}
WORD = re.compile(r'arg\d+|\.\w+|\w+\(\)(?:\[\d+\])?')
READERS = {
    # method: (name, [(role, index, keyword)])
    '_ReadStructureFromFileObject': (
        'decode', [('position', 1, 'file_offset'),
                   ('layout', 2, 'data_type_map')]),
    '_ReadStructureFromByteStream': (
        'decode', [('bytes', 0, 'byte_stream'),
                   ('layout', 2, 'data_type_map')]),
    'MapByteStream': (
        'map', [('bytes', 0, 'byte_stream'),
                ('from', 1, 'byte_offset')]),
    '_ReadData': (
        'read', [('position', 1, 'file_offset'), ('size', 2, 'data_size')]),
    'seek': ('seek', [('position', 0, 'offset'), ('whence', 1, 'whence')]),
    'read': ('read', [('size', 0, 'size')]),
}


def lin(sym=None, n=1):
  return ((sym or '', n),) if n else ()


def one(sym):
  return frozenset([lin(sym)])


NONE = one('None')


def const(n):
  return frozenset([lin('', n)])


def add(a, b, k=1):
  d = dict(a)
  for s, n in b:
    d[s] = d.get(s, 0) + k * n
  return tuple(sorted((s, n) for s, n in d.items() if n))


def text1(f):
  out = []
  for s, n in f:
    if s == '':
      out.append('%+d' % n)
    elif n == 1:
      out.append('+' + s)
    elif n == -1:
      out.append('-' + s)
    else:
      out.append('%+d*%s' % (n, s))
  out = ''.join(out) or '0'
  return out[1:] if out.startswith('+') else out


def text(v):
  if isinstance(v, list):
    return '(' + ', '.join(text(x) for x in v) + ')'
  t = sorted(text1(f) for f in v)
  return t[0] if len(t) == 1 else 'either(%s)' % ', '.join(t)


def atom(v):
  """The value as one symbol."""
  t = text(v)
  return t


def cut(v):
  return v if len(v) <= LIMIT else one(text(v))


def number(v):
  """The constant a value is."""
  if isinstance(v, frozenset) and len(v) == 1:
    f = next(iter(v))
    if not f:
      return 0
    if len(f) == 1 and f[0][0] == '':
      return f[0][1]
  return None


def combine(a, b, k):
  if isinstance(a, list) or isinstance(b, list):
    return one('(%s %s %s)' % (text(a), '+-'[k < 0], text(b)))
  if len(a) * len(b) > LIMIT:
    if len(a) > 1:
      a = one(text(a))
    if len(b) > 1:
      b = one(text(b))
  return frozenset(add(x, y, k) for x in a for y in b)


def join(a, b):
  if a is None:
    return b
  if b is None:
    return a
  out = {}
  for k in set(a) | set(b):
    x, y = a.get(k), b.get(k)
    if x == NONE or y == NONE:
      # what is not known yet is not used to find data
      out[k] = x if y == NONE else y
      continue
    if x is None or y is None:
      out[k] = x if y is None else y
    elif x == y:
      out[k] = x
    elif isinstance(x, list) and not isinstance(y, list):
      out[k] = join({'': x}, {'': parts(y, len(x))})['']
    elif isinstance(y, list) and not isinstance(x, list):
      out[k] = join({'': parts(x, len(y))}, {'': y})['']
    elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
      out[k] = [join({'': p}, {'': q})[''] for p, q in zip(x, y)]
    else:
      x = x if isinstance(x, frozenset) else one(text(x))
      y = y if isinstance(y, frozenset) else one(text(y))
      out[k] = cut(x | y)
  return out


def parts(v, n):
  """What a value is unpacked into."""
  return [one('%s[%d]' % (text(v), i)) for i in range(n)]


def stored(nodes):
  out = set()
  for n in nodes:
    for x in ast.walk(n):
      if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
        out.add(x.id)
      elif isinstance(x, ast.Attribute) and isinstance(
          x.ctx, ast.Store) and isinstance(x.value, ast.Name):
        out.add(x.value.id + '.' + x.attr)
  return out


class Walk:
  """One function."""

  def __init__(self, proj, f):
    self.p = proj
    self.f = f
    self.sinks = []
    self.tests = []
    self.loops = {}
    self.quiet = 0
    self.frames = []
    env = {}
    a = f.node.args
    args = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if f.cls is not None and f.kind != 'static' and args:
      self.me = args[0]
      args = args[1:]
    else:
      self.me = None
    for i, n in enumerate(args):
      env[n] = one('arg%d' % i)
    for x in (a.vararg, a.kwarg):
      if x:
        env[x.arg] = one('args')
    if self.me:
      env[self.me] = one('self')
    self.block(f.node.body, env)

  # loop variables

  def resolved(self, s):
    return self.resolve(s, ())

  def resolve(self, s, inside):
    out = ''
    while True:
      i = s.find('\u27e8')
      if i < 0:
        return out + s
      j = s.index('\u27e9', i)
      k = int(s[i + 1:j])
      out += s[:i]
      s = s[j + 1:]
      if k in inside:
        out += '#'
      else:
        init, steps = self.loops[k]
        init = self.resolve(init, inside + (k,))
        steps = sorted({self.resolve(x, inside + (k,)) for x in steps})
        if not steps:
          out += init
        else:
          out += 'loop(%s; %s)' % (init, ', '.join(steps))

  def counter(self, v):
    """A loop variable that counts from zero in steps of one."""
    if isinstance(v, frozenset) and len(v) == 1:
      f = next(iter(v))
      if len(f) == 1 and f[0][1] == 1 and f[0][0].startswith('\u27e8') and (
          f[0][0].endswith('\u27e9')):
        return int(f[0][0][1:-1])
    return None

  # expressions

  def ev(self, n, env):
    if n is None:
      return one('none')
    m = getattr(self, 'ev_' + type(n).__name__, None)
    if m:
      return m(n, env)
    for x in ast.iter_child_nodes(n):
      if isinstance(x, ast.expr):
        self.ev(x, env)
    return one('?')

  def ev_Constant(self, n, env):
    if isinstance(n.value, int) and not isinstance(n.value, bool):
      return const(n.value)
    return one(repr(n.value))

  def ev_Name(self, n, env):
    if n.id in env:
      return env[n.id]
    return self.global_value(n.id)

  def global_value(self, name):
    for s in self.f.module.tree.body:
      if isinstance(s, ast.Assign) and any(
          isinstance(t, ast.Name) and t.id == name for t in s.targets):
        v = self.ev(s.value, {})
        if number(v) is not None:
          return v
    return one(self.f.module.imports.get(name, name))

  def ev_Attribute(self, n, env):
    base = self.ev(n.value, env)
    k = text(base) + '.' + n.attr
    if isinstance(n.value, ast.Name):
      q = n.value.id + '.' + n.attr
      if q in env:
        return env[q]
    if text(base) == 'self' and self.f.cls is not None:
      for c in self.f.cls.mro:
        node = self.p.classes[c].node
        for s in node.body:
          if isinstance(s, ast.Assign) and any(
              isinstance(t, ast.Name) and t.id == n.attr
              for t in s.targets):
            v = self.ev(s.value, {})
            if number(v) is not None:
              return v
            # a constant of a name of its own is what it is made of
            if isinstance(s.value, (ast.Constant, ast.Call, ast.Tuple)):
              return one('const %s' % text(v))
    if isinstance(base, frozenset) and len(base) > 1:
      return cut(frozenset(lin('%s.%s' % (text1(f), n.attr)) for f in base))
    return one(k)

  def ev_BinOp(self, n, env):
    a, b = self.ev(n.left, env), self.ev(n.right, env)
    x, y = number(a), number(b)
    op = n.op
    if isinstance(op, ast.Add):
      return combine(a, b, 1)
    if isinstance(op, ast.Sub):
      return combine(a, b, -1)
    if isinstance(op, ast.LShift) and y is not None and 0 <= y < 128:
      op, y, b = ast.Mult(), 1 << y, const(1 << y)
    if isinstance(op, ast.RShift) and y is not None and 0 <= y < 128:
      op, y, b = ast.FloorDiv(), 1 << y, const(1 << y)
    if isinstance(op, ast.Mult):
      if x is not None and isinstance(b, frozenset):
        return frozenset(add((), f, x) for f in b)
      if y is not None and isinstance(a, frozenset):
        return frozenset(add((), f, y) for f in a)
      return one('(%s)' % ' * '.join(sorted((text(a), text(b)))))
    if x is not None and y:
      if isinstance(op, ast.FloorDiv):
        return const(x // y)
      if isinstance(op, ast.Mod):
        return const(x % y)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
      return one('(%s)' % (' %s ' % type(op).__name__).join(
          sorted((text(a), text(b)))))
    return one('(%s %s %s)' % (text(a), type(op).__name__, text(b)))

  def op(self, name, a, b):
    x, y = number(a), number(b)
    if x is not None and y:
      return const(x // y if name == 'FloorDiv' else x % y)
    return one('(%s %s %s)' % (text(a), name, text(b)))

  def ev_UnaryOp(self, n, env):
    v = self.ev(n.operand, env)
    if isinstance(n.op, ast.USub) and isinstance(v, frozenset):
      return frozenset(add((), f, -1) for f in v)
    return one('cond')

  def ev_Compare(self, n, env):
    left = self.ev(n.left, env)
    for op, x in zip(n.ops, n.comparators):
      right = self.ev(x, env)
      if isinstance(op, (ast.In, ast.NotIn)) and isinstance(
          x, (ast.Tuple, ast.List, ast.Set)):
        for y in x.elts:
          self.test(left, ast.Eq(), self.ev(y, env), n)
      else:
        self.test(left, op, right, n)
      left = right
    return one('cond')

  def test(self, a, op, b, n):
    """A boundary that a value is compared with."""
    if self.quiet or not (isinstance(a, frozenset) and isinstance(
        b, frozenset)) or len(a) * len(b) > 4:
      return
    for f in combine(a, b, -1):
      self.tests.append((f, type(op).__name__, n.lineno))

  def boundaries(self):
    """Each test as a sum, a kind and a constant."""
    for f, op, line in self.tests:
      c = sum(n for s, n in f if s == '')
      d = {}
      for s, n in f:
        if s:
          s = self.resolved(s)
          d[s] = d.get(s, 0) + n
      f = sorted((s, n) for s, n in d.items() if n)
      if not f or any(
          NOT_A_NUMBER.search(LAYOUT.sub('<>', s)) for s, _ in f):
        continue
      if f[0][1] < 0:
        f = [(s, -n) for s, n in f]
        c = -c
        op = {'Gt': 'Lt', 'Lt': 'Gt', 'GtE': 'LtE', 'LtE': 'GtE'}.get(op, op)
      if op in ('Eq', 'NotEq'):
        kind, k = 'is', -c
      elif op in ('Gt', 'LtE'):
        kind, k = 'above', -c
      elif op in ('GtE', 'Lt'):
        kind, k = 'above', -c - 1
      else:
        continue
      if kind == 'above' and k == 0 and len(f) == 1 and f[0][1] == 1:
        kind = 'is'
      yield text1(tuple(f)), '%s %d' % (kind, k), line

  def ev_BoolOp(self, n, env):
    vs = [self.ev(x, env) for x in n.values]
    if isinstance(n.op, ast.Or):
      out = None
      for v in vs:
        out = join(out, {'': v})
      return out['']
    return one('cond')

  def ev_IfExp(self, n, env):
    self.ev(n.test, env)
    return join({'': self.ev(n.body, env)}, {'': self.ev(n.orelse, env)})['']

  def ev_JoinedStr(self, n, env):
    for x in n.values:
      if isinstance(x, ast.FormattedValue):
        self.ev(x.value, env)
    return one('text')

  def ev_Tuple(self, n, env):
    return [self.ev(x, env) for x in n.elts]

  def ev_List(self, n, env):
    for x in n.elts:
      self.ev(x, env)
    return one('list')

  def ev_NamedExpr(self, n, env):
    v = self.ev(n.value, env)
    env[n.target.id] = v
    return v

  def ev_Lambda(self, n, env):
    return one('function')

  def ev_Yield(self, n, env):
    self.ev(n.value, env)
    return one('sent')

  def ev_YieldFrom(self, n, env):
    self.ev(n.value, env)
    return one('sent')

  def ev_Subscript(self, n, env):
    base = self.ev(n.value, env)
    if isinstance(n.slice, ast.Slice):
      lo = self.ev(n.slice.lower, env) if n.slice.lower else const(0)
      hi = self.ev(n.slice.upper, env) if n.slice.upper else None
      if not isinstance(lo, frozenset):
        lo = one(text(lo))
      return self.slice(base, lo, hi)
    i = self.ev(n.slice, env)
    if isinstance(base, list) and number(i) is not None and -len(
        base) <= number(i) < len(base):
      return base[number(i)]
    k = self.counter(i)
    if k is not None:
      return one('each %s' % text(base))
    return one('%s[%s]' % (text(base), text(i)))

  def slice(self, base, lo, hi):
    t = text(base)
    # a slice of what is left behind an offset
    if isinstance(base, frozenset) and len(base) == 1:
      f = next(iter(base))
      if len(f) == 1 and f[0][0] in self.rests and f[0][1] == 1:
        b, l = self.rests[f[0][0]]
        return self.slice(b, combine(l, lo, 1),
                          None if hi is None else combine(l, hi, 1))
    if number(lo) == 0 and hi is None:
      return base
    s = '%s[%s:%s]' % (t, text(lo), '' if hi is None else text(hi))
    if hi is None:
      self.rests[s] = (base, lo)
    return one(s)

  rests = {}

  def ev_comp(self, n, env, elts):
    env = dict(env)
    for g in n.generators:
      it = self.ev(g.iter, env)
      self.bind(g.target, self.each(g.iter, it, env), env)
      for x in g.ifs:
        self.ev(x, env)
    return one('list(%s)' % ', '.join(text(self.ev(x, env)) for x in elts))

  def ev_ListComp(self, n, env):
    return self.ev_comp(n, env, [n.elt])

  def ev_SetComp(self, n, env):
    return self.ev_comp(n, env, [n.elt])

  def ev_GeneratorExp(self, n, env):
    return self.ev_comp(n, env, [n.elt])

  def ev_DictComp(self, n, env):
    return self.ev_comp(n, env, [n.key, n.value])

  def ev_Starred(self, n, env):
    return one('*' + text(self.ev(n.value, env)))

  def ev_Call(self, n, env):
    args = [self.ev(x, env) for x in n.args]
    kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
    fn = n.func
    if isinstance(fn, ast.Name):
      name = fn.id
      if name in ('min', 'max') and args:
        return one('%s(%s)' % (name, ', '.join(sorted(map(text, args)))))
      if name in ('int', 'bytes', 'memoryview', 'list', 'tuple', 'iter') and (
          len(args) == 1):
        return args[0]
      if name == 'len' and args:
        return one('len(%s)' % text(args[0]))
      if name == 'getattr' and len(args) >= 2 and isinstance(
          n.args[1], ast.Constant):
        x = one('%s.%s' % (text(args[0]), n.args[1].value))
        return join({'': x}, {'': args[2]})[''] if len(args) > 2 else x
      if name == 'range':
        return one('range')
      if name == 'divmod' and len(args) == 2:
        return [self.op('FloorDiv', args[0], args[1]),
                self.op('Mod', args[0], args[1])]
      self.own(n, name, args, kws, None)
      v = env.get(name)
      return one('%s()' % (text(v) if v is not None else name))
    if not isinstance(fn, ast.Attribute):
      self.ev(fn, env)
      return one('call')
    recv = self.ev(fn.value, env)
    name = fn.attr
    args = self.positional(name, args, kws, recv)
    if name in READERS:
      kind, roles = READERS[name]
      got = []
      layout = None
      for role, i, kw in roles:
        v = args[i] if i < len(args) else kws.get(kw)
        if role == 'whence':
          v = number(v) if v is not None else 0
          v = {0: 'start', 1: 'current', 2: 'end'}.get(v, None) or text(
              args[i] if i < len(args) else kws[kw])
          v = {'os.SEEK_SET': 'start', 'os.SEEK_CUR': 'current',
               'os.SEEK_END': 'end'}.get(v, v)
        elif role == 'from':
          v = '0' if v is None else text(v)
          if v == '0':
            continue
        else:
          v = 'all' if v is None else text(v)
        if role == 'layout':
          v = layout = named(v)
        got.append('%s %s' % (role, v))
      if name == 'MapByteStream':
        layout = text(recv)
        got.append('layout ' + layout)
      self.sink(kind, ', '.join(got), n)
      if name == '_ReadStructureFromFileObject':
        return [one('<%s>' % layout), one('sizeof <%s>' % layout)]
      if name == '_ReadStructureFromByteStream' or name == 'MapByteStream':
        return one('<%s>' % layout)
      return one('data(%s)' % ', '.join(got))
    if name == '_GetDataTypeMap' and args:
      return args[0]
    if name == 'tell':
      return one('tell')
    if name in ('format', 'join'):
      return one('text')
    if name == 'decode':
      e = args[0] if args else kws.get('encoding')
      self.sink('text', 'bytes %s, encoding %s' % (
          text(recv), 'utf-8' if e is None else text(e)), n)
      return one('text')
    if name in ('from_bytes', 'unpack', 'unpack_from', 'decompress'):
      self.sink(name, ', '.join([text(x) for x in args] + sorted(
          '%s %s' % (k, text(v)) for k, v in kws.items())), n)
      return one('%s()' % name)
    if name == 'UUID':
      for k, v in sorted(kws.items()):
        self.sink('UUID', '%s %s' % (k, text(v)), n)
    if name in ('get_size', 'GetSize'):
      return one('file size')
    if name == 'get' and args:
      v = one('%s[]' % text(recv))
      return v
    if name in ('append', 'extend', 'add', 'update'):
      return one('none')
    self.own(n, name, args, kws, recv)
    return one('%s()' % name)

  def positional(self, name, args, kws, recv):
    """Arguments given by keyword, in the order of the parameters."""
    if not kws or self.f.cls is None or text(recv) != 'self':
      return args
    g = self.p.find_method(self.f.cls.q, name)
    if g is None or None in kws:
      return args
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if g.kind != 'static':
      names = names[1:]
    args = list(args)
    while len(args) < len(names) and names[len(args)] in kws:
      args.append(kws.pop(names[len(args)]))
    return args

  def own(self, n, name, args, kws, recv):
    """A call of a function of the program."""
    g = None
    c = self.p.class_names.get(name)
    if c is not None:
      g = self.p.find_method(c.q, '__init__')
      if g is None:
        return
      name = key_of(g)
    elif recv is not None and self.f.cls is not None and text(recv) in (
        'self', 'super()'):
      g = self.p.find_method(self.f.cls.q, name)
    if g is None:
      found = self.p.by_name.get(name, ())
      if not found:
        return
      g = found[0]
    if g.name == '__init__':
      name = key_of(g)
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if g.cls is not None and g.kind != 'static' and names:
      names = names[1:]
    for i, v in enumerate(args):
      self.sinks.append((('call', name, i), text(v), n.lineno, self.quiet))
    for k, v in kws.items():
      if k in names:
        self.sinks.append((('call', name, names.index(k)), text(v), n.lineno,
                           self.quiet))

  def sink(self, kind, s, n):
    self.sinks.append((kind, s, n.lineno, self.quiet))

  # statements

  def each(self, node, it, env):
    """The element of what is iterated."""
    while isinstance(node, ast.Call) and isinstance(
        node.func, ast.Name) and node.func.id in ('list', 'tuple', 'iter') and (
            len(node.args) == 1 and isinstance(node.args[0], ast.Call)):
      node = node.args[0]
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
      name = node.func.id
      args = [self.ev(x, env) for x in node.args]
      if name == 'range' and args:
        lo = args[0] if len(args) > 1 else const(0)
        step = args[2] if len(args) > 2 else const(1)
        var = self.variable(text(lo), [text(step)])
        if (number(step) or 0) > 0:
          self.test(args[1] if len(args) > 1 else args[0], ast.Gt(), var, node)
        return var
      if name == 'enumerate' and args:
        lo = args[1] if len(args) > 1 else const(0)
        for k in node.keywords:
          lo = self.ev(k.value, env)
        return [self.variable(text(lo), ['1']),
                self.each(node.args[0], args[0], env)]
      if name == 'zip':
        return [self.each(x, v, env) for x, v in zip(node.args, args)]
      if name == 'reversed' and args:
        return self.each(node.args[0], args[0], env)
    return one('each %s' % text(it))

  def variable(self, init, steps):
    k = Walk.count = Walk.count + 1
    self.loops[k] = (init, steps)
    return one('\u27e8%06d\u27e9' % k)

  count = 0

  def bind(self, t, v, env):
    if isinstance(t, ast.Name):
      env[t.id] = v
      for k in [k for k in env if k.startswith(t.id + '.')]:
        del env[k]
    elif isinstance(t, (ast.Tuple, ast.List)):
      for i, x in enumerate(t.elts):
        if isinstance(v, list) and i < len(v) and len(v) == len(t.elts):
          self.bind(x, v[i], env)
        else:
          self.bind(x, one('%s[%d]' % (text(v), i)), env)
    elif isinstance(t, ast.Attribute):
      self.ev(t.value, env)
      if isinstance(t.value, ast.Name):
        env[t.value.id + '.' + t.attr] = v
      self.sinks.append((('set', t.attr), text(v), t.lineno, self.quiet))
    elif isinstance(t, ast.Subscript):
      self.ev(t.value, env)
      if not isinstance(t.slice, ast.Slice):
        self.ev(t.slice, env)
    elif isinstance(t, ast.Starred):
      self.bind(t.value, v, env)

  def block(self, body, env):
    for s in body:
      if env is None:
        return None
      m = getattr(self, 'st_' + type(s).__name__, None)
      if m:
        env = m(s, env)
      elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        for x in ast.iter_child_nodes(s):
          if isinstance(x, ast.expr):
            self.ev(x, env)
    return env

  def st_Assign(self, s, env):
    v = self.ev(s.value, env)
    for t in s.targets:
      self.bind(t, v, env)
    return env

  def st_AnnAssign(self, s, env):
    if s.value is not None:
      self.bind(s.target, self.ev(s.value, env), env)
    return env

  def st_AugAssign(self, s, env):
    load = ast.copy_location(ast.BinOp(as_load(s.target), s.op, s.value), s)
    self.bind(s.target, self.ev(load, env), env)
    return env

  def st_Return(self, s, env):
    if s.value is not None:
      v = self.ev(s.value, env)
      if isinstance(v, list):
        for i, x in enumerate(v):
          self.sinks.append((('return', self.f.name, i), text(x), s.lineno,
                             self.quiet))
      else:
        self.sinks.append((('return', self.f.name, None), text(v), s.lineno,
                           self.quiet))
    return None

  def st_Raise(self, s, env):
    return None

  def st_Break(self, s, env):
    if self.frames:
      self.frames[-1][0].append(env)
    return None

  def st_Continue(self, s, env):
    if self.frames:
      self.frames[-1][1].append(env)
    return None

  def debugging(self, t, env):
    """A test that only says whether debug output is enabled."""
    if isinstance(t, ast.BoolOp):
      ks = [self.debugging(x, env) for x in t.values]
      if isinstance(t.op, ast.And) and True in ks:
        return True
      if isinstance(t.op, ast.Or) and False in ks:
        return False
      return None
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
      k = self.debugging(t.operand, env)
      return None if k is None else not k
    if isinstance(t, (ast.Name, ast.Attribute)):
      v = text(self.ev(t, dict(env)))
      if v == 'self._debug':
        return True
    return None

  def st_If(self, s, env):
    self.ev(s.test, env)
    d = self.debugging(s.test, env)
    if d is not None:
      on, off = (s.body, s.orelse) if d else (s.orelse, s.body)
      self.quiet += 1
      saved = self.frames
      self.frames = [([], [])] if saved else []
      self.block(on, dict(env))
      self.frames = saved
      self.quiet -= 1
      return self.block(off, env)
    a = self.block(s.body, dict(env))
    b = self.block(s.orelse, dict(env))
    return join(a, b)

  def st_Try(self, s, env):
    before = dict(env)
    a = self.block(s.body, dict(env))
    mid = join(dict(before), a)
    if a is not None and s.orelse:
      a = self.block(s.orelse, a)
    out = a
    for h in s.handlers:
      e = dict(mid)
      if h.name:
        e[h.name] = one('exception')
      out = join(out, self.block(h.body, e))
    if s.finalbody:
      out2 = self.block(s.finalbody, dict(out if out is not None else mid))
      out = out2 if out is not None else None
    return out

  def st_With(self, s, env):
    for i in s.items:
      v = self.ev(i.context_expr, env)
      if i.optional_vars is not None:
        self.bind(i.optional_vars, v, env)
    return self.block(s.body, env)

  def loop(self, s, env, target=None):
    head = dict(env)
    ks = {}
    for n in sorted(stored(s.body + ([target] if target is not None else []))):
      if n in env and isinstance(env[n], frozenset):
        v = self.variable(text(env[n]), [])
        ks[n] = self.counter(v)
        head[n] = v
    env = dict(head)
    self.frames.append(([], []))
    if isinstance(s, ast.While):
      self.ev(s.test, env)
    else:
      it = self.ev(s.iter, dict(env))
      self.bind(s.target, self.each(s.iter, it, env), env)
    end = self.block(s.body, env)
    breaks, conts = self.frames.pop()
    for c in conts:
      end = join(end, c)
    for n, k in ks.items():
      steps = set()
      if end is not None and n in end:
        v = end[n]
        me = '\u27e8%06d\u27e9' % k
        for f in v if isinstance(v, frozenset) else [lin(text(v))]:
          d = dict(f)
          if d.get(me) == 1:
            g = add(f, lin(me), -1)
            if g:
              steps.add(('+' if not text1(g).startswith('-') else '') +
                        text1(g))
          else:
            steps.add('=' + text1(f))
      steps = [x[1:] if x.startswith('+') else x for x in sorted(steps)]
      self.loops[k] = (self.loops[k][0], steps)
    out = head
    if s.orelse:
      out = self.block(s.orelse, dict(out))
    endless = (isinstance(s, ast.While) and isinstance(
        s.test, ast.Constant) and s.test.value is True)
    if endless:
      out = None
    for b in breaks:
      out = join(out, b)
    return out

  def st_While(self, s, env):
    return self.loop(s, env)

  def st_For(self, s, env):
    return self.loop(s, env, s.target)


def named(v):
  """Layouts that are given by name."""
  if v.startswith(("'", 'either(', 'const ', 'arg')) or '.' in v:
    return v
  return 'computed'


def key_of(f):
  return f.cls.name + '.__init__' if f.name == '__init__' else f.name


def as_load(t):
  t = ast.parse(ast.unparse(t), mode='eval').body
  return t


def collect(proj):
  """module -> {form: (function, line)} and counts."""
  proj.class_names = {c.name: c for c in proj.classes.values()}
  proj.by_name = {}
  for q, f in sorted(proj.functions.items()):
    proj.by_name.setdefault(f.name, []).append(f)
  walks = {}
  for q, f in sorted(proj.functions.items()):
    if isinstance(f.node, ast.FunctionDef):
      walks[q] = Walk(proj, f)
  rows = []
  for q, w in walks.items():
    for kind, s, line, quiet in w.sinks:
      if not quiet and (isinstance(kind, str) or s not in VAGUE):
        rows.append((q, kind, w.resolved(s), line))
  # what the places are computed from: parameters, attributes and results
  def uses(q, t):
    f = proj.functions[q]
    out = set()
    for m in WORD.finditer(t):
      w = m.group(0)
      if w.startswith('arg') and w[3:].isdigit():
        out.add(('call', key_of(f), int(w[3:])))
      elif w.startswith('.'):
        out.add(('set', w[1:]))
      elif w.endswith(']'):
        i = w.index('(')
        out.add(('return', w[:i], int(w[i + 3:-1])))
      elif w.endswith('()'):
        out.add(('return', w[:-2], None))
    return out
  by_kind = {}
  todo = []
  for row in rows:
    if isinstance(row[1], str):
      todo.append(row)
    else:
      by_kind.setdefault(row[1], []).append(row)
  relevant = set()
  seen = []
  while todo:
    row = todo.pop()
    seen.append(row)
    for k in uses(row[0], row[2]):
      if k not in relevant:
        relevant.add(k)
        todo.extend(by_kind.get(k, ()))
  rows = [r for r in rows if isinstance(r[1], str) or r[1] in relevant]
  tests = {}
  out = {}
  n = 0
  for q, kind, s, line in rows:
    if not isinstance(kind, str):
      if kind[0] == 'call':
        kind = 'argument %d of %s' % (kind[2] + 1, kind[1])
      elif kind[0] == 'set':
        kind = 'attribute %s' % kind[1]
      else:
        kind = 'result%s of %s' % (
            '' if kind[2] is None else ' %d' % (kind[2] + 1), kind[1])
    n += 1
    f = proj.functions[q]
    out.setdefault(f.module.rel, {}).setdefault(
        '%s: %s' % (kind, s), (q.split(':')[-1], line))
  for q, w in walks.items():
    f = proj.functions[q]
    for sums, bound, line in w.boundaries():
      tests.setdefault('%s:%s' % (f.module.rel, q.split(':')[-1]), {}
                       ).setdefault((sums, bound), line)
  return out, n, len(walks), tests
