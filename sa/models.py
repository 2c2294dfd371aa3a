"""Semantics of what the program uses from outside: builtins and libraries."""

import ast
import functools
import builtins
import importlib
import re

from sa import linear
from sa import values as V

# None with these provenances comes from a table that does not track when the
# attribute is set; it raises no alarm.
QUIET_NONE = frozenset(['attr'])

PARSE_ERROR = 'dtformats.errors:ParseError'

# Exceptions whose origin is not tracked.
UNTRACKED = frozenset([
    PARSE_ERROR, 'OSError', 'KeyboardInterrupt', 'SystemExit'])

_EXT_EXC = {
    'zlib.error': ('zlib.error', 'Exception'),
    'struct.error': ('struct.error', 'Exception'),
    'binascii.Error': ('binascii.Error', 'ValueError', 'Exception'),
    'json.JSONDecodeError': ('json.JSONDecodeError', 'ValueError',
                             'Exception'),
    'json.decoder.JSONDecodeError': (
        'json.decoder.JSONDecodeError', 'ValueError', 'Exception'),
    'lz4.block.LZ4BlockError': (
        'lz4.block.LZ4BlockError', 'RuntimeError', 'Exception'),
    'snappy.UncompressError': (
        'snappy.UncompressError', 'Exception'),
    'zstd.Error': ('zstd.Error', 'Exception'),
    're.error': ('re.error', 'Exception'),
    'plistlib.InvalidFileException': (
        'plistlib.InvalidFileException', 'ValueError', 'Exception'),
    'dtfabric.errors.Error': ('dtfabric.errors.Error', 'Exception'),
}
for _n in ('ByteStreamTooSmallError', 'MappingError', 'FoldingError',
           'FormatError', 'DefinitionReaderError'):
  _EXT_EXC['dtfabric.errors.' + _n] = (
      'dtfabric.errors.' + _n, 'dtfabric.errors.Error', 'Exception')

_exc_cache = {}


def exc_bases(I, exc):
  """Names of an exception class and its bases."""
  r = _exc_cache.get(exc)
  if r is not None:
    return r
  if exc in _EXT_EXC:
    r = frozenset(_EXT_EXC[exc]) | {'BaseException'}
  elif exc in I.p.classes:
    out = set()
    for b in I.p.classes[exc].mro:
      out.add(b)
      for e in I.p.classes[b].ext_bases:
        out |= exc_bases(I, e)
    r = frozenset(out)
  else:
    c = getattr(builtins, exc, None)
    if isinstance(c, type) and issubclass(c, BaseException):
      names = set()
      for b in c.__mro__:
        if b is not object:
          names.add(b.__name__)
      r = frozenset(names)
    else:
      r = frozenset([exc, 'Exception', 'BaseException'])
  if exc in ('IOError', 'EnvironmentError'):
    r = exc_bases(I, 'OSError') | {exc}
  _exc_cache[exc] = r
  return r


def canonical_exc(name):
  if name.startswith('builtins.'):
    name = name[9:]
  if name in ('IOError', 'EnvironmentError'):
    return 'OSError'
  if name.startswith('snappy.') and name.endswith('UncompressError'):
    return 'snappy.UncompressError'
  if name.startswith('lz4.block.'):
    return 'lz4.block.LZ4BlockError'
  return name


def exception_names(I, v, node=None):
  """Names of the exception classes a value stands for."""
  out = []
  for t in v:
    if t[0] == 'tuple':
      for x in t[1]:
        out.extend(exception_names(I, x))
    elif t[0] == 'inst' or t[0] == 'cls':
      out.append(t[1])
    elif t[0] == 'ext':
      out.append(canonical_exc(t[1]))
    elif t[0] == 'exti' and t[1].startswith('exc:'):
      out.append(t[1][4:])
  return sorted(set(out)) or ['Exception']


def order_kind(t):
  k = t[0]
  if k in ('int', 'float', 'bool'):
    return 'number'
  if k in ('str', 'bytes', 'none'):
    return k
  if k in ('tuple', 'vtuple'):
    return 'tuple'
  if k in ('list', 'dict', 'struct', 'map'):
    return k
  return None


# -- attributes ---------------------------------------------------------------

_STDLIB = ('os', 'os.path', 'sys', 'zlib', 're', 'uuid', 'struct', 'datetime',
           'base64', 'hashlib', 'json', 'logging', 'glob', 'bz2', 'gzip',
           'heapq', 'plistlib', 'collections', 'argparse', 'abc', 'io',
           'warnings', 'functools', 'time', 'calendar', 'string', 'math',
           'datetime.datetime', 'datetime.timedelta', 'uuid.UUID')

_INT_CONSTS = {'os.SEEK_SET': 0, 'os.SEEK_CUR': 1, 'os.SEEK_END': 2}


def ext_attr(I, dotted, name, node, st):
  full = dotted + '.' + name
  if full in _INT_CONSTS:
    return V.int_const(_INT_CONSTS[full])
  if full in ('os.sep', 'os.path.sep', 'os.linesep'):
    return V.NSTR
  if full == 'sys.argv' or full == 'os.environ':
    I.event('ambient', node, full)
    return V.ANY
  if full == 'sys.version_info':
    return V.ANY
  if dotted in _STDLIB:
    mod, attr = dotted, None
    obj = None
    try:
      obj = importlib.import_module(mod)
    except ImportError:
      m, _, a = mod.rpartition('.')
      try:
        obj = getattr(importlib.import_module(m), a, None)
      except ImportError:
        obj = None
    if obj is not None and not hasattr(obj, name):
      I.event('attribute', node, '%s has no attribute %s' % (dotted, name),
              recv=('ext', dotted), name=name)
      I.emit('AttributeError', node, st, full)
      return V.BOTTOM
  if dotted.startswith('builtins.'):
    c = getattr(builtins, dotted[9:], None)
    if c is not None and not hasattr(c, name):
      I.event('attribute', node, '%s has no attribute %s' % (dotted, name),
              recv=('ext', dotted), name=name)
      I.emit('AttributeError', node, st, full)
      return V.BOTTOM
  return V.atom('ext', full)


_PYTYPE = {'str': str, 'bytes': bytes, 'int': int, 'float': float,
           'bool': bool, 'tuple': tuple, 'vtuple': tuple, 'list': list,
           'dict': dict, 'set': set}

_FILE_ATTRS = ('read', 'seek', 'tell', 'close', 'write', 'readline',
               'readlines', 'get_size', 'get_offset', 'name', 'flush',
               'fileno', 'truncate', 'mode', 'closed', '__enter__', 'seekable',
               'readable', 'readinto', 'writelines')


def builtin_attr(I, t, name, node, st, default=None):
  k = t[0]
  py = _PYTYPE.get(k)
  if py is not None:
    if k == 'dict' and name in ('move_to_end', 'popitem'):
      return V.atom('meth', t, name)
    if not hasattr(py, name):
      return I.missing(t, name, node, st, default)
    if k in ('int', 'float') and name in ('real', 'imag', 'numerator'):
      return frozenset([t])
    return V.atom('meth', t, name)
  if k == 'map':
    if name == 'name':
      return V.str_const(t[2])
    return V.atom('meth', t, name)
  if k in ('fabric', 'gen', 'iter'):
    return V.atom('meth', t, name)
  if k == 'file':
    if name not in _FILE_ATTRS:
      return I.missing(t, name, node, st, default)
    return V.atom('meth', t, name)
  if k == 'ctx':
    if name in ('byte_size', 'requested_size'):
      return V.NAT
    return V.ANY
  if k == 'exti':
    return exti_attr(I, t, name, node, st, default)
  if k in ('func', 'bound'):
    if name in ('__name__', '__doc__', '__dict__', '__module__'):
      return V.ANY
    return I.missing(t, name, node, st, default)
  return V.ANY


_UUID_INT = ('int', 'time', 'fields')


def exti_attr(I, t, name, node, st, default=None):
  typ = t[1]
  if typ == 'uuid.UUID':
    import uuid
    if not hasattr(uuid.UUID, name) and name not in ('int', 'is_safe'):
      return I.missing(t, name, node, st, default)
    if name in ('hex', 'urn'):
      return V.NSTR
    if name == 'int':
      return V.NAT
    if name in ('bytes', 'bytes_le'):
      return V.bytes_len(16, 16)
    return V.ANY
  if typ in ('datetime.datetime', 'datetime.timedelta', 'datetime.date'):
    import datetime
    c = getattr(datetime, typ.split('.')[1])
    if not hasattr(c, name):
      return I.missing(t, name, node, st, default)
    return V.atom('meth', t, name)
  return V.atom('meth', t, name)


# -- operators ----------------------------------------------------------------


def unary(I, op, v, node, st):
  out = V.BOTTOM
  for t in v:
    if t[0] in ('int', 'bool'):
      lo, hi = V.bounds(frozenset([t]))
      if isinstance(op, ast.USub):
        if t[0] == 'int' and t[3] is not None:
          out = V.join(out, V.int_set(-x for x in t[3]))
          continue
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
      elif isinstance(op, ast.Invert):
        lo, hi = (None if hi is None else ~hi), (None if lo is None else ~lo)
      out = V.join(out, V.int_range(lo, hi))
    elif t[0] == 'float':
      out = V.join(out, frozenset(
          [t if len(t) == 3 else ('float',)]))
    elif t[0] in ('any', 'exti', 'ext'):
      out = V.join(out, V.ANY)
    elif t[0] == 'none' and t[1] in QUIET_NONE:
      pass
    else:
      I.event('type', node, 'unary operator on ' + V.show(frozenset([t])))
      I.emit('TypeError', node, st, 'operand')
  return out


def _mul(a, b):
  return None if a is None or b is None else a * b


def _arith(op, a, b):
  """Interval arithmetic on int atoms."""
  (al, ah), (bl, bh) = V.bounds(frozenset([a])), V.bounds(frozenset([b]))
  av = a[3] if a[0] == 'int' else None
  bv = b[3] if b[0] == 'int' else None
  if av is not None and bv is not None and len(av) * len(bv) <= 64:
    f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y,
         ast.Mult: lambda x, y: x * y, ast.BitAnd: lambda x, y: x & y,
         ast.BitOr: lambda x, y: x | y, ast.BitXor: lambda x, y: x ^ y,
         ast.LShift: lambda x, y: x << y if 0 <= y < 256 else 0,
         ast.RShift: lambda x, y: x >> y if 0 <= y < 4096 else 0,
         ast.FloorDiv: lambda x, y: x // y if y else 0,
         ast.Mod: lambda x, y: x % y if y else 0}.get(type(op))
    if f:
      vals = {f(x, y) for x in av for y in bv
              if not (isinstance(op, (ast.FloorDiv, ast.Mod)) and y == 0)}
      return V.int_set(vals) if vals else V.BOTTOM
  n = None
  if isinstance(op, ast.Add):
    return V.int_range(None if al is None or bl is None else al + bl,
                       None if ah is None or bh is None else ah + bh)
  if isinstance(op, ast.Sub):
    return V.int_range(None if al is None or bh is None else al - bh,
                       None if ah is None or bl is None else ah - bl)
  if isinstance(op, ast.Mult):
    if al is not None and bl is not None and al >= 0 and bl >= 0:
      return V.int_range(al * bl, _mul(ah, bh))
    if None not in (al, ah, bl, bh):
      c = [al * bl, al * bh, ah * bl, ah * bh]
      return V.int_range(min(c), max(c))
    return V.INT
  if isinstance(op, ast.BitAnd):
    # A non negative operand bounds the result.
    his = [h for l, h in ((al, ah), (bl, bh))
           if l is not None and l >= 0 and h is not None]
    if his:
      return V.int_range(0, min(his))
    if (al is not None and al >= 0) or (bl is not None and bl >= 0):
      return V.NAT
    return V.INT
  if isinstance(op, (ast.BitOr, ast.BitXor)):
    if al is not None and bl is not None and al >= 0 and bl >= 0:
      hi = None
      if ah is not None and bh is not None:
        hi = (1 << max(ah.bit_length(), bh.bit_length())) - 1
      lo = max(al, bl) if isinstance(op, ast.BitOr) else 0
      return V.int_range(lo, hi)
    return V.INT
  if isinstance(op, ast.LShift):
    if al is not None and al >= 0 and bl is not None and bl >= 0:
      hi = None
      if ah is not None and bh is not None and bh < 512:
        hi = ah << bh
      return V.int_range(al << bl if bl < 512 else al, hi)
    return V.INT
  if isinstance(op, ast.RShift):
    if al is not None and al >= 0:
      hi = ah
      if ah is not None and bl is not None and bl >= 0:
        hi = ah >> min(bl, 4096)
      lo = 0
      if bh is not None and bh >= 0:
        lo = al >> min(bh, 4096)
      return V.int_range(lo, hi)
    return V.INT
  if isinstance(op, ast.FloorDiv):
    if al is not None and al >= 0 and bl is not None and bl >= 0:
      d = max(bl, 1)
      lo = 0
      if bh:
        lo = al // bh
      return V.int_range(lo, None if ah is None else ah // d)
    return V.INT
  if isinstance(op, ast.Mod):
    if bl is not None and bl >= 0:
      hi = None if bh is None else max(bh - 1, 0)
      if ah is not None and al is not None and al >= 0:
        if bl is not None and ah < bl:
          return V.int_range(al, ah)
        hi = ah if hi is None else min(hi, ah)
      return V.int_range(0, hi)
    return V.INT
  if isinstance(op, ast.Div):
    return V.FLOAT
  if isinstance(op, ast.Pow):
    if None not in (al, ah, bl, bh) and al >= 0 and bl >= 0 and bh < 512:
      return V.int_range(al ** bl, ah ** bh)
    return V.INT
  return V.INT


_OPNAME = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
           ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|',
           ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**'}


def binop(I, op, a, b, node, st, ln, rn):
  out = V.BOTTOM
  for x in a:
    for y in b:
      out = V.join(out, binop_atoms(I, op, x, y, node, st))
  if isinstance(op, ast.Sub) and ln is not None:
    out = refine_sub(I, out, ln, rn, st)
  return out


def refine_sub(I, out, ln, rn, st):
  """a - b is not negative when b <= a is known."""
  if not any(t[0] == 'int' and (t[1] is None or t[1] < 1) for t in out):
    return out
  try:
    l, r = ast.unparse(ln), ast.unparse(rn)
  except Exception:
    return out
  low = None
  for (x, o, y, _) in st.facts:
    if x == r and y == l and o in ('<', '<=', '=='):
      low = max(low or 0, 1 if o == '<' else 0)
    elif o == '==' and x == l and y == r:
      low = max(low or 0, 0)
  if low is None:
    return out
  res = set()
  for t in out:
    if t[0] == 'int':
      res |= V.int_restrict(t, '>=', low)
    else:
      res.add(t)
  return V.normalise(res)


def binop_atoms(I, op, x, y, node, st):
  a, b = x[0], y[0]
  num = ('int', 'bool', 'float')
  if a == 'unbound' or b == 'unbound':
    return V.BOTTOM
  for t in (x, y):
    if t[0] == 'none':
      if t[1] in QUIET_NONE:
        return V.BOTTOM
      I.event('type', node, 'operator %s on None' % _OPNAME.get(
          type(op), '?'), tag=t[1])
      I.emit('TypeError', node, st, 'operand is None')
      return V.BOTTOM
  if a == 'any' or b == 'any':
    if isinstance(op, ast.Mod) and a == 'str':
      return V.STR
    return V.ANY
  if a in num and b in num:
    if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
      zero = b == 'float' or V.truthiness(frozenset([y]))[1]
      if zero:
        I.emit('ZeroDivisionError', node, st, 'division')
        if b == 'int':
          y2 = V.int_restrict(y, '!=', 0)
          if not y2:
            return V.BOTTOM
          y = next(iter(y2))
    if a == 'float' or b == 'float':
      if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift,
                         ast.RShift)):
        I.event('type', node, 'bit operator on a float')
        I.emit('TypeError', node, st, 'operand')
        return V.BOTTOM
      return V.FLOAT
    if isinstance(op, (ast.LShift, ast.RShift)):
      bb = V.bounds(frozenset([y]))
      if bb[0] is None or bb[0] < 0:
        I.emit('ValueError', node, st, 'negative shift count')
      if isinstance(op, ast.LShift) and (bb[1] is None or bb[1] > 1 << 16):
        I.event('huge-shift', node, 'shift count is not bounded')
    if isinstance(op, ast.Div):
      return V.FLOAT
    return _arith(op, x, y)
  if isinstance(op, ast.Mod) and a in ('str', 'bytes'):
    return V.STR if a == 'str' else V.BYTES
  if isinstance(op, ast.Add):
    if a == b == 'str':
      if x[1] is not None and y[1] is not None and (
          len(x[1]) * len(y[1]) <= 16):
        return V.str_set(p + q for p in x[1] for q in y[1])
      return V.atom('str', None, x[2] or y[2])
    if a == b == 'bytes':
      hi = None if x[3] is None or y[3] is None else x[3] + y[3]
      return V.bytes_len(x[2] + y[2], hi, x[4] | y[4])
    if a == b == 'tuple':
      return V.tup(*(x[1] + y[1]))
    if a in ('tuple', 'vtuple') and b in ('tuple', 'vtuple'):
      return V.vtuple(V.join(_elems(x), _elems(y)))
    if a == b == 'list':
      s, h = I.new_heap('list', node, 'add')
      I.heap_add(('list', s), elem=V.join(
          I.heap_of(x).elem, I.heap_of(y).elem), mutate=False)
      return V.atom('list', s)
  if isinstance(op, ast.Mult):
    for p, q in ((x, y), (y, x)):
      if q[0] in ('int', 'bool'):
        if p[0] == 'str':
          return V.STR
        if p[0] == 'bytes':
          lo, hi = V.bounds(frozenset([q]))
          return V.bytes_len(
              p[2] * max(lo or 0, 0),
              None if hi is None or p[3] is None else p[3] * max(hi, 0))
        if p[0] in ('tuple', 'vtuple'):
          return V.vtuple(_elems(p))
        if p[0] == 'list':
          return frozenset([p])
  if a == 'set' and b == 'set':
    return frozenset([x])
  if a == 'dict' and b == 'dict' and isinstance(op, ast.BitOr):
    return frozenset([x])
  if a == 'exti' or b == 'exti':
    names = {t[1] for t in (x, y) if t[0] == 'exti'}
    if names & {'datetime.datetime', 'datetime.timedelta'}:
      other = [t for t in (x, y) if t[0] != 'exti']
      if other and not (isinstance(op, (ast.Mult, ast.Div, ast.FloorDiv)) and
                        other[0][0] in num):
        I.event('type', node, 'operator %s between %s and %s' % (
            _OPNAME.get(type(op), '?'), V.show(frozenset([x])),
            V.show(frozenset([y]))))
        I.emit('TypeError', node, st, 'operand')
        return V.BOTTOM
      I.emit('OverflowError', node, st, 'date out of range')
      if 'datetime.datetime' in names:
        if isinstance(op, ast.Sub) and x == y:
          return V.atom('exti', 'datetime.timedelta')
        return V.atom('exti', 'datetime.datetime')
      return V.atom('exti', 'datetime.timedelta')
    return V.ANY
  if 'ext' in (a, b) or 'iter' in (a, b) or 'inst' in (a, b):
    return V.ANY
  I.event('type', node, 'operator %s between %s and %s' % (
      _OPNAME.get(type(op), '?'), V.show(frozenset([x])),
      V.show(frozenset([y]))))
  I.emit('TypeError', node, st, 'operand')
  return V.BOTTOM


def _elems(t):
  return V.join_all(t[1]) if t[0] == 'tuple' else t[1]


_SPEC = re.compile(r'^(?:.?[<>=^])?[-+ ]?#?0?(\d+)?[,_]?(\.\d+)?([a-zA-Z%])?$')


def order_text(I, v, node):
  """A value becomes text, by its order of elements or by its address."""
  I.order_check(v, node, 'text')
  for t in v:
    if t[0] == 'inst' and t[1] in I.p.classes:
      c = I.p.classes[t[1]]
      if not c.ext_bases and not any(
          n in I.p.classes[b].methods for b in c.mro
          for n in ('__str__', '__repr__', '__format__')):
        I.event('address', node, t[1])
    elif t[0] in ('func', 'bound', 'gen'):
      I.event('address', node, t[0])


def check_format(I, v, conversion, spec, node, st):
  """f-string or format() of a value with a format specification."""
  order_text(I, v, node)
  if conversion not in (-1, None):
    v = V.NSTR
  if spec is None or spec == '':
    return
  for t in v:
    k = t[0]
    if k in ('any', 'exti', 'unbound', 'ext', 'meth', 'file'):
      continue
    if k == 'exti':
      continue
    m = _SPEC.match(spec)
    typ = m.group(3) if m else None
    bad = None
    if k == 'none':
      if t[1] in QUIET_NONE:
        continue
      bad = 'None'
    elif k in ('int', 'bool'):
      if typ == 's':
        bad = V.show(frozenset([t]))
    elif k == 'float':
      if typ in ('s', 'd', 'x', 'X', 'o', 'b', 'c', 'n'):
        bad = 'float' if typ != 'n' else None
    elif k == 'str':
      if typ not in ('s', None):
        bad = 'str'
    else:
      bad = V.show(frozenset([t]))
    if bad:
      I.event('format', node, '%s is formatted with :%s' % (bad, spec),
              tag=t[1] if k == 'none' else None)
      I.emit('TypeError' if k not in ('int', 'bool', 'str', 'float')
             else 'ValueError', node, st, 'format :%s' % spec)


# -- subscripts ---------------------------------------------------------------


def slice_value(I, b, parts, node, st):
  out = V.BOTTOM
  lo, hi, step = parts
  for p in parts:
    if p is None:
      continue
    for t in p:
      if t[0] in ('str', 'bytes', 'float', 'tuple', 'struct', 'list', 'dict'):
        I.event('type', node, 'slice bound is ' + V.show(frozenset([t])))
        I.emit('TypeError', node, st, 'slice bound')
  for t in b:
    k = t[0]
    if k == 'bytes':
      l, h = 0, t[3]
      lb = V.bounds(lo) if lo is not None else (0, 0)
      hb = V.bounds(hi) if hi is not None else None
      # a part of data that can be short
      flags = t[4] | {('part',) + f[1:] for f in t[4] if f[0] == 'short'}
      if step is None and lb and lb[0] is not None and lb[0] >= 0:
        if hb and hb[0] is not None and hb[0] >= 0:
          if lb[1] is not None:
            # data[a:b] has at least min(b, len) - a bytes.
            l = max(0, min(hb[0], t[2]) - lb[1])
          if hb[1] is not None:
            w = max(0, hb[1] - lb[0])
            h = w if h is None else min(h, w)
          d = slice_width(node)
          if d is not None:
            h = d if h is None else min(h, d)
        elif hi is None:
          if lb[1] is not None:
            l = max(0, t[2] - lb[1])
          if t[3] is not None:
            h = max(0, t[3] - lb[0])
        else:
          l = 0
      out = V.join(out, V.bytes_len(l, h, flags))
    elif k == 'str':
      out = V.join(out, V.STR)
    elif k == 'tuple':
      ls = V.bounds(lo) if lo is not None else (0, 0)
      hs = V.bounds(hi) if hi is not None else (len(t[1]), len(t[1]))
      if ls and hs and ls[0] is not None and ls[0] == ls[1] and (
          hs[0] is not None and hs[0] == hs[1]) and step is None:
        out = V.join(out, V.tup(*t[1][ls[0]:hs[0]]))
      else:
        out = V.join(out, V.vtuple(V.join_all(t[1])))
    elif k == 'vtuple':
      out = V.join(out, V.vtuple(t[1], 0, t[3]))
    elif k == 'list':
      s, h = I.new_heap('list', node, 'slice')
      I.heap_add(('list', s), elem=I.heap_of(t).elem, mutate=False)
      out = V.join(out, V.atom('list', s))
    elif k == 'none':
      if t[1] not in QUIET_NONE:
        I.event('none', node, 'None is sliced', tag=t[1])
        I.emit('TypeError', node, st, 'None is sliced')
    elif k in ('int', 'float', 'bool', 'struct', 'dict', 'set', 'map'):
      I.event('type', node, '%s is sliced' % V.show(frozenset([t])))
      I.emit('TypeError', node, st, 'slice')
    elif k != 'unbound':
      out = V.join(out, V.ANY)
  return out


def slice_width(node):
  """Width of x[a:a + c]."""
  s = node.slice
  if s.lower is None or not isinstance(s.upper, ast.BinOp) or not isinstance(
      s.upper.op, ast.Add):
    return None
  l = ast.unparse(s.lower)
  for p, q in ((s.upper.left, s.upper.right), (s.upper.right, s.upper.left)):
    if isinstance(q, ast.Constant) and isinstance(q.value, int) and (
        ast.unparse(p) == l):
      return q.value
  return None


def index_in_range(I, node, i, lo_len, st):
  """Is the index surely within the sequence?"""
  if any(x[0] == 'any' for x in i):
    return True
  b = V.bounds(i)
  if b is None:
    return True
  lo, hi = b
  if lo is not None and hi is not None:
    if lo >= 0 and hi < lo_len:
      return True
    if hi < 0 and -lo <= lo_len:
      return True
  try:
    base = ast.unparse(node.value)
    idx = ast.unparse(node.slice)
  except Exception:
    return False
  if lo is not None and lo < 0 and not (hi is not None and hi < 0):
    # May be negative: only an upper bound is known.
    pass
  names = {idx}
  for (x, o, y, _) in st.facts:
    if o == '==' and x == idx:
      names.add(y)
    elif o == '==' and y == idx:
      names.add(x)
  lens = {'len(%s)' % base}
  for (x, o, y, _) in st.facts:
    if o == '==' and y in lens:
      lens.add(x)
    elif o == '==' and x in lens:
      lens.add(y)
  if lo is None or lo < -lo_len:
    if not (lo is not None and lo >= 0):
      # A negative index needs its own check.
      pos = any(x in ('0', '-1') and y in names and o in ('<', '<=')
                for (x, o, y, _) in st.facts)
      if not pos:
        return False
  for (x, o, y, _) in st.facts:
    if o == '<' and x in names and y in lens:
      return True
    if o == 'in' and x in names:
      if y in ('range(%s)' % z for z in lens):
        return True
  # The least length that the conditions leave.
  least = 0
  for (x, o, y, _) in st.facts:
    if y in lens and o in ('<', '<=', '==') and x.lstrip('-').isdigit():
      least = max(least, int(x) + (o == '<'))
    elif x in lens and o == '==' and y.isdigit():
      least = max(least, int(y))
  for n in lens:
    v = st.env.get(n)
    bb = V.bounds(v) if v else None
    if bb and bb[0] is not None:
      least = max(least, bb[0])
  if least > lo_len:
    if lo is not None and hi is not None and (
        0 <= lo and hi < least or hi < 0 and -lo <= least):
      return True
  return linear_in_range(I, node, i, lo_len, st)


@functools.lru_cache(maxsize=None)
def linear_form(text):
  """A linear expression over the parts of the text that are not linear."""
  try:
    return _linear(ast.parse(text, mode='eval').body)
  except (SyntaxError, ValueError):
    return None


def _linear(n):
  if isinstance(n, ast.Constant) and type(n.value) in (int, bool):
    return linear.const(int(n.value))
  if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
    return linear.scale(_linear(n.operand), -1)
  if isinstance(n, ast.BinOp):
    if isinstance(n.op, (ast.Add, ast.Sub)):
      return linear.add(_linear(n.left), _linear(n.right),
                        1 if isinstance(n.op, ast.Add) else -1)
    if isinstance(n.op, ast.Mult):
      a, b = _linear(n.left), _linear(n.right)
      for x, y in ((a, b), (b, a)):
        if linear.is_const(x):
          return linear.scale(y, linear.value(x))
  return linear.sym(ast.unparse(n))


def linear_facts(I, want, st):
  """The conditions on the path that are connected with some symbols, as
  inequalities, and the bounds of the symbols; None when there are too many."""
  cons = []
  for (x, o, y, _) in st.facts:
    if o not in ('<', '<=', '=='):
      continue
    a, b = linear_form(x), linear_form(y)
    if a is None or b is None:
      continue
    d = linear.add(b, a, -1)
    if o == '<':
      d = linear.add(d, linear.const(-1))
    cons.append(d)
    if o == '==':
      cons.append(linear.scale(d, -1))
  want = set(want)
  while True:
    more = {s for c in cons if any(s in want for s in c)
            for s in c if s != 1} - want
    if not more:
      break
    want |= more
  cons = [c for c in cons if any(s in want for s in c)]
  if len(cons) > 24:
    return None
  for s in want:
    if s.startswith('len('):
      cons.append(linear.sym(s))
    v = st.env.get(s)
    if v is None:
      try:
        v = I.ev_quiet(ast.parse(s, mode='eval').body, st)
      except Exception:
        v = None
    b = V.bounds(v) if v else None
    if b and all(t[0] in ('int', 'bool') for t in v):
      if b[0] is not None:
        cons.append(linear.add(linear.sym(s), linear.const(-b[0])))
      if b[1] is not None:
        cons.append(linear.add(linear.const(b[1]), linear.sym(s), -1))
  return cons


def linear_in_range(I, node, i, lo_len, st):
  """Do the conditions on the path imply 0 <= index < length?"""
  base = ast.unparse(node.value)
  idx = linear_form(ast.unparse(node.slice))
  if idx is None:
    return False
  length = linear.sym('len(%s)' % base)
  cons = linear_facts(I, {s for s in list(idx) + list(length) if s != 1}, st)
  if cons is None:
    return False
  cons.append(linear.add(length, linear.const(-lo_len)))
  b = V.bounds(i)
  if b and b[0] is not None:
    cons.append(linear.add(idx, linear.const(-b[0])))
  if b and b[1] is not None:
    cons.append(linear.add(linear.const(b[1]), idx, -1))
  top = linear.add(linear.add(length, idx, -1), linear.const(-1))
  return (linear.entails(cons, top) and
          linear.entails(cons, linear.add(idx, length)))


def linear_bounds(I, node, v, st):
  """The bounds of an int expression, with the conditions on the path."""
  b = V.bounds(v)
  if not b or node is None or st is None or (
      b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] < INT64):
    return b
  e = linear_form(ast.unparse(node))
  if e is None:
    return b
  cons = linear_facts(I, {s for s in e if s != 1}, st)
  if cons is None:
    return b
  lo, hi = b
  if lo is not None:
    cons.append(linear.add(e, linear.const(-lo)))
  elif linear.entails(cons, e):
    lo = 0
  if hi is not None and hi <= MAX_FILE:
    cons.append(linear.add(linear.const(hi), e, -1))
  elif linear.entails(cons, linear.add(linear.const(MAX_FILE), e, -1)):
    hi = MAX_FILE
  return lo, hi


def index_value(I, b, i, node, st):
  out = V.BOTTOM
  ib = V.bounds(i)
  for t in b:
    k = t[0]
    if k in ('tuple', 'vtuple', 'list', 'bytes', 'str'):
      for x in i:
        if x[0] in ('str', 'bytes', 'float', 'tuple', 'struct', 'list',
                    'dict') or (x[0] == 'none' and x[1] not in QUIET_NONE):
          I.event('type', node, 'index is ' + V.show(frozenset([x])))
          I.emit('TypeError', node, st, 'index')
    if k == 'tuple':
      n = len(t[1])
      if ib and ib[0] is not None and ib[0] == ib[1]:
        if -n <= ib[0] < n:
          out = V.join(out, t[1][ib[0]])
        else:
          I.event('index', node, 'index %d of a tuple of %d' % (ib[0], n))
          I.emit('IndexError', node, st, 'index of a tuple')
      else:
        if not index_in_range(I, node, i, n, st):
          I.emit('IndexError', node, st, 'index of a tuple')
        out = V.join(out, V.join_all(t[1]))
    elif k == 'vtuple':
      if not index_in_range(I, node, i, t[2], st):
        I.emit('IndexError', node, st, 'index of a decoded sequence')
      out = V.join(out, t[1])
    elif k == 'list':
      h = I.heap_of(t)
      n = 0
      if not h.mutated:
        n = len(h.seq) if h.seq is not None else I.minlen.get(t[1], 0)
      elif not h.shrunk:
        n = max(h.size, I.minlen.get(t[1], 0))
        if h.seq is not None and ib and ib[0] is not None and (
            ib[0] == ib[1]) and -n <= ib[0] < n:
          out = V.join(out, h.seq[ib[0]])
          continue
      if (node and not index_in_range(I, node, i, n, st) and
          not nonempty_index(I, node, ib, st)):
        I.emit('IndexError', node, st, 'index of a list')
      out = V.join(out, V.retag_none(h.elem, 'attr'))
    elif k == 'bytes':
      if not index_in_range(I, node, i, t[2], st):
        I.emit('IndexError', node, st, 'index of bytes')
      out = V.join(out, V.int_range(0, 255))
    elif k == 'str':
      if t[1] is not None and ib and ib[0] is not None and ib[0] == ib[1]:
        r = set()
        for s in t[1]:
          if -len(s) <= ib[0] < len(s):
            r.add(s[ib[0]])
          else:
            I.emit('IndexError', node, st, 'index of a string')
        out = V.join(out, V.str_set(r))
        continue
      if not index_in_range(I, node, i, 1 if t[2] else 0, st):
        I.emit('IndexError', node, st, 'index of a string')
      out = V.join(out, V.NSTR)
    elif k == 'dict':
      out = V.join(out, dict_index(I, t, i, node, st))
    elif k == 'none':
      if t[1] not in QUIET_NONE:
        I.event('none', node, 'None is indexed', tag=t[1])
        I.emit('TypeError', node, st, 'None is indexed')
    elif k in ('int', 'float', 'bool', 'struct', 'set', 'map', 'func',
               'bound'):
      I.event('type', node, '%s is indexed' % V.show(frozenset([t])))
      I.emit('TypeError', node, st, 'index')
    elif k != 'unbound':
      out = V.join(out, V.ANY)
  return out


def nonempty_index(I, node, ib, st):
  """x[0] or x[-1] where x is known not to be empty."""
  if not ib or ib not in ((0, 0), (-1, -1)):
    return False
  base = ast.unparse(node.value)
  for (x, o, y, _) in st.facts:
    if o == 'true' and x == base:
      return True
    if x == '0' and o == '<' and y == 'len(%s)' % base:
      return True
    if x == '1' and o == '<=' and y == 'len(%s)' % base:
      return True
  return False


def dict_index(I, t, i, node, st):
  h = I.heap_of(t)
  cs = V.consts(i)
  if cs is not None and not h.open:
    out = V.BOTTOM
    for c in cs:
      if c in h.items:
        out = V.join(out, h.items[c])
      else:
        I.emit('KeyError', node, st, 'key %r' % (c,))
    return out
  if cs is not None and all(c in h.items for c in cs):
    return h.lookup(cs)[0]
  base = ast.unparse(node.value)
  idx = ast.unparse(node.slice)
  known = any(o == 'in' and x == idx and y == base
              for (x, o, y, _) in st.facts)
  if not known and cs is not None and h.open and all(
      c in h.items for c in cs):
    known = True
  if not known and not has_default(h):
    I.emit('KeyError', node, st, 'key of %s' % base)
  return V.retag_none(h.elem, 'attr')


def has_default(h):
  return bool(h.where and h.where[5] == 'defaultdict')


# -- calls --------------------------------------------------------------------


def intrinsic(I, f, selfatom, args, kwargs, node, st):
  """Class methods that load definition files."""
  if f.module.name != 'dtformats.data_format' or f.kind != 'class':
    return None
  if f.name == 'ReadDefinitionFile':
    a = args[0] if args else kwargs.get('filename', V.ANY)
    cs = V.consts(a)
    out = V.BOTTOM
    for c in cs or ():
      if not c:
        out = V.join(out, V.none('lit'))
      elif c in I.p.fabrics:
        out = V.join(out, V.atom('fabric', c))
        I.used_fabrics.add(c)
      else:
        I.always_event('no-file', node, 'definition file %s' % c)
    return out if cs else V.ANY
  if f.name == 'ReadDebugInformationFile':
    a = args[0] if args else kwargs.get('filename', V.ANY)
    cs = V.consts(a)
    if not cs or len(cs) != 1:
      return V.ANY
    c = next(iter(cs))
    cb = args[1] if len(args) > 1 else kwargs.get('custom_format_callbacks')
    return debug_information(I, c, selfatom, cb, node)
  return None


def debug_information(I, filename, selfatom, custom, node):
  """The dictionary ReadDebugInformationFile returns."""
  d = I.p.debugs.get(filename)
  s, h = I.new_heap('dict', node, 'debuginfo')
  t = ('dict', s)
  if d is None:
    I.always_event('no-file', node, 'debug definition file %s' % filename)
    return V.atom('dict', s)
  I.used_debugs.add(filename)

  def lookup(v, key):
    for x in v or ():
      if x[0] == 'dict':
        hh = I.heap[x[1]]
        if key in hh.items:
          return V.consts(hh.items[key])
    return None
  r = I.class_attr(selfatom[1], '_DEBUG_FORMAT_CALLBACKS')
  std = r[1] if r and r[0] == 'value' else V.BOTTOM
  for name, rows in d.entries.items():
    vals = []
    for an, desc, fmt in rows:
      fmt = fmt or ''
      if fmt.startswith('custom:'):
        cb = lookup(custom, fmt[7:])
      else:
        cb = lookup(std, fmt)
      if not cb:
        I.always_event(
            'no-format', node, '%s: %s.%s has format %s, for which the parser '
            'has no formatter' % (filename, name, an, fmt),
            debug=filename, layout=name, site=str(s))
        cbv = V.none('attr')
      else:
        cbv = V.str_set(cb)
      vals.append(V.tup(
          V.str_const(an) if an else V.none(),
          V.str_const(desc) if desc else V.none('attr'), cbv))
    ls, lh = I.new_heap('list', node, 'debuginfo:' + str(name))
    lh.seq = vals
    I.heap_add(('list', ls), elem=V.join_all(vals), mutate=False)
    I.dict_set(t, V.str_const(name), V.atom('list', ls), mutate=False)
  I.debug_sites[s] = filename
  return V.atom('dict', s)


def arg(args, kwargs, i, name, default=None):
  if len(args) > i:
    return args[i]
  return (kwargs or {}).get(name, default)


def new_list(I, node, elem, extra='call', minlen=0):
  s, h = I.new_heap('list', node, extra)
  if elem:
    I.heap_add(('list', s), elem=elem, mutate=False)
  return V.atom('list', s)


_NEVER_FAIL = ('latin1', 'latin-1', 'iso-8859-1', 'iso8859-1', 'l1', 'cp437',
               'cp850')


def decode_call(I, recv, args, kwargs, node, st):
  err = arg(args, kwargs, 1, 'errors')
  enc = arg(args, kwargs, 0, 'encoding')
  encs = V.consts(enc) if enc is not None else {'utf-8'}
  errs = V.consts(err) if err is not None else {'strict'}
  for t in recv:
    if t[0] == 'bytes' and any(f[0] == 'short' for f in t[4]):
      I.event('short-use', node, 'decode', flags=t[4])
  if errs is None or errs & {'strict', 'surrogatepass'}:
    if encs is None or not all(
        str(e).lower().replace('_', '-') in _NEVER_FAIL for e in encs):
      if not (len(recv) == 1 and all(
          t[0] == 'bytes' and t[1] is not None for t in recv)):
        I.emit('UnicodeDecodeError', node, st, 'decode')
  if encs is None:
    I.emit('LookupError', node, st, 'unknown encoding')
  else:
    import codecs
    for e in encs:
      try:
        codecs.lookup(str(e))
      except LookupError:
        I.event('value', node, 'unknown encoding %s' % e)
        I.emit('LookupError', node, st, 'unknown encoding')
  return V.STR


def call_method(I, recv, name, args, kwargs, node, st):
  k = recv[0]
  if k == 'str':
    return str_method(I, recv, name, args, kwargs, node, st)
  if k == 'bytes':
    return bytes_method(I, recv, name, args, kwargs, node, st)
  if k == 'list':
    return list_method(I, recv, name, args, kwargs, node, st)
  if k == 'dict':
    return dict_method(I, recv, name, args, kwargs, node, st)
  if k == 'set':
    return set_method(I, recv, name, args, kwargs, node, st)
  if k in ('tuple', 'vtuple'):
    if name == 'index':
      I.emit('ValueError', node, st, 'tuple.index')
    return V.NAT
  if k == 'int':
    if name == 'to_bytes':
      n = arg(args, kwargs, 0, 'length')
      I.emit('OverflowError', node, st, 'to_bytes')
      b = V.bounds(n) if n else None
      return V.bytes_len(b[0] or 0, b[1]) if b else V.BYTES
    if name == 'bit_length':
      return V.NAT
    return V.ANY
  if k == 'file':
    return file_method(I, recv, name, args, kwargs, node, st)
  if k == 'map':
    return map_method(I, recv, name, args, kwargs, node, st)
  if k == 'fabric':
    return fabric_method(I, recv, name, args, kwargs, node, st)
  if k == 'exti':
    return exti_method(I, recv, name, args, kwargs, node, st)
  return V.ANY


def _need(I, v, kinds, node, st, what):
  """The argument must be of one of the kinds."""
  for t in v or ():
    if t[0] in ('any', 'exti', 'ext', 'iter', 'inst', 'unbound', 'meth'):
      continue
    if t[0] == 'none' and t[1] in QUIET_NONE:
      continue
    if t[0] not in kinds:
      I.event('type', node, '%s gets %s' % (what, V.show(frozenset([t]))))
      I.emit('TypeError', node, st, what)


def str_method(I, recv, name, args, kwargs, node, st):
  if name in ('split', 'rsplit', 'splitlines'):
    v = new_list(I, node, V.STR, 'split')
    for t in v:
      I.minlen[t[1]] = 1 if args and name != 'splitlines' else 0
    return v
  if name in ('partition', 'rpartition'):
    return V.tup(V.STR, V.STR, V.STR)
  if name == 'join':
    if args:
      e = I.iterate(args[0], node, st)
      I.order_check(args[0], node, 'join')
      _need(I, e, ('str',), node, st, 'str.join')
    return V.STR
  if name == 'encode':
    enc = arg(args, kwargs, 0, 'encoding')
    err = arg(args, kwargs, 1, 'errors')
    encs = V.consts(enc) if enc is not None else {'utf-8'}
    if err is None and recv[1] is None:
      if encs is None or not all(
          str(e).lower().startswith('utf') for e in encs):
        I.emit('UnicodeEncodeError', node, st, 'encode')
    return V.BYTES
  if name in ('startswith', 'endswith'):
    _need(I, args[0] if args else None, ('str', 'tuple'), node, st,
          'str.' + name)
    return V.BOOL
  if name.startswith('is'):
    return V.BOOL
  if name in ('find', 'rfind'):
    return V.int_range(-1, None)
  if name in ('index', 'rindex'):
    I.emit('ValueError', node, st, 'str.' + name)
    return V.NAT
  if name == 'count':
    return V.NAT
  if name == 'format':
    return V.STR
  if name in ('lower', 'upper', 'title', 'capitalize', 'casefold',
              'swapcase'):
    if recv[1] is not None:
      return V.str_set(getattr(s, name)() for s in recv[1])
    return V.atom('str', None, recv[2])
  if name in ('replace', 'strip', 'lstrip', 'rstrip', 'translate', 'zfill',
              'ljust', 'rjust', 'center', 'expandtabs', 'removeprefix',
              'removesuffix'):
    if name in ('strip', 'lstrip', 'rstrip') and args:
      _need(I, args[0], ('str', 'none'), node, st, 'str.' + name)
    if name == 'replace':
      for a in args[:2]:
        _need(I, a, ('str',), node, st, 'str.replace')
    return V.STR
  return V.ANY


def bytes_method(I, recv, name, args, kwargs, node, st):
  if name == 'decode':
    return decode_call(I, frozenset([recv]), args, kwargs, node, st)
  if name in ('startswith', 'endswith'):
    _need(I, args[0] if args else None, ('bytes', 'tuple'), node, st,
          'bytes.' + name)
    return V.BOOL
  if name in ('find', 'rfind'):
    return V.int_range(-1, None)
  if name in ('index', 'rindex'):
    I.emit('ValueError', node, st, 'bytes.' + name)
    return V.NAT
  if name in ('strip', 'lstrip', 'rstrip'):
    if args:
      _need(I, args[0], ('bytes', 'none'), node, st, 'bytes.' + name)
    return V.bytes_len(0, recv[3], recv[4])
  if name == 'hex':
    return V.STR
  if name == 'join':
    if args:
      e = I.iterate(args[0], node, st)
      _need(I, e, ('bytes',), node, st, 'bytes.join')
      fl = frozenset()
      for t in e:
        if t[0] == 'bytes':
          fl |= t[4]
      return V.bytes_len(0, None, fl)
    return V.BYTES
  if name in ('split', 'rsplit'):
    v = new_list(I, node, V.BYTES, 'split')
    for t in v:
      I.minlen[t[1]] = 1
    return v
  if name in ('partition', 'rpartition'):
    b = V.bytes_len(0, recv[3], recv[4])
    return V.tup(b, b, b)
  if name == 'count':
    return V.NAT
  if name in ('replace', 'translate', 'lower', 'upper', 'ljust', 'rjust',
              'zfill'):
    return V.BYTES
  return V.ANY


def list_method(I, recv, name, args, kwargs, node, st):
  if name == 'append':
    I.heap_add(recv, elem=args[0] if args else V.ANY, node=node)
    I.mark_nonempty(node, st)
    return V.none('ret')
  if name == 'insert':
    I.heap_add(recv, elem=args[1] if len(args) > 1 else V.ANY, node=node)
    I.mark_nonempty(node, st)
    return V.none('ret')
  if name == 'extend':
    e = I.iterate(args[0], node, st) if args else V.ANY
    if args:
      I.order_check(args[0], node, 'extend')
    I.heap_add(recv, elem=e, node=node)
    return V.none('ret')
  if name in ('pop',):
    I.heap_add(recv, node=node)
    I.shrink(recv)
    if not nonempty_recv(I, node, st):
      I.emit('IndexError', node, st, 'pop from an empty list')
    I.kill_nonempty(node, st)
    return V.retag_none(I.heap_of(recv).elem, 'attr')
  if name in ('remove',):
    I.heap_add(recv, node=node)
    I.kill_nonempty(node, st)
    I.shrink(recv)
    I.emit('ValueError', node, st, 'list.remove')
    return V.none('ret')
  if name in ('sort', 'reverse', 'clear'):
    I.heap_add(recv, node=node)
    if name == 'sort':
      I.heap[recv[1]].sorted = True
    if name == 'clear':
      I.kill_nonempty(node, st)
      I.shrink(recv)
    return V.none('ret')
  if name == 'index':
    I.emit('ValueError', node, st, 'list.index')
    return V.NAT
  if name == 'count':
    return V.NAT
  if name == 'copy':
    return new_list(I, node, I.heap_of(recv).elem, 'copy')
  return V.ANY


def nonempty_recv(I, node, st):
  if not isinstance(node, ast.Call) or not isinstance(
      node.func, ast.Attribute):
    return True
  base = ast.unparse(node.func.value)
  return any((o == 'true' and x == base) or
             (x == '0' and o == '<' and y == 'len(%s)' % base)
             for (x, o, y, _) in st.facts)


def dict_method(I, recv, name, args, kwargs, node, st):
  h = I.heap_of(recv)
  if name == 'get':
    if not args:
      return V.ANY
    d = args[1] if len(args) > 1 else kwargs.get('default', V.none('get'))
    cs = V.consts(args[0])
    if cs is not None:
      out, miss = h.lookup(cs)
      if miss or h.mutated:
        out = V.join(out, d)
      I.dict_get_event(recv, args[0], cs, node, miss)
      return out
    for t in args[0]:
      if t[0] in ('list', 'dict', 'set'):
        I.event('type', node, 'unhashable key')
        I.emit('TypeError', node, st, 'unhashable key')
    return V.join(V.retag_none(h.elem, 'attr'), d)
  if name == 'keys':
    return V.atom('iter', h.key)
  if name == 'values':
    return V.atom('iter', V.retag_none(h.elem, 'attr'))
  if name == 'items':
    return V.atom('iter', V.tup(
        h.key, V.retag_none(h.elem, 'attr')) if h.key and h.elem else V.BOTTOM)
  if name in ('pop', 'popitem', 'clear') and node is not None:
    I.kill_nonempty(node, st)
  if name == 'pop':
    I.heap_add(recv, node=node)
    if len(args) < 2:
      I.emit('KeyError', node, st, 'dict.pop')
      return V.retag_none(h.elem, 'attr')
    return V.join(V.retag_none(h.elem, 'attr'), args[1])
  if name == 'setdefault':
    v = args[1] if len(args) > 1 else V.none()
    I.dict_set(recv, args[0] if args else V.ANY, v, node=node)
    return V.join(V.retag_none(h.elem, 'attr'), v)
  if name == 'update':
    h.open = True
    e, kk = V.ANY, V.ANY
    for t in args[0] if args else ():
      if t[0] == 'dict':
        o = I.heap_of(t)
        e, kk = o.elem, o.key
        if not o.open:
          for c, v in o.items.items():
            h.items[c] = V.join(h.items.get(c, V.BOTTOM), v)
    I.heap_add(recv, elem=e, key=kk, node=node)
    return V.none('ret')
  if name == 'popitem':
    I.heap_add(recv, node=node)
    return V.tup(h.key or V.ANY, h.elem or V.ANY)
  if name in ('clear', 'move_to_end'):
    I.heap_add(recv, node=node)
    return V.none('ret')
  if name == 'copy':
    s, n = I.new_heap('dict', node, 'copy')
    n.open = True
    I.heap_add(('dict', s), elem=h.elem, key=h.key, mutate=False)
    return V.atom('dict', s)
  return V.ANY


def set_method(I, recv, name, args, kwargs, node, st):
  if name == 'add':
    I.heap_add(recv, elem=args[0] if args else V.ANY, node=node)
    return V.none('ret')
  if name == 'update':
    for a in args:
      I.heap_add(recv, elem=I.iterate(a, node, st), node=node)
    return V.none('ret')
  if name in ('remove', 'pop'):
    I.heap_add(recv, node=node)
    I.emit('KeyError', node, st, 'set.' + name)
    if name == 'pop':
      I.event('set-order', node, 'pop', site=recv[1])
      return I.heap_of(recv).elem
    return V.none('ret')
  if name in ('discard', 'clear'):
    I.heap_add(recv, node=node)
    return V.none('ret')
  if name in ('union', 'intersection', 'difference',
              'symmetric_difference', 'copy'):
    s, h = I.new_heap('set', node, name)
    I.heap_add(('set', s), elem=I.heap_of(recv).elem, mutate=False)
    for a in args:
      I.heap_add(('set', s), elem=I.iterate(a, node, st), mutate=False)
    return V.atom('set', s)
  return V.BOOL


INT64 = (1 << 63) - 1

# Files, and the positions in them, are assumed to be smaller than this.
MAX_FILE = 1 << 60


def file_method(I, recv, name, args, kwargs, node, st):
  I.event('file-call', node, name)
  if name == 'read':
    n = arg(args, kwargs, 0, 'size')
    I.effect(('file',), node)
    I.use_position(st, node)
    if I.frame.debug:
      st.pos = 2
    I.emit('OSError', node, st, 'read')
    if n is None:
      return V.bytes_len(0, None)
    b = linear_bounds(I, node.args[0] if getattr(node, 'args', None) else None,
                      n, st)
    for t in n:
      if t[0] in ('str', 'bytes', 'float', 'tuple', 'struct'):
        I.event('type', node, 'read size is ' + V.show(frozenset([t])))
        I.emit('TypeError', node, st, 'read size')
    hi = b[1] if b else None
    if b and (hi is None or hi > INT64):
      I.emit('OverflowError', node, st, 'read size')
    if b and (hi is None or hi > 1 << 62):
      I.emit('MemoryError', node, st, 'read size')
    fl = frozenset([('short', I.frame.func.module.rel, I.frame.func.q,
                     node.lineno)])
    if b and b == (0, 0):
      fl = frozenset()
    return V.bytes_len(0, hi if b and b[0] is not None and b[0] >= 0 else None,
                       fl)
  if name == 'seek':
    I.effect(('file',), node)
    o = arg(args, kwargs, 0, 'offset')
    w = arg(args, kwargs, 1, 'whence', V.int_const(0))
    wc = V.consts(w)
    if wc is None or 1 in wc:
      I.use_position(st, node)
    elif not I.frame.debug:
      st.pos = 0
    if I.frame.debug:
      st.pos = 2
    I.emit('OSError', node, st, 'seek')
    if o is not None:
      b = linear_bounds(
          I, node.args[0] if getattr(node, 'args', None) else None, o, st)
      for t in o:
        if t[0] in ('str', 'bytes', 'float', 'tuple', 'struct'):
          I.event('type', node, 'seek offset is ' + V.show(frozenset([t])))
          I.emit('TypeError', node, st, 'seek offset')
      if b and (b[1] is None or b[1] > INT64):
        I.emit('OverflowError', node, st, 'seek offset')
      if b and wc == {0} and (b[0] is None or b[0] < 0):
        I.emit('ValueError', node, st, 'negative seek offset')
    return V.NAT
  if name in ('tell', 'get_offset', 'get_size'):
    if name != 'get_size':
      I.use_position(st, node)
    return V.int_range(0, MAX_FILE)
  if name == 'close':
    I.effect(('close',), node)
    return V.none('ret')
  if name in ('write', 'truncate', 'writelines'):
    I.event('write', node, 'file.' + name)
    return V.NAT
  return V.ANY


def map_method(I, recv, name, args, kwargs, node, st):
  fab = I.p.fabrics[recv[1]]
  lay = fab.defs[recv[2]]
  if name == 'MapByteStream':
    data = arg(args, kwargs, 0, 'byte_stream')
    ctx = kwargs.get('context')
    _need(I, data, ('bytes',), node, st, 'MapByteStream')
    for t in data or ():
      if t[0] == 'bytes':
        for f in sorted(f for f in t[4] if f[0] == 'part'):
          I.event('short-part', node, '%s:%s' % (f[1], f[2]),
                  of='%s|%s|%d' % f[1:])
    keys = None
    if ctx is not None:
      keys = set()
      for t in ctx:
        if t[0] == 'ctx':
          if t[1] is None or keys is None:
            keys = None
          else:
            keys |= t[1]
        elif t[0] not in ('none',):
          keys = None
          break
    else:
      keys = set()
    I.event('map', node, '%s:%s:%s' % (
        recv[1], recv[2], 'any' if keys is None else ','.join(sorted(keys))),
            layout=(recv[1], recv[2]), context=keys,
            structs=tuple(sorted(
                '%s=%s:%s' % (k, x[0], x[1]) for t in ctx or ()
                if t[0] == 'ctx' for k, v in t[2] if isinstance(v, frozenset)
                for x in v)),
            optional=ctx is not None and any(t[0] == 'none' for t in ctx))
    bad = fab.bad.get(recv[2])
    I.emit('dtfabric.errors.ByteStreamTooSmallError', node, st,
           'MapByteStream')
    # dtFabric checks the values that the layout has for a field.
    I.emit('dtfabric.errors.MappingError', node, st, 'MapByteStream',
           mark=2 if bad == frozenset() else 1)
    known = {}
    if ctx is not None and len(ctx) == 1:
      (t,) = ctx
      if t[0] == 'ctx':
        known = dict(t[2])
    if bad is not None:
      I.event('bad', node, '%s:%s' % recv[1:])
      if not bad:
        return V.BOTTOM
      if st is not None:
        st.mark = 2
    out = fab.type_of(lay)
    n = known.get(lay.spec.get('number_of_elements'))
    if isinstance(n, int) and lay.spec.get('type') == 'sequence' and n >= 0:
      out = frozenset(('vtuple', t[1], n, n) if t[0] == 'vtuple' else t
                      for t in out)
    return out
  if name in ('GetSizeHint', 'GetByteSize'):
    n = fab.byte_size(lay)
    if n is not None:
      return V.int_const(n)
    return V.NAT
  if name == 'CreateStructureValues':
    return fab.type_of(lay)
  if name == 'FoldByteStream':
    I.emit('dtfabric.errors.FoldingError', node, st, 'FoldByteStream')
    return V.BYTES
  if name == 'GetName':
    names = fab.enumeration(recv[2])
    a = arg(args, kwargs, 0, 'number')
    c = V.consts(a) if a else None
    if names and c is not None:
      return V.join_all(V.const(names[n]) if n in names else V.none('get')
                        for n in c)
    if names and len(names) <= 64:
      return V.join_all([V.none('get')] + [V.const(n)
                                           for n in names.values()])
    return V.join(V.NSTR, V.none('get'))
  return V.ANY


def fabric_method(I, recv, name, args, kwargs, node, st):
  if name == 'CreateDataTypeMap':
    n = arg(args, kwargs, 0, 'definition_name')
    cs = V.consts(n) if n else None
    if cs is None:
      I.event('layout-unknown', node, recv[1])
      return V.ANY
    out = V.BOTTOM
    fab = I.p.fabrics[recv[1]]
    for c in cs:
      if c in fab.defs:
        out = V.join(out, V.atom('map', recv[1], fab.defs[c].name))
        I.event('layout-request', node, '%s:%s' % (recv[1], c),
                fabric=recv[1], layout=c)
      else:
        I.event('no-layout', node, '%s does not define %s' % (recv[1], c),
                fabric=recv[1], layout=c, context=I.frame.key)
    return out
  return V.ANY


def exti_method(I, recv, name, args, kwargs, node, st):
  typ = recv[1]
  if typ == 'ascii bytes':
    return V.STR if name == 'decode' else V.ANY
  if typ == 'zlib.decompressobj':
    if name in ('decompress', 'flush'):
      I.emit('zlib.error', node, st, 'decompress')
      return V.BYTES
    return V.ANY
  if typ.startswith('dfdatetime.'):
    if name.startswith('CopyTo'):
      if 'v' in typ.partition('#')[2]:
        I.emit('ValueError', node, st, 'date time')
      if 'o' in typ.partition('#')[2]:
        I.emit('OverflowError', node, st, 'date time')
      if 'l' in typ.partition('#')[2]:
        I.event('long-date', node, 'the date of an unbounded number')
      return V.join(V.NSTR, V.none('get'))
    return V.ANY
  if typ == 'datetime.datetime':
    if name in ('isoformat', 'strftime', 'ctime', '__str__'):
      return V.NSTR
    if name in ('timestamp', 'astimezone'):
      I.event('ambient', node, 'datetime.' + name)
      return V.FLOAT
    return V.ANY
  if typ == 'datetime.timedelta':
    return V.FLOAT
  if typ == 'hash':
    if name == 'hexdigest':
      return V.NSTR
    return V.ANY
  if typ == 'logger':
    return V.none('ret')
  if typ == 'exti.regex':
    return V.ANY
  return V.ANY


def call_unknown(I, t, args, kwargs, node, st):
  I.event('unknown-call', node, ast.unparse(node.func)[:60] if isinstance(
      node, ast.Call) else '?')
  if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and (
      node.func.attr.startswith('GetFileObject')):
    return V.join(V.atom('file', 'open'), V.none('get'))
  return V.ANY


# -- library functions --------------------------------------------------------


def call_ext(I, name, args, kwargs, node, st):
  I.event('ext-call', node, name, args=args, kwargs=kwargs)
  if name.startswith('builtins.'):
    return builtin_call(I, name[9:], args, kwargs, node, st)
  f = _EXT.get(name)
  if f is not None:
    return f(I, args, kwargs, node, st)
  if name.startswith('dtfabric.runtime.data_maps.DataTypeMapContext'):
    v = arg(args, kwargs, 0, 'values')
    keys = set()
    structs = set()
    for t in v or ():
      if t[0] == 'dict':
        h = I.heap_of(t)
        ks = V.consts(h.key) if h.key else set()
        keys = None if ks is None or keys is None else keys | ks
        for kk, vv in sorted(h.items.items(), key=str):
          if isinstance(kk, str) and vv and all(x[0] == 'struct' for x in vv):
            structs.add((kk, frozenset(x[1:3] for x in vv)))
      elif t[0] != 'none':
        keys = None
    known = sorted(structs, key=str)
    n = node.args[0] if node.args else next(
        (k.value for k in node.keywords if k.arg == 'values'), None)
    if isinstance(n, ast.Dict):
      for k, x in zip(n.keys, n.values):
        if isinstance(k, ast.Constant):
          c = V.consts(I.ev_quiet(x, st))
          if c is not None and len(c) == 1:
            known.append((k.value, next(iter(c))))
    return V.atom('ctx', None if keys is None else frozenset(keys),
                  tuple(known))
  if name.startswith('dfdatetime.'):
    if 'FATDateTime' in name or 'RFC2579' in name:
      I.emit('ValueError', node, st, 'date time')
    return V.atom('exti', name + date_flags(name, args, kwargs))
  for p, e, r in _PREFIX:
    if name.startswith(p):
      for x in e:
        I.emit(x, node, st, name)
      return r
  if name.startswith('dtfabric.errors.'):
    return V.atom('exti', 'exc:' + name)
  return V.ANY


# The number of days of a date is counted down by the century: the largest
# timestamp that is converted without a delay.
_MAX_SECONDS = 1 << 48
_UNITS = {'PosixTime': 1, 'PosixTimeInMilliseconds': 1000,
          'PosixTimeInMicroseconds': 1000000,
          'PosixTimeInNanoseconds': 1000000000}
_YEAR_ZERO = -62135596800


def date_flags(name, args, kwargs):
  """What the conversion of a timestamp can do."""
  unit = _UNITS.get(name.split('.')[-1])
  v = arg(args, kwargs, 0, 'timestamp')
  out = ''
  if name.endswith('CocoaTime'):
    out = 'vo'
    for t in v or ():
      if t[0] == 'float' and set(t[1:]) != {'lo', 'hi'}:
        out = 'vol'
      elif t[0] == 'int' and (t[2] is None or t[2] > _MAX_SECONDS):
        out = 'vol'
  elif unit is not None:
    for t in v or ():
      if t[0] != 'int':
        continue
      # A timestamp in microseconds of 64 bits is always below the maximum.
      if unit != 1000000 and (
          t[2] is None or t[2] // unit > _MAX_SECONDS):
        out += 'l'
      if t[1] is None or t[1] // unit < _YEAR_ZERO:
        out += 'v'
  return '#' + out if out else ''


_PREFIX = (
    ('os.path.', (), V.STR),
    ('logging.', (), V.atom('exti', 'logger')),
)


def _raises(ret, *exc):
  def f(I, args, kwargs, node, st):
    for x in exc:
      I.emit(x, node, st, ast.unparse(node.func))
    return ret
  return f


def _decompress(err, *more):
  def f(I, args, kwargs, node, st):
    I.emit(err, node, st, 'decompress')
    for x in more:
      I.emit(x, node, st, 'decompress')
    for t in (args[0] if args else ()):
      if t[0] == 'bytes' and t[4]:
        pass
    return V.BYTES
  return f


def _uuid(I, args, kwargs, node, st):
  b = arg(args[1:], kwargs, 0, 'bytes') or kwargs.get('bytes_le') or (
      kwargs.get('bytes'))
  ok = False
  if b is not None:
    bb = [t for t in b if t[0] == 'bytes']
    _need(I, b, ('bytes',), node, st, 'uuid.UUID')
    ok = bool(bb) and all(t[2] == 16 and t[3] == 16 for t in bb)
    if not bb and any(t[0] == 'any' for t in b):
      ok = True
  elif args:
    cs = V.consts(args[0])
    ok = cs is not None
  elif 'int' in kwargs:
    b = V.bounds(kwargs['int'])
    ok = bool(b and b[0] is not None and b[0] >= 0 and b[1] is not None and
              b[1] < 1 << 128)
  if not ok:
    I.emit('ValueError', node, st, 'uuid.UUID')
  return V.atom('exti', 'uuid.UUID')


def _from_bytes(I, args, kwargs, node, st):
  b = arg(args, kwargs, 0, 'bytes')
  signed = kwargs.get('signed')
  s = signed is not None and V.truthiness(signed)[0]
  hi = None
  for t in b or ():
    if t[0] == 'bytes':
      hi = t[3]
      if any(f[0] == 'short' for f in t[4]):
        I.event('short-use', node, 'int.from_bytes', flags=t[4])
  _need(I, b, ('bytes', 'list', 'vtuple', 'tuple'), node, st, 'int.from_bytes')
  if b and all(t[0] == 'bytes' for t in b) and hi is not None and hi <= 64:
    if s:
      return V.int_range(-(1 << max(8 * hi - 1, 0)), (1 << max(
          8 * hi - 1, 0)) - 1)
    return V.int_range(0, (1 << (8 * hi)) - 1)
  return V.INT if s else V.NAT


def _unpack(I, args, kwargs, node, st):
  import struct
  fmt = V.consts(args[0]) if args else None
  data = args[1] if len(args) > 1 else None
  size = None
  res = V.ANY
  if fmt and len(fmt) == 1:
    try:
      f = next(iter(fmt))
      size = struct.calcsize(f)
      vals = []
      for c in re.findall(r'(\d*)([a-zA-Z?])', f):
        n = int(c[0] or 1)
        if c[1] == 's':
          vals.append(V.bytes_len(n, n))
        elif c[1] in 'fd':
          vals.extend([V.FLOAT] * n)
        elif c[1] == 'x':
          pass
        else:
          w = struct.calcsize('<' + c[1])
          vals.extend([
              V.int_range(0, (1 << 8 * w) - 1) if c[1].isupper() else
              V.int_range(-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1)] * n)
      res = V.tup(*vals)
    except struct.error:
      I.event('value', node, 'struct format is invalid')
  for t in data or ():
    if t[0] == 'bytes':
      if size is None or t[2] != size or t[3] != size:
        I.emit('struct.error', node, st, 'struct.unpack')
    elif t[0] == 'any':
      I.emit('struct.error', node, st, 'struct.unpack')
    elif t[0] == 'none' and t[1] in QUIET_NONE:
      pass
    else:
      _need(I, frozenset([t]), ('bytes',), node, st, 'struct.unpack')
  return res


def _datetime(I, args, kwargs, node, st):
  for a in list(args) + list(kwargs.values()):
    cs = V.consts(a)
    if cs is None:
      I.emit('ValueError', node, st, 'datetime')
      I.emit('OverflowError', node, st, 'datetime')
      break
  return V.atom('exti', 'datetime.datetime')


_TD = {'days': 86400, 'seconds': 1, 'microseconds': 1e-6,
       'milliseconds': 1e-3, 'minutes': 60, 'hours': 3600, 'weeks': 604800}


def _timedelta(I, args, kwargs, node, st):
  names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes',
           'hours', 'weeks']
  total = 0
  given = list(zip(names, args)) + list(kwargs.items())
  for n, a in given:
    for t in a:
      if t[0] == 'float':
        I.emit('ValueError', node, st, 'timedelta of nan')
        total = 1 << 80
    b = V.bounds(frozenset(t for t in a if t[0] in ('int', 'bool')))
    if b is None:
      continue
    if b[0] is None or b[1] is None:
      total = 1 << 80
    else:
      total += max(abs(b[0]), abs(b[1])) * _TD.get(n, 1)
  if total > 86400 * 999999999:
    I.emit('OverflowError', node, st, 'timedelta')
  return V.atom('exti', 'datetime.timedelta')


def _glob(I, args, kwargs, node, st):
  s, h = I.new_heap('list', node, 'listdir')
  I.heap_add(('list', s), elem=V.NSTR, mutate=False)
  return V.atom('list', s)


def _listdir_any(I, args, kwargs, node, st):
  s, h = I.new_heap('list', node, 'listdir')
  I.heap_add(('list', s), elem=V.ANY, mutate=False)
  I.emit('OSError', node, st, 'listdir')
  return V.atom('list', s)


def _listdir(I, args, kwargs, node, st):
  s, h = I.new_heap('list', node, 'listdir')
  I.heap_add(('list', s), elem=V.NSTR, mutate=False)
  I.emit('OSError', node, st, 'listdir')
  return V.atom('list', s)


def _ordered_dict(I, args, kwargs, node, st):
  s, h = I.new_heap('dict', node, 'ordered')
  if args:
    h.open = True
    I.heap_add(('dict', s), elem=V.ANY, key=V.ANY, mutate=False)
  return V.atom('dict', s)


def _default_dict(I, args, kwargs, node, st):
  s, h = I.new_heap('dict', node, 'defaultdict')
  h.open = True
  for t in args[0] if args else ():
    if t == ('ext', 'builtins.list'):
      I.heap_add(('dict', s), elem=new_list(I, node, None, 'dd'),
                 mutate=False)
  return V.atom('dict', s)


def _heappush(I, args, kwargs, node, st):
  for t in args[0] if args else ():
    if t[0] == 'list':
      I.heap_add(t, elem=args[1] if len(args) > 1 else V.ANY, node=node)
  return V.none('ret')


def _heappop(I, args, kwargs, node, st):
  out = V.BOTTOM
  for t in args[0] if args else ():
    if t[0] == 'list':
      I.heap_add(t, node=node)
      I.emit('IndexError', node, st, 'heappop')
      out = V.join(out, V.retag_none(I.heap_of(t).elem, 'attr'))
    else:
      out = V.join(out, V.ANY)
  return out


def _exit(I, args, kwargs, node, st):
  I.event('exit', node, 'sys.exit', args=args)
  I.emit('SystemExit', node, st, 'sys.exit')
  return V.BOTTOM


def _pyopen(I, args, kwargs, node, st):
  I.emit('OSError', node, st, 'open')
  return V.ANY


_EXT = {
    'os.path.basename': _raises(V.STR), 'os.path.dirname': _raises(V.STR),
    'os.path.exists': _raises(V.BOOL), 'os.path.isdir': _raises(V.BOOL),
    'os.path.isfile': _raises(V.BOOL),
    'os.path.getsize': _raises(V.int_range(0, MAX_FILE), 'OSError'),
    'os.path.split': _raises(V.tup(V.STR, V.STR)),
    'os.path.splitext': _raises(V.tup(V.STR, V.STR)),
    'os.stat': _raises(V.ANY, 'OSError'),
    'os.listdir': _listdir,
    'os.scandir': _listdir_any,
    'os.walk': _listdir_any,
    'glob.iglob': _glob,
    'glob.glob': _glob,
    'bz2.BZ2File': _raises(V.atom('file', 'open')),
    'gzip.GzipFile': _raises(V.atom('file', 'open')),
    'lzma.LZMAFile': _raises(V.atom('file', 'open')),
    'backports.lzma.LZMAFile': _raises(V.atom('file', 'open')),
    'io.BytesIO': _raises(V.atom('file', 'open')),
    'zlib.decompress': _decompress('zlib.error'),
    'zlib.decompressobj': _raises(V.atom('exti', 'zlib.decompressobj')),
    'zlib.crc32': _raises(V.int_range(0, 0xffffffff)),
    'bz2.decompress': _decompress('OSError', 'ValueError'),
    'gzip.decompress': _decompress('OSError', 'EOFError', 'zlib.error'),
    'lz4.block.decompress': _decompress(
        'lz4.block.LZ4BlockError', 'ValueError', 'OverflowError',
        'MemoryError'),
    'snappy.decompress': _decompress('snappy.UncompressError'),
    'zstd.decompress': _decompress('zstd.Error'),
    'zstd.uncompress': _decompress('zstd.Error'),
    'uuid.UUID': _uuid,
    'builtins.int.from_bytes': _from_bytes,
    'struct.unpack': _unpack,
    'datetime.datetime': _datetime,
    'datetime.timedelta': _timedelta,
    'collections.OrderedDict': _ordered_dict,
    'collections.defaultdict': _default_dict,
    'collections.deque': lambda I, a, k, n, s: new_list(I, n, None, 'deque'),
    'heapq.heappush': _heappush, 'heapq.heappop': _heappop,
    'sys.exit': _exit,
    'hashlib.md5': _raises(V.atom('exti', 'hash')),
    'hashlib.sha1': _raises(V.atom('exti', 'hash')),
    'hashlib.sha256': _raises(V.atom('exti', 'hash')),
    'base64.b64encode': _raises(V.atom('exti', 'ascii bytes')),
    'base64.urlsafe_b64encode': _raises(V.atom('exti', 'ascii bytes')),
    'json.dumps': _raises(V.NSTR),
    'builtins.str.maketrans': _raises(V.ANY),
    'builtins.bytes.fromhex': _raises(V.BYTES, 'ValueError'),
    're.compile': _raises(V.atom('exti', 'regex')),
    're.sub': _raises(V.STR),
}


def builtin_call(I, name, args, kwargs, node, st):
  f = globals().get('bi_' + name)
  if f is not None:
    return f(I, args, kwargs, node, st)
  c = getattr(builtins, name, None)
  if isinstance(c, type) and issubclass(c, BaseException):
    return V.atom('exti', 'exc:' + name)
  if name.startswith('int.from_bytes'):
    return _from_bytes(I, args, kwargs, node, st)
  f = _EXT.get('builtins.' + name)
  if f is not None:
    return f(I, args, kwargs, node, st)
  return V.ANY


def bi_len(I, args, kwargs, node, st):
  out = V.BOTTOM
  for t in args[0] if args else ():
    k = t[0]
    if k == 'bytes':
      out = V.join(out, V.int_range(t[2], t[3]))
    elif k == 'str':
      if t[1] is not None:
        out = V.join(out, V.int_set(len(s) for s in t[1]))
      else:
        out = V.join(out, V.int_range(1 if t[2] else 0, None))
    elif k == 'tuple':
      out = V.join(out, V.int_const(len(t[1])))
    elif k == 'vtuple':
      out = V.join(out, V.int_range(t[2], t[3]))
    elif k == 'list':
      h = I.heap_of(t)
      if h.seq is not None and not h.mutated:
        out = V.join(out, V.int_const(len(h.seq)))
      else:
        out = V.join(out, V.NAT)
    elif k in ('dict', 'set'):
      out = V.join(out, V.NAT)
    elif k == 'none':
      if t[1] not in QUIET_NONE:
        I.event('none', node, 'len of None', tag=t[1])
        I.emit('TypeError', node, st, 'len of None')
    elif k in ('int', 'float', 'bool', 'struct', 'map', 'gen', 'func', 'file'):
      I.event('type', node, 'len of ' + V.show(frozenset([t])))
      I.emit('TypeError', node, st, 'len')
    elif k == 'iter':
      out = V.join(out, V.NAT)
    elif k == 'inst':
      if I.p.find_method(t[1], '__len__') is None:
        I.event('type', node, 'len of ' + V.show(frozenset([t])))
        I.emit('TypeError', node, st, 'len')
      out = V.join(out, V.NAT)
    elif k != 'unbound':
      out = V.join(out, V.NAT)
  return out


def bi_int(I, args, kwargs, node, st):
  if not args:
    return V.int_const(0)
  out = V.BOTTOM
  for t in args[0]:
    k = t[0]
    if k in ('int', 'bool'):
      out = V.join(out, V.int_range(*V.bounds(frozenset([t]))))
    elif k == 'float':
      out = V.join(out, V.INT)
    elif k in ('str', 'bytes'):
      ok = False
      if k == 'str' and t[1] is not None:
        try:
          b = args[1] if len(args) > 1 else kwargs.get('base')
          bc = V.consts(b) if b else {10}
          out = V.join(out, V.int_set(
              int(s, next(iter(bc))) for s in t[1]))
          ok = True
        except (ValueError, TypeError):
          pass
      if not ok:
        I.emit('ValueError', node, st, 'int()')
        out = V.join(out, V.INT)
    elif k == 'none':
      if t[1] not in QUIET_NONE:
        I.event('none', node, 'int of None')
        I.emit('TypeError', node, st, 'int of None')
    elif k in ('tuple', 'vtuple', 'list', 'dict', 'struct'):
      I.event('type', node, 'int of ' + V.show(frozenset([t])))
      I.emit('TypeError', node, st, 'int')
    else:
      out = V.join(out, V.INT)
  return out


def bi_float(I, args, kwargs, node, st):
  for t in args[0] if args else ():
    if t[0] in ('str', 'bytes') and t[1] is None:
      I.emit('ValueError', node, st, 'float()')
  return V.FLOAT


def bi_str(I, args, kwargs, node, st):
  if args and len(args) == 1:
    cs = V.consts(args[0])
    if cs is not None and len(cs) <= 8 and all(
        isinstance(c, (int, str)) for c in cs):
      return V.str_set(str(c) for c in cs)
  if len(args) > 1 or 'encoding' in kwargs:
    return decode_call(I, args[0], args[1:], kwargs, node, st)
  if args:
    order_text(I, args[0], node)
  return V.STR


def bi_repr(I, args, kwargs, node, st):
  if args:
    order_text(I, args[0], node)
  return V.NSTR


bi_ascii = bi_hex = bi_bin = bi_oct = bi_repr


def bi_format(I, args, kwargs, node, st):
  if len(args) > 1:
    cs = V.consts(args[1])
    if cs and len(cs) == 1:
      check_format(I, args[0], -1, next(iter(cs)), node, st)
  return V.STR


def bi_bool(I, args, kwargs, node, st):
  if not args:
    return V.FALSE
  mt, mf = V.truthiness(args[0])
  fl = 'dbg' if any(t[0] == 'bool' and t[2] for t in args[0]) else ''
  return V.atom('bool', None if mt and mf else mt, fl)


def bi_range(I, args, kwargs, node, st):
  b = [V.bounds(a) for a in args]
  for a in args:
    for t in a:
      if t[0] in ('str', 'bytes', 'float', 'struct', 'tuple', 'list') or (
          t[0] == 'none' and t[1] not in QUIET_NONE):
        I.event('type', node, 'range of ' + V.show(frozenset([t])))
        I.emit('TypeError', node, st, 'range')
  if len(args) == 3 and b[2] and V.truthiness(args[2])[1]:
    I.emit('ValueError', node, st, 'range step of 0')
  if any(x is None for x in b):
    return V.vtuple(V.INT)
  if len(b) == 1:
    hi = None if b[0][1] is None else max(b[0][1] - 1, 0)
    n = b[0][0] if b[0][0] is not None and b[0][0] > 0 else 0
    if b[0][1] is not None and b[0][1] <= 0:
      return V.vtuple(V.BOTTOM, 0, 0)
    return V.vtuple(V.int_range(0, hi), n, b[0][1])
  if len(b) == 2 or (b[2][0] is not None and b[2][0] > 0):
    lo = b[0][0]
    hi = None if b[1][1] is None else b[1][1] - 1
    if lo is not None and hi is not None and lo > hi:
      return V.vtuple(V.BOTTOM, 0, 0)
    n = 0
    if b[0][1] is not None and b[1][0] is not None and b[1][0] > b[0][1]:
      n = 1
    return V.vtuple(V.int_range(lo, hi), n, None)
  lo, hi = b[1][0], b[0][1]
  return V.vtuple(V.int_range(
      None if lo is None else lo + 1, hi) if hi is None or lo is None or
                  lo + 1 <= hi else V.BOTTOM)


def bi_enumerate(I, args, kwargs, node, st):
  e = I.iterate(args[0], node, st)
  I.order_check(args[0], node, 'enumerate')
  if not e:
    return V.atom('iter', V.BOTTOM)
  start = arg(args, kwargs, 1, 'start')
  n = V.NAT
  if start is not None:
    b = V.bounds(start)
    n = V.int_range(b[0] if b else None, None)
  seq = I.known_items(args[0])
  first = 0 if start is None else (V.bounds(start) or (None, None))
  if start is not None:
    first = first[0] if first[0] == first[1] else None
  if seq is not None and first is not None and len(seq) <= 200:
    number = V.int_range(first, first + max(len(seq) - 1, 0))
    return V.tup(*[V.tup(number, x) for x in seq])
  if I.surely_nonempty(args[0]):
    return V.vtuple(V.tup(n, e), 1, None)
  return V.vtuple(V.tup(n, e), 0, None)


def bi_zip(I, args, kwargs, node, st):
  es = [I.iterate(a, node, st) for a in args]
  for a in args:
    I.order_check(a, node, 'zip')
  if any(not e for e in es):
    return V.atom('iter', V.BOTTOM)
  seqs = [I.known_items(a) for a in args]
  if seqs and all(x is not None and len(x) <= 200 for x in seqs):
    return V.tup(*[V.tup(*x) for x in zip(*seqs)])
  return V.atom('iter', V.tup(*es))


def bi_sorted(I, args, kwargs, node, st):
  e = I.iterate(args[0], node, st) if args else V.ANY
  return new_list(I, node, e, 'sorted')


def bi_reversed(I, args, kwargs, node, st):
  I.order_check(args[0], node, 'reversed')
  seq = I.known_items(args[0])
  if seq is not None and len(seq) <= 200:
    return V.tup(*reversed(seq))
  return V.atom('iter', I.iterate(args[0], node, st))


def bi_list(I, args, kwargs, node, st):
  if args:
    I.order_check(args[0], node, 'list')
  e = I.iterate(args[0], node, st) if args else None
  v = new_list(I, node, e, 'list')
  return v


def bi_tuple(I, args, kwargs, node, st):
  if not args:
    return V.tup()
  I.order_check(args[0], node, 'tuple')
  if len(args[0]) == 1 and next(iter(args[0]))[0] == 'tuple':
    return args[0]
  return V.vtuple(I.iterate(args[0], node, st))


def _mkset(I, args, node, st):
  s, h = I.new_heap('set', node, 'set')
  if args:
    its = I.known_items(args[0])
    if its is not None:
      h.seq = its
    I.heap_add(('set', s), elem=I.iterate(args[0], node, st), mutate=False)
  return V.atom('set', s)


def bi_set(I, args, kwargs, node, st):
  return _mkset(I, args, node, st)


bi_frozenset = bi_set


def bi_dict(I, args, kwargs, node, st):
  s, h = I.new_heap('dict', node, 'dict')
  t = ('dict', s)
  for a in args:
    h.open = True
    for x in a:
      if x[0] == 'dict':
        o = I.heap_of(x)
        I.heap_add(t, elem=o.elem, key=o.key, mutate=False)
      else:
        I.heap_add(t, elem=V.ANY, key=V.ANY, mutate=False)
  for k, v in kwargs.items():
    if k is not None:
      I.dict_set(t, V.str_const(k), v, mutate=False)
  return V.atom('dict', s)


def bi_bytes(I, args, kwargs, node, st):
  if not args:
    return V.bytes_const(b'')
  for t in args[0]:
    if t[0] in ('list', 'tuple', 'vtuple', 'iter'):
      e = I.iterate(args[0], node, st)
      b = V.bounds(e) if e else (0, 0)
      if b and (b[0] is None or b[0] < 0 or b[1] is None or b[1] > 255):
        I.emit('ValueError', node, st, 'bytes()')
      return V.BYTES
    if t[0] == 'bytes':
      return args[0]
  return V.BYTES


def bi_bytearray(I, args, kwargs, node, st):
  return V.ANY


def bi_chr(I, args, kwargs, node, st):
  b = V.bounds(args[0]) if args else None
  if b and (b[0] is None or b[0] < 0 or b[1] is None or b[1] > 0x10ffff):
    I.emit('ValueError', node, st, 'chr()')
    I.emit('OverflowError', node, st, 'chr()')
  return V.NSTR


def bi_ord(I, args, kwargs, node, st):
  for t in args[0] if args else ():
    if t[0] == 'str' and t[1] is not None:
      return V.int_range(0, 0x10ffff)
  return V.ANY


def bi_abs(I, args, kwargs, node, st):
  b = V.bounds(args[0]) if args else None
  if b:
    return V.NAT
  return V.ANY


def _minmax(I, args, kwargs, node, st, low):
  vals = args
  if len(args) == 1:
    e = I.iterate(args[0], node, st)
    if 'default' in kwargs:
      return V.join(e, kwargs['default'])
    I.emit('ValueError', node, st, 'min/max of nothing')
    return e
  bs = [V.bounds(a) for a in vals]
  if all(bs):
    los = [b[0] for b in bs]
    his = [b[1] for b in bs]
    if low:
      hs = [h for h in his if h is not None]
      return V.int_range(None if None in los else min(los),
                         min(hs) if hs else None)
    ls = [l for l in los if l is not None]
    return V.int_range(max(ls) if ls else None,
                       None if None in his else max(his))
  return V.join_all(vals)


def bi_min(I, args, kwargs, node, st):
  return _minmax(I, args, kwargs, node, st, True)


def bi_max(I, args, kwargs, node, st):
  return _minmax(I, args, kwargs, node, st, False)


def bi_sum(I, args, kwargs, node, st):
  e = I.iterate(args[0], node, st) if args else V.ANY
  b = V.bounds(e) if e else (0, 0)
  if b and b[0] is not None and b[0] >= 0:
    return V.NAT
  return V.ANY


def bi_divmod(I, args, kwargs, node, st):
  a, b = args[0], args[1]
  q = binop(I, ast.FloorDiv(), a, b, node, st, None, None)
  r = binop(I, ast.Mod(), a, b, node, st, None, None)
  if not q or not r:
    return V.BOTTOM
  return V.tup(q, r)


def bi_isinstance(I, args, kwargs, node, st):
  return V.BOOL


bi_issubclass = bi_hasattr = bi_callable = bi_any = bi_all = bi_isinstance


def bi_any(I, args, kwargs, node, st):
  if args:
    I.iterate(args[0], node, st)
  return V.BOOL


bi_all = bi_any


def bi_getattr(I, args, kwargs, node, st):
  if len(args) < 2:
    return V.ANY
  cs = V.consts(args[1])
  d = args[2] if len(args) > 2 else None
  if d is not None:
    d = V.retag_none(d, 'get')
  if cs is None:
    for t in args[0]:
      if t[0] == 'struct':
        I.event('getattr-unknown', node, t[2])
    return V.ANY
  out = V.BOTTOM
  computed = isinstance(node, ast.Call) and len(node.args) > 1 and (
      not isinstance(node.args[1], ast.Constant))
  for c in cs:
    if c is None:
      continue
    v = I.get_attr(args[0], c, node, st, d)
    out = V.join(out, v)
    if computed and I.final:
      record_getattr(I, args[0], c, node, st)
  return out


def record_getattr(I, recv, name, node, st):
  """Which attributes of what are read by a computed name, from which list."""
  group = None
  for _, v in I.frame.key[2]:
    for t in v:
      if t[0] == 'list':
        h = I.heap[t[1]]
        if h.seq and any(
            x[0] == 'tuple' and x[1] and name in (V.consts(x[1][0]) or ())
            for e in h.seq for x in e):
          group = t[1]
  for t in recv:
    if t[0] in ('struct', 'inst'):
      I.quiet += 1
      v = I.get_attr(frozenset([t]), name, node, st, V.BOTTOM)
      I.quiet -= 1
      what = t[1:3] if t[0] == 'struct' else t[1]
      I.computed_attrs.setdefault((t[0], what, name), {})[
          (group, bool(v), I.frame.func.module.rel,
           I.frame.func.q.split(':')[-1], node.lineno)] = True


def bi_setattr(I, args, kwargs, node, st):
  if len(args) < 3:
    return V.ANY
  cs = V.consts(args[1])
  for t in args[0]:
    if t[0] == 'struct':
      if cs is None:
        I.dynamic.add(('struct', t[1], t[2]))
      for c in cs or ():
        I.set_struct_attr(t, c, args[2])
    elif t[0] == 'inst':
      if cs is None:
        I.dynamic.add(('inst', t[1]))
      for c in cs or ():
        I.frame.mods.add(c)
        I.attr_set(t[1], c, args[2])
    elif t[0] in ('cls', 'mod'):
      I.event('mutate-shared', node, 'setattr on a class or module')
  for c in cs or ('setattr',):
    I.effect(('attr', c), node)
  if cs is not None and len(cs) == 1 and isinstance(node, ast.Call):
    I.strong_struct_attr(node.args[0], args[0], next(iter(cs)), args[2], st)
  return V.none('ret')


def bi_print(I, args, kwargs, node, st):
  for a in args:
    order_text(I, a, node)
  I.event('print', node, 'print')
  return V.none('ret')


def bi_open(I, args, kwargs, node, st):
  mode = arg(args, kwargs, 1, 'mode')
  cs = V.consts(mode) if mode is not None else {'r'}
  enc = arg(args, kwargs, 3, 'encoding')
  I.event('open', node, 'open', modes=cs, encoding=bool(
      enc and not any(t[0] == 'none' for t in enc)))
  I.emit('OSError', node, st, 'open')
  return V.atom('file', 'open')


def bi_iter(I, args, kwargs, node, st):
  I.order_check(args[0], node, 'iter')
  for t in args[0]:
    if t[0] == 'gen':
      return args[0]
  return V.atom('iter', I.iterate(args[0], node, st))


def bi_next(I, args, kwargs, node, st):
  e = I.iterate(args[0], node, st)
  I.order_check(args[0], node, 'next')
  if len(args) > 1:
    return V.join(e, args[1])
  I.emit('StopIteration', node, st, 'next()')
  return e


def bi_filter(I, args, kwargs, node, st):
  I.order_check(args[1], node, 'filter')
  e = I.iterate(args[1], node, st)
  if all(t[0] == 'none' for t in args[0]):
    e = V.assume(e, True)
  return V.atom('iter', e)


def bi_map(I, args, kwargs, node, st):
  I.order_check(args[1], node, 'map')
  return V.atom('iter', V.ANY)


def bi_type(I, args, kwargs, node, st):
  return V.ANY


def bi_round(I, args, kwargs, node, st):
  return V.ANY


def bi_hash(I, args, kwargs, node, st):
  I.event('ambient', node, 'hash()')
  return V.INT


def bi_id(I, args, kwargs, node, st):
  I.event('ambient', node, 'id()')
  return V.INT


def bi_object(I, args, kwargs, node, st):
  return V.ANY


def bi_super(I, args, kwargs, node, st):
  return V.ANY


def bi_eval(I, args, kwargs, node, st):
  I.event('exec', node, 'eval')
  return V.ANY


bi_exec = bi___import__ = bi_compile = bi_eval


def bi_input(I, args, kwargs, node, st):
  I.event('ambient', node, 'input()')
  return V.STR


def bi_vars(I, args, kwargs, node, st):
  return V.ANY


bi_globals = bi_locals = bi_dir = bi_vars
