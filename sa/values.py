"""Abstract values.

A value is a frozenset of atoms; an atom is a tuple whose first element is its
kind. The empty set is bottom (no value reaches this point).

  ('any',)                       unknown
  ('none', tag)                  None, with the provenance tag
  ('unbound',)                   the name may not be bound
  ('bool', v, flag)              v in True, False, None (either)
  ('int', lo, hi, vals)          interval, optionally the set of values
  ('float', 'lo', 'hi')  flags: bounds that are known
  ('str', consts, nonempty)      consts frozenset or None
  ('bytes', consts, lo, hi, fl)  consts frozenset or None, length bounds, flags
  ('tuple', (value, ...))
  ('vtuple', elem, lo, hi)       decoded sequence of lo..hi elements
  ('list'|'dict'|'set', site)    heap object
  ('gen', key)                   generator of the function context key
  ('iter', elem)                 other iterator
  ('struct', fabric, layout, refs)   decoded structure; refs: ((field, value)..)
  ('map', fabric, layout)  ('fabric', fabric)
  ('inst', cls) ('cls', cls) ('func', q) ('bound', q, selfatom)
  ('mod', name) ('ext', dotted) ('exti', dotted) ('file', how)
"""

import functools

MAXCONST = 64
MAXVALS = 64

ANY = frozenset([('any',)])
BOTTOM = frozenset()
UNBOUND = frozenset([('unbound',)])
TRUE = frozenset([('bool', True, '')])
FALSE = frozenset([('bool', False, '')])
BOOL = frozenset([('bool', None, '')])
INT = frozenset([('int', None, None, None)])
NAT = frozenset([('int', 0, None, None)])
FLOAT = frozenset([('float',)])
STR = frozenset([('str', None, False)])
NSTR = frozenset([('str', None, True)])
BYTES = frozenset([('bytes', None, 0, None, frozenset())])


def none(tag='lit'):
  return frozenset([('none', tag)])


def int_const(i):
  return frozenset([('int', i, i, frozenset([i]))])


def int_range(lo, hi):
  if lo is not None and hi is not None and hi - lo < 8:
    return frozenset([('int', lo, hi, frozenset(range(lo, hi + 1)))])
  return frozenset([('int', lo, hi, None)])


def int_set(vals):
  vals = frozenset(vals)
  if not vals:
    return BOTTOM
  return frozenset([(
      'int', min(vals), max(vals), vals if len(vals) <= 256 else None)])


def str_const(s):
  return frozenset([('str', frozenset([s]), bool(s))])


def str_set(ss):
  ss = frozenset(ss)
  if not ss:
    return BOTTOM
  return frozenset([(
      'str', ss if len(ss) <= MAXCONST else None, all(ss))])


def bytes_const(b):
  return frozenset([('bytes', frozenset([b]), len(b), len(b), frozenset())])


def bytes_set(bs):
  bs = frozenset(bs)
  if not bs:
    return BOTTOM
  n = [len(b) for b in bs]
  return frozenset([('bytes', bs, min(n), max(n), frozenset())])


def bytes_len(lo, hi, flags=frozenset()):
  return frozenset([('bytes', None, max(lo, 0), hi, flags)])


def tup(*vals):
  return frozenset([('tuple', tuple(vals))])


def vtuple(elem, lo=0, hi=None):
  return frozenset([('vtuple', elem, lo, hi)])


def atom(*a):
  return frozenset([tuple(a)])


def const(v):
  """Abstracts a Python constant."""
  if v is None:
    return none()
  if v is True:
    return TRUE
  if v is False:
    return FALSE
  if isinstance(v, int):
    return int_const(v)
  if isinstance(v, float):
    return frozenset([('float', 'lo', 'hi')]) if abs(v) <= 1e13 else FLOAT
  if isinstance(v, str):
    return str_const(v)
  if isinstance(v, bytes):
    return bytes_const(v)
  if isinstance(v, tuple):
    return tup(*[const(x) for x in v])
  return ANY


def _lo(a, b):
  return None if a is None or b is None else min(a, b)


def _hi(a, b):
  return None if a is None or b is None else max(a, b)


def join_ints(a, b):
  vals = None
  if a[3] is not None and b[3] is not None:
    vals = a[3] | b[3]
    if len(vals) > MAXVALS and vals != a[3] and vals != b[3]:
      vals = None
  return ('int', _lo(a[1], b[1]), _hi(a[2], b[2]), vals)


def excluded(t):
  """Constants that a bytes atom is known not to be."""
  for x in t[4]:
    if x[0] == 'not':
      return x[1]
  return frozenset()


def _join_flags(a, b):
  out = a[4] | b[4]
  if a[4] != b[4] and any(x[0] == 'not' for x in out):
    no = excluded(a) & excluded(b)
    out = frozenset(x for x in out if x[0] != 'not')
    if no:
      out |= frozenset([('not', no)])
  return out


def _join_bytes(a, b):
  consts = None
  if a[1] is not None and b[1] is not None:
    consts = a[1] | b[1]
    if len(consts) > MAXCONST:
      consts = None
  return ('bytes', consts, _lo(a[2], b[2]), _hi(a[3], b[3]),
          _join_flags(a, b))


def _join_str(a, b):
  consts = None
  if a[1] is not None and b[1] is not None:
    consts = a[1] | b[1]
    if len(consts) > MAXCONST:
      consts = None
  return ('str', consts, a[2] and b[2])


@functools.lru_cache(maxsize=300000)
def join(a, b):
  """Least upper bound of two values."""
  if a == b or not b:
    return a
  if not a:
    return b
  return normalise(a | b)


def normalise(atoms):
  """Merges atoms of the same kind."""
  single = {}
  tuples = {}
  vt = None
  structs = {}
  out = set()
  for t in atoms:
    k = t[0]
    if k == 'int':
      single['int'] = join_ints(single['int'], t) if 'int' in single else t
    elif k == 'str':
      single['str'] = _join_str(single['str'], t) if 'str' in single else t
    elif k == 'bytes':
      single['bytes'] = (
          _join_bytes(single['bytes'], t) if 'bytes' in single else t)
    elif k == 'bool':
      o = single.get('bool')
      if o:
        t = ('bool', t[1] if t[1] == o[1] else None,
             'dbg' if 'dbg' in (t[2], o[2]) else '')
      single['bool'] = t
    elif k == 'float':
      o = single.get('float')
      if o:
        t = ('float',) + tuple(x for x in t[1:] if x in o[1:])
      single['float'] = t
    elif k == 'tuple':
      n = _tuple_key(t)
      if n in tuples:
        tuples[n] = tuple(join(x, y) for x, y in zip(tuples[n], t[1]))
      else:
        tuples[n] = t[1]
    elif k == 'vtuple':
      vt = t if vt is None else (
          'vtuple', join(vt[1], t[1]), _lo(vt[2], t[2]), _hi(vt[3], t[3]))
    elif k == 'struct':
      key = t[1:3]
      if key in structs:
        structs[key] = _join_refs(structs[key], t[3])
      else:
        structs[key] = t[3]
    else:
      out.add(t)
  out.update(single.values())
  for t in tuples.values():
    out.add(('tuple', t))
  if vt is not None:
    out.add(vt)
  for k, r in structs.items():
    out.add(('struct',) + k + (r,))
  return frozenset(out)


def _tuple_key(t):
  """Tuples are joined when the same of their items are None."""
  p = []
  for v in t[1]:
    n = sum(1 for x in v if x[0] == 'none')
    if n and n < len(v):
      return (len(t[1]), None)
    p.append(bool(n))
  return (len(t[1]), tuple(p))


def _join_refs(a, b):
  if a == b:
    return a
  da, db = dict(a), dict(b)
  return tuple(sorted(
      ((k, join(da[k], db[k])) for k in da.keys() & db.keys()),
      key=lambda kv: kv[0]))


_KIND = {'vtuple': 'tuple', 'bool': 'int'}


def mixed(v):
  """Whether a value is of three or more unrelated kinds."""
  kinds = {_KIND.get(t[0], t[0]) for t in v}
  return len(kinds & {'int', 'float', 'str', 'bytes', 'tuple', 'list',
                      'dict'}) > 2


def join_all(values):
  r = BOTTOM
  for v in values:
    r = join(r, v)
  return r


_TH_LO = (1, 0, -1)
_TH_HI = (0, 1, 255, 65535, 0xffffffff, 1 << 60, 0xffffffffffffffff)


def widen(old, new):
  """Widening: bounds that grew go to the next threshold."""
  j = join(old, new)
  if j == old:
    return old
  od = {a[0]: a for a in old if a[0] in ('int', 'bytes', 'vtuple')}
  out = set()
  for t in j:
    o = od.get(t[0])
    if t[0] == 'int' and o and (t[1] != o[1] or t[2] != o[2]):
      lo, hi = t[1], t[2]
      if lo != o[1] and lo is not None:
        lo = next((x for x in _TH_LO if x <= lo), None)
      if hi != o[2] and hi is not None:
        hi = next((x for x in _TH_HI if x >= hi), None)
      t = ('int', lo, hi, None)
    elif t[0] == 'bytes' and o and (t[2] != o[2] or t[3] != o[3]):
      t = ('bytes', t[1], 0 if t[2] != o[2] else t[2],
           None if t[3] != o[3] else t[3], t[4])
    elif t[0] == 'vtuple' and o:
      t = ('vtuple', widen(o[1], t[1]), 0 if t[2] != o[2] else t[2],
           None if t[3] != o[3] else t[3])
    elif t[0] == 'tuple':
      for oo in old:
        if oo[0] == 'tuple' and _tuple_key(oo) == _tuple_key(t):
          t = ('tuple', tuple(widen(x, y) for x, y in zip(oo[1], t[1])))
    out.add(t)
  return normalise(out)


def depth_limit(v, n=4):
  """Bounds the nesting of tuples in a value."""
  out = []
  for t in v:
    if t[0] == 'tuple':
      if n == 0:
        return ANY
      t = ('tuple', tuple(depth_limit(x, n - 1) for x in t[1]))
    elif t[0] == 'vtuple':
      if n == 0:
        return ANY
      t = ('vtuple', depth_limit(t[1], n - 1), t[2], t[3])
    out.append(t)
  return normalise(out)


def retag_none(v, tag):
  """Replaces the provenance of None atoms."""
  if not any(t[0] == 'none' and t[1] != tag for t in v):
    return v
  return frozenset(('none', tag) if t[0] == 'none' else t for t in v)


def drop(v, *kinds):
  return frozenset(t for t in v if t[0] not in kinds)


def has(v, kind):
  return any(t[0] == kind for t in v)


def consts(v):
  """The set of Python constants a value can be, or None when unknown."""
  out = set()
  for t in v:
    k = t[0]
    if k == 'int' and t[3] is not None:
      out |= t[3]
    elif k == 'str' and t[1] is not None:
      out |= t[1]
    elif k == 'bytes' and t[1] is not None:
      out |= t[1]
    elif k == 'bool' and t[1] is not None:
      out.add(t[1])
    elif k == 'none':
      out.add(None)
    else:
      return None
  return out


def truthiness(v):
  """Returns (may be true, may be false)."""
  mt = mf = False
  for t in v:
    k = t[0]
    if k in ('none',):
      mf = True
    elif k == 'bool':
      if t[1] is None:
        mt = mf = True
      elif t[1]:
        mt = True
      else:
        mf = True
    elif k == 'int':
      lo, hi = t[1], t[2]
      if t[3] is not None:
        mf |= 0 in t[3]
        mt |= any(t[3])
      else:
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
          mf = True
        mt = True
    elif k == 'str':
      if t[1] is not None:
        mf |= '' in t[1]
        mt |= any(t[1])
      else:
        mt = True
        mf |= not t[2]
    elif k == 'bytes':
      if t[3] is None or t[3] > 0:
        mt = True
      if t[2] == 0:
        mf = True
    elif k == 'tuple':
      if t[1]:
        mt = True
      else:
        mf = True
    elif k == 'vtuple':
      if t[2] == 0:
        mf = True
      if t[3] is None or t[3] > 0:
        mt = True
    elif k in ('struct', 'map', 'fabric', 'inst', 'cls', 'func', 'bound',
               'mod', 'ext', 'file', 'gen') or t == ('exti', 'uuid.UUID'):
      mt = True
    else:
      mt = mf = True
  return mt, mf


def assume(v, truth):
  """Restricts a value to its true or false part."""
  out = set()
  for t in v:
    k = t[0]
    if k == 'none':
      if not truth:
        out.add(t)
    elif k == 'bool':
      if t[1] is None or t[1] == truth:
        out.add(('bool', truth, t[2]))
    elif k == 'int':
      out |= int_restrict(t, '!=' if truth else '==', 0)
    elif k == 'str':
      if t[1] is not None:
        c = frozenset(s for s in t[1] if bool(s) == truth)
        if c:
          out.add(('str', c, truth))
      elif truth:
        out.add(('str', None, True))
      elif not t[2]:
        out.add(('str', frozenset(['']), False))
    elif k == 'bytes':
      if truth:
        if t[3] is None or t[3] > 0:
          c = t[1] if t[1] is None else t[1] - frozenset([b''])
          out.add(('bytes', c, max(t[2], 1), t[3], t[4]))
      elif t[2] == 0:
        out.add(('bytes', frozenset([b'']), 0, 0, frozenset()))
    elif k == 'tuple':
      if bool(t[1]) == truth:
        out.add(t)
    elif k == 'vtuple':
      if truth:
        if t[3] is None or t[3] > 0:
          out.add(('vtuple', t[1], max(t[2], 1), t[3]))
      elif t[2] == 0:
        out.add(('vtuple', t[1], 0, 0))
    elif k in ('struct', 'map', 'fabric', 'inst', 'cls', 'func', 'bound',
               'mod', 'ext', 'file', 'gen'):
      if truth:
        out.add(t)
    else:
      out.add(t)
  return frozenset(out)


def int_restrict(t, op, c):
  """Restricts an int atom by a comparison with a constant; set of atoms."""
  lo, hi, vals = t[1], t[2], t[3]
  if vals is not None:
    import operator
    f = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
         '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op]
    return set(int_set([x for x in vals if f(x, c)]))
  if op == '==':
    if (lo is not None and c < lo) or (hi is not None and c > hi):
      return set()
    return set(int_const(c))
  if op == '!=':
    if lo is not None and lo == c:
      lo = c + 1
    if hi is not None and hi == c:
      hi = c - 1
  elif op == '<':
    hi = c - 1 if hi is None else min(hi, c - 1)
  elif op == '<=':
    hi = c if hi is None else min(hi, c)
  elif op == '>':
    lo = c + 1 if lo is None else max(lo, c + 1)
  elif op == '>=':
    lo = c if lo is None else max(lo, c)
  if lo is not None and hi is not None and lo > hi:
    return set()
  return set(int_range(lo, hi))


def bounds(v):
  """Interval of the int atoms; None when something may not be an int."""
  lo = hi = None
  first = True
  for t in v:
    if t[0] == 'bool':
      l, h = (0, 1) if t[1] is None else (int(t[1]), int(t[1]))
    elif t[0] == 'int':
      l, h = t[1], t[2]
    else:
      return None
    if first:
      lo, hi, first = l, h, False
    else:
      lo, hi = _lo(lo, l), _hi(hi, h)
  if first:
    return None
  return lo, hi


def show(v):
  """Readable form of a value."""
  if not v:
    return 'nothing'
  out = []
  for t in sorted(v, key=repr):
    k = t[0]
    if k == 'int':
      if t[3] is not None and len(t[3]) <= 4:
        out.append('int' + str(sorted(t[3])))
      else:
        out.append('int[%s,%s]' % (
            '-inf' if t[1] is None else t[1], 'inf' if t[2] is None else t[2]))
    elif k == 'str':
      out.append('str' if t[1] is None else 'str' + str(sorted(t[1])[:4]))
    elif k == 'bytes':
      out.append('bytes[%s,%s]' % (t[2], 'inf' if t[3] is None else t[3]))
    elif k == 'tuple':
      out.append('tuple(' + ', '.join(show(x) for x in t[1]) + ')')
    elif k == 'vtuple':
      out.append('sequence of ' + show(t[1]))
    elif k == 'none':
      out.append('None')
    elif k == 'bool':
      out.append('bool')
    elif k == 'struct':
      out.append('structure ' + t[2])
    elif k == 'inst':
      out.append('instance of ' + t[1])
    elif k == 'exti':
      out.append(t[1])
    else:
      out.append(k)
  return ' or '.join(out)
