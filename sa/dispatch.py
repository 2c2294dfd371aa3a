"""Which layouts and decompressors are used for each value of a field."""

from sa import engine
from sa import normal
from sa import project as P
from sa import reject
from sa import values as V

DECOMPRESSORS = (
    'zlib.', 'lz4.', 'snappy.', 'zstd.', 'zstandard.', 'lzma.', 'gzip.',
    'pylzma.', 'bz2.')


def value(x):
  if isinstance(x, str):
    return V.bytes_set([x.encode('latin-1')])
  if isinstance(x, list):
    return V.int_set(x)
  return V.int_const(x)


def forms(fab):
  """Name of a layout -> its normal form."""
  n = normal.Normal(fab)
  return {name: '%s %r' % (fab.name, n.form(lay))
          for name, lay in fab.defs.items()}


def used(repo, case, x):
  """The layouts and decompressors that readers use for a value."""
  r = reject.run(repo, False, case['fabric'], [
      (n, case['field'], value(x)) for n in case['layouts']])
  if r is None:
    return None
  fabs = P.Project(repo).fabrics
  cache = {}
  out = set()
  shapes = {}
  for u in r['used']:
    if u.endswith('()'):
      if u.startswith(DECOMPRESSORS):
        out.add(u)
      continue
    out.add(u)
    fn, _, name = u.partition(':')
    if fn not in cache:
      cache[fn] = forms(fabs[fn])
    shapes[u] = cache[fn].get(name, u)
  return {'used': out, 'shapes': shapes,
          'defined': {'%s:%s' % (fn, n) for fn, d in cache.items()
                      for n in d}}


def is_used(r, name, shape):
  """Whether a layout is used, under its name or, renamed, by its shape."""
  if name in r['used']:
    return True
  if name.endswith('()') or name in r['defined']:
    return False
  return shape in r['shapes'].values()


def job(args):
  return engine.big_stack(lambda: used(*args))
