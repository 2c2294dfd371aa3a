"""Which documented table describes a data layout, and where they agree."""


def members(fabric, lay):
  """[(name, size)] of the members of a structure, None: not fixed."""
  out = []
  off = 0
  for f in lay.fields:
    if f.spec.get('type') == 'padding':
      a = f.spec.get('alignment_size')
      size = (-off) % a if off is not None and a else None
      if size == 0:
        continue
    else:
      size = fabric.byte_size(f.spec)
    out.append((f.name or 'padding', size))
    off = None if off is None or size is None else off + size
  return out


def compare(fabric, lay, table, shift=0):
  """Walks a structure and a table of its format together.

  Returns the pairs of (members, rows) that take up the same bytes, and the
  pair at which they stop to agree, None if they do not. Rows of the table in
  the first shift bytes are of the structure around this one.
  """
  a = members(fabric, lay)
  b = []
  skip = shift
  for r in table.rows:
    if r.size == 0:
      continue
    if skip > 0 and r.size:
      skip -= r.size
      continue
    b.append((r.name, r.size))
  i = j = 0
  pairs = []
  while i < len(a) and j < len(b):
    x, y = a[i][1], b[j][1]
    ii, jj = i + 1, j + 1
    if x is not None and y is not None:
      while x != y:
        if x < y:
          if ii >= len(a) or a[ii][1] is None:
            break
          x += a[ii][1]
          ii += 1
        else:
          if jj >= len(b) or b[jj][1] is None:
            break
          y += b[jj][1]
          jj += 1
      if x != y or (ii > i + 1 and jj > j + 1):
        return pairs, (a[i], b[j])
    elif x is not None or y is not None:
      return pairs, (a[i], b[j])
    pairs.append(([n for n, _ in a[i:ii]], [n for n, _ in b[j:jj]], x))
    i, j = ii, jj
  return pairs, None
