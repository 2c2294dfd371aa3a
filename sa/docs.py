"""The tables of the format documentation."""

import glob
import os
import re


class Row:
  """A row of a table that describes a structure."""

  def __init__(self, cells):
    self.offset_text, self.size_text = cells[0], cells[1]
    self.value = cells[2] if len(cells) > 3 else ''
    text = cells[3] if len(cells) > 3 else (cells[2] if len(cells) > 2 else '')
    text = re.sub(r'\[[a-z-]+\]\*?(?=\S)', '', text)
    parts = re.split(r'\s\+(?=\s|$)', text)
    self.name = re.sub(r'[*`_]', '', parts[0]).strip()
    self.text = ' '.join(parts[1:]).strip()
    self.offset = number(self.offset_text)
    self.size = number(self.size_text)


class Table:
  """A structure as it is documented."""

  def __init__(self, doc, title, index, rows, line):
    self.doc, self.title, self.index = doc, title, index
    self.rows = rows
    self.line = line

  @property
  def key(self):
    return '%s#%s#%d' % (self.doc, self.title, self.index)


def number(text):
  t = text.strip()
  m = re.fullmatch(r'0x[0-9a-fA-F]+|\d+', t)
  if m:
    return int(t, 0)
  m = re.fullmatch(r'(\d+) x (\d+) = (\d+)', t)
  if m and int(m.group(1)) * int(m.group(2)) == int(m.group(3)):
    return int(m.group(3))
  m = re.fullmatch(r'(\d+) x (\d+)', t)
  if m:
    return int(m.group(1)) * int(m.group(2))
  m = re.fullmatch(r'(\d+) \(0x([0-9a-fA-F]+)\)', t)
  if m:
    return int(m.group(1))
  return None


def load(repo):
  """[Table] of all documents, and the byte order that each states."""
  tables, orders = [], {}
  for path in sorted(glob.glob(os.path.join(
      repo, 'documentation', '*.asciidoc'))):
    doc = os.path.basename(path)[:-len('.asciidoc')]
    with open(path, encoding='utf8') as f:
      lines = f.read().split('\n')
    title = ''
    count = {}
    cells = None
    start = 0
    ncols = 0
    for i, l in enumerate(lines):
      if cells is None:
        m = re.match(r'^=+\s+(.*)', l)
        if m:
          title = re.sub(r'\[\[.*?\]\]', '', m.group(1)).strip()
        elif l.strip() == '|===':
          cells = []
          start = i + 1
        m = re.match(r'\[cols="([^"]*)"', l)
        if m:
          ncols = len(m.group(1).split(','))
        continue
      if l.strip() != '|===':
        if l.startswith('|'):
          cells += [c.strip() for c in re.split(
              r'(?<!\\)\|', l[1:])]
        elif l.strip() and cells:
          cells[-1] += ' ' + l.strip()
        continue
      rows = []
      if ncols:
        for j in range(0, len(cells) - ncols + 1, ncols):
          rows.append(cells[j:j + ncols])
      cells = None
      if not rows:
        continue
      head = [c.lower() for c in rows[0]]
      if head[:2] == ['offset', 'size']:
        body = []
        for r in rows[1:]:
          # Rows that only hold a remark.
          if any(c for c in r):
            body.append(Row(r))
        k = count.get(title, 0)
        count[title] = k + 1
        tables.append(Table(doc, title, k, body, start))
      else:
        for r in rows:
          if r[0].lower().startswith('byte order'):
            orders.setdefault(doc, r[1].lower())
  return tables, orders
