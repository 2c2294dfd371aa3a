"""dtFabric definition files as layouts: the types of the decoded values."""

import ast
import glob
import os

import yaml

from sa import values as V


class Field:
  """A structure member."""

  def __init__(self, name, spec, owner):
    self.name = name
    self.spec = spec
    self.owner = owner
    self.condition = spec.get('condition')
    self.data_type = spec.get('data_type')
    vals = spec.get('values')
    if vals is None and spec.get('value') is not None:
      vals = [spec['value']]
    if vals:
      vals = [
          x.encode('latin1') if isinstance(x, str) else x for x in vals]
    self.values = vals or None


class Layout:
  """A data type definition."""

  def __init__(self, fabric, spec):
    self.fabric = fabric
    self.spec = spec
    self.name = spec['name']
    self.type = spec.get('type')
    self.attributes = spec.get('attributes') or {}
    self.byte_order = self.attributes.get('byte_order')
    self.fields = []
    self.by_name = {}
    if self.type == 'structure':
      for m in spec.get('members') or []:
        f = Field(m.get('name'), m, self)
        self.fields.append(f)
        self.by_name[f.name] = f


class Fabric:
  """The definitions of one definition file."""

  def __init__(self, path, text):
    self.path = path
    self.name = os.path.basename(path)
    self.order = []
    self.defs = {}
    self.errors = []
    for doc in yaml.safe_load_all(text):
      if not doc:
        continue
      lay = Layout(self, doc)
      lay.index = len(self.order)
      self.order.append(lay)
      for n in [lay.name] + list(doc.get('aliases') or []):
        if n in self.defs:
          self.errors.append('duplicate definition of %s' % n)
        self.defs[n] = lay
    self._types = {}
    # Fields that are given a value: see override().
    self.bad = {}

  def override(self, layout, field, value):
    """Lets a field have the given value in all of the data."""
    f = self.defs[layout].by_name[field]
    if f.values:
      value = _meet(value, f.values)
    self._types[(layout, field)] = value
    todo = [self.defs[layout].name]
    while todo:
      n = todo.pop()
      self.bad[n] = value
      for lay in self.order:
        if lay.name not in self.bad and lay.type == 'structure' and any(
            m.data_type and not m.condition and
            m.data_type in self.defs and
            self.defs[m.data_type].name == n for m in lay.fields):
          todo.append(lay.name)

  def only(self, group, members):
    """Lets the data of a structure group have the given members only.

    None stands for the default.
    """
    lay = self.defs[group]
    spec = dict(lay.spec)
    if None not in members:
      spec.pop('default', None)
    spec['members'] = [m for m in members if m is not None]
    lay.spec = spec
    self._types = {}
    self.bad[lay.name] = V.ANY

  # -- sizes ---------------------------------------------------------------

  def byte_size(self, spec):
    """Fixed size in bytes of a definition or member, or None."""
    if isinstance(spec, Layout):
      spec = spec.spec
    if spec.get('condition'):
      return None
    t = spec.get('type')
    if t is None and spec.get('data_type'):
      lay = self.defs.get(spec['data_type'])
      return self.byte_size(lay) if lay else None
    attrs = spec.get('attributes') or {}
    if t in ('integer', 'boolean', 'character', 'floating-point'):
      if attrs.get('units', 'bytes') != 'bytes':
        return None
      s = attrs.get('size')
      return s if isinstance(s, int) else None
    if t == 'uuid':
      return 16
    if t in ('stream', 'string', 'sequence'):
      s = spec.get('elements_data_size')
      if isinstance(s, int) and s:
        return s
      n = spec.get('number_of_elements')
      if isinstance(n, int) and n:
        e = self.defs.get(spec.get('element_data_type'))
        es = self.byte_size(e) if e else None
        if es:
          return es * n
      return None
    if t == 'structure':
      total = 0
      for m in spec.get('members') or []:
        if m.get('type') == 'padding':
          a = m.get('alignment_size')
          s = (-total) % a if a else None
        else:
          s = self.byte_size(m)
        if s is None:
          return None
        total += s
      return total
    return None

  def min_size(self, spec, depth=0):
    """Least number of bytes that a decoded definition or member takes."""
    if isinstance(spec, Layout):
      spec = spec.spec
    if spec.get('condition') or depth > 20:
      return 0
    n = self.byte_size(spec)
    if n is not None:
      return n
    t = spec.get('type')
    if t is None and spec.get('data_type'):
      lay = self.defs.get(spec['data_type'])
      return self.min_size(lay, depth + 1) if lay else 0
    if t == 'structure':
      return sum(self.min_size(m, depth + 1)
                 for m in spec.get('members') or []
                 if m.get('type') != 'padding')
    if t == 'structure-group':
      names = list(spec.get('members') or [])
      if spec.get('default'):
        names.append(spec['default'])
      return min((self.min_size(self.defs[m], depth + 1)
                  for m in names if m in self.defs), default=0)
    if t in ('string', 'stream', 'sequence'):
      e = self.defs.get(spec.get('element_data_type'))
      es = self.min_size(e, depth + 1) if e else 0
      if spec.get('elements_terminator') is not None:
        return es
      k = spec.get('number_of_elements')
      if isinstance(k, int):
        return k * es
    return 0

  # -- types ---------------------------------------------------------------

  def type_of(self, spec, name=None):
    """Abstract value of a decoded definition or member."""
    if isinstance(spec, Layout):
      name = spec.name
      spec = spec.spec
    t = spec.get('type')
    if t is None and spec.get('data_type'):
      lay = self.defs.get(spec['data_type'])
      return self.type_of(lay) if lay else V.ANY
    attrs = spec.get('attributes') or {}
    if t == 'integer':
      size = attrs.get('size')
      if not isinstance(size, int):
        return V.INT
      if attrs.get('format', 'signed') == 'unsigned':
        return V.int_range(0, (1 << (8 * size)) - 1)
      return V.int_range(-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
    if t == 'boolean':
      return V.BOOL
    if t == 'character':
      return V.NSTR
    if t == 'floating-point':
      return V.FLOAT
    if t == 'uuid':
      return V.atom('exti', 'uuid.UUID')
    if t == 'enumeration':
      return V.INT
    if t == 'string':
      return V.STR
    if t in ('stream', 'padding'):
      s = self.byte_size(spec) if t == 'stream' else None
      if s is not None:
        return V.bytes_len(s, s)
      return V.bytes_len(0, None)
    if t == 'sequence':
      e = self.defs.get(spec.get('element_data_type'))
      elem = self.type_of(e) if e else V.ANY
      n = spec.get('number_of_elements')
      if isinstance(n, int):
        return V.vtuple(elem, n, n)
      s = spec.get('elements_data_size')
      es = self.byte_size(e) if e else None
      if isinstance(s, int) and es:
        return V.vtuple(elem, s // es, s // es)
      return V.vtuple(elem, 0, None)
    if t == 'structure':
      return V.atom('struct', self.name, name or spec['name'], ())
    if t == 'structure-group':
      names = list(spec.get('members') or [])
      v = V.join_all(
          self.type_of(self.defs[n]) for n in names if n in self.defs)
      d = spec.get('default')
      if d in self.defs:
        v = V.join(v, self.group_default(d, names, spec.get('identifier')))
      return v
    return V.ANY

  def group_default(self, default, members, ident):
    """The default of a structure group has none of the identifiers of the
    members."""
    taken = set()
    for n in members:
      f = self.defs[n].by_name.get(ident) if n in self.defs else None
      if f is None or not f.values:
        return self.type_of(self.defs[default])
      taken |= set(f.values)
    own = self.field_type(default, ident) or V.BOTTOM
    refs = ()
    if len(own) == 1:
      (t,) = own
      if t[0] == 'int' and t[1] == 0 and t[2] in (255, 65535) and all(
          isinstance(x, int) for x in taken):
        rest = frozenset(range(t[2] + 1)) - taken
        refs = ((ident, frozenset([('int', min(rest), max(rest), rest)])),)
    return V.atom('struct', self.name, default, refs)

  def enumeration(self, name):
    """{number: name} of an enumeration."""
    lay = self.defs.get(name)
    spec = getattr(lay, 'spec', lay)
    if not isinstance(spec, dict) or spec.get('type') != 'enumeration':
      return {}
    return {v['number']: v['name'] for v in spec.get('values') or []
            if isinstance(v, dict) and 'number' in v and 'name' in v}

  def field_type(self, layout_name, field_name):
    """Abstract value of a structure field, None when there is none."""
    key = (layout_name, field_name)
    if key in self._types:
      return self._types[key]
    lay = self.defs.get(layout_name)
    f = lay.by_name.get(field_name) if lay else None
    if f is None:
      v = None
    else:
      v = self.type_of(f.spec, name=f.data_type)
      if f.values:
        v = _restrict(v, f.values)
      if f.condition:
        v = V.join(v, V.none('cond'))
    self._types[key] = v
    return v


def _meet(v, vals):
  out = set()
  for t in v:
    if t[0] == 'int':
      out |= set(V.int_set([
          x for x in vals if (t[1] is None or x >= t[1]) and
          (t[2] is None or x <= t[2]) and (t[3] is None or x in t[3])]))
    elif t[0] == 'bytes':
      no = V.excluded(t)
      out |= set(V.bytes_set([
          x for x in vals if x not in no and (t[1] is None or x in t[1])]))
    else:
      out.add(t)
  return frozenset(out)


def _restrict(v, vals):
  if all(isinstance(x, bool) or not isinstance(x, int) for x in vals):
    if all(isinstance(x, bytes) for x in vals) and V.has(v, 'bytes'):
      return V.bytes_set(vals)
    return v
  return V.int_set([x for x in vals if isinstance(x, int)])


class Debug:
  """The entries of one debug definition file."""

  def __init__(self, path, text):
    self.path = path
    self.name = os.path.basename(path)
    self.entries = {}
    self.errors = []
    for doc in yaml.safe_load_all(text):
      if not doc:
        continue
      rows = []
      seen = set()
      for a in doc.get('attributes') or []:
        if a.get('name') in seen:
          self.errors.append('%s: attribute %s is listed twice' % (
              doc.get('data_type_map'), a.get('name')))
        seen.add(a.get('name'))
        rows.append((a.get('name'), a.get('description'), a.get('format')))
      n = doc.get('data_type_map')
      if n in self.entries:
        self.errors.append('debug information of %s is defined twice' % n)
      self.entries[n] = rows


def load(package_dir):
  """Loads all definition files of the package."""
  fabrics, debugs = {}, {}
  for path in sorted(glob.glob(os.path.join(package_dir, '*.yaml'))):
    with open(path, encoding='utf8') as f:
      text = f.read()
    if path.endswith('.debug.yaml'):
      d = Debug(path, text)
      debugs[d.name] = d
    else:
      d = Fabric(path, text)
      fabrics[d.name] = d
  return fabrics, debugs


def expression_names(expr):
  """Names used by a size, count or condition expression.

  Returns a list of (name, attribute or None); None when it does not parse.
  """
  if isinstance(expr, (int, float)) or expr is None:
    return []
  try:
    tree = ast.parse(str(expr), mode='eval')
  except SyntaxError:
    return None
  out = []
  used = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.Attribute):
      chain = [n.attr]
      b = n.value
      while isinstance(b, ast.Attribute):
        chain.append(b.attr)
        b = b.value
      if isinstance(b, ast.Name):
        out.append((b.id, chain[-1]))
        used.add(id(b))
  for n in ast.walk(tree):
    if isinstance(n, ast.Name) and id(n) not in used:
      out.append((n.id, None))
  return out
