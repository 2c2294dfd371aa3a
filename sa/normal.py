"""What a data layout decodes, apart from how its definition is written.

A layout is a list of leaves: the values it reads, in order. Members that are
structures are expanded in place, names of types are replaced by what they
stand for, byte orders are the ones dtFabric applies, and the names in size,
count and condition expressions are replaced by the leaves they refer to.
"""

import ast
import json

NATIVE = 'native'


def _order(spec):
  return (spec.get('attributes') or {}).get('byte_order', NATIVE)


class Normal:
  """The layouts of a definition file in normal form."""

  def __init__(self, fabric):
    self.fab = fabric
    self._seq = {}

  # -- byte orders ---------------------------------------------------------

  def order_of(self, spec):
    """Byte order a definition or member has by itself."""
    o = _order(spec)
    if o != NATIVE:
      return o
    e = spec.get('element_data_type') or (
        spec.get('data_type') if spec.get('type') is None else None)
    if e:
      d = self.fab.defs.get(e)
      if d is not None and (
          spec.get('type') is None or d.type not in (
              'structure', 'structure-group')):
        return self.order_of(d.spec)
      if d is not None:
        return _order(d.spec)
    return NATIVE

  # -- leaves --------------------------------------------------------------

  def layout(self, lay, order=NATIVE):
    """[(path, leaf)] of a layout."""
    out = []
    self.expand(lay.spec, order, (), [], out, None)
    return out

  def expand(self, spec, order, path, scope, out, cond):
    t = spec.get('type')
    if t is None and spec.get('data_type'):
      d = self.fab.defs.get(spec['data_type'])
      if d is None:
        out.append((path, ['undefined', spec['data_type']]))
        return
      own = self.order_of(d.spec)
      self.expand(
          d.spec, own if own != NATIVE else order, path, scope, out, cond)
      return
    own = self.order_of(spec)
    if own == NATIVE:
      own = order
    if t == 'structure':
      here = {}
      inner = scope + [(spec.get('name'), here)]
      for i, m in enumerate(spec.get('members') or []):
        c = cond
        if m.get('condition'):
          c = (cond or []) + [self.expr(m['condition'], inner)]
        name = m.get('name') or '#%d' % i
        start = len(out)
        self.expand(m, own, path + (name,), inner, out, c)
        for k in range(start, len(out)):
          here[out[k][0][len(path):]] = k
        here[(name,)] = start
        vals = m.get('values')
        if vals is None and m.get('value') is not None:
          vals = [m['value']]
        if vals and len(out) == start + 1:
          out[start][1].append({'values': [
              x if isinstance(x, int) else str(x) for x in vals]})
      return
    leaf = self.leaf(spec, t, own, scope)
    if cond:
      leaf.append({'if': list(cond)})
    out.append((path, leaf))

  def leaf(self, spec, t, order, scope):
    a = spec.get('attributes') or {}
    o = {'big-endian': 'big'}.get(order, 'little')
    size = a.get('size')
    if t == 'integer':
      s = 'unsigned' if a.get('format', 'signed') == 'unsigned' else 'signed'
      return ['integer', size, s] + ([o] if size != 1 else [])
    if t == 'floating-point':
      return ['float', size, o]
    if t == 'boolean':
      return ['boolean', size, a.get('false_value', 0), a.get(
          'true_value')] + ([o] if size != 1 else [])
    if t == 'character':
      return ['character', size] + ([o] if size != 1 else [])
    if t == 'uuid':
      return ['uuid', o]
    if t == 'enumeration':
      return ['enumeration', size, o, sorted(
          [v.get('number'), v.get('name')] for v in spec.get('values') or ())]
    if t == 'padding':
      return ['padding', spec.get('alignment_size')]
    if t == 'structure-group':
      ident = spec.get('identifier')
      subs = []
      for n in list(spec.get('members') or ()):
        d = self.fab.defs.get(n)
        subs.append(self.form(d, order) if d is not None else ['undefined', n])
      d = self.fab.defs.get(spec.get('default'))
      return ['group', ident, sorted(subs, key=json.dumps),
              self.form(d, order) if d is not None else None]
    if t in ('stream', 'string', 'sequence'):
      e = self.fab.defs.get(spec.get('element_data_type'))
      if e is None:
        elem, esize = ['undefined', spec.get('element_data_type')], None
      else:
        composite = e.type in ('structure', 'structure-group', 'stream',
                               'string', 'sequence', 'padding')
        own = self.order_of(e.spec)
        if own == NATIVE and not composite:
          own = order
        elem = self.form(e, own)
        esize = self.fab.byte_size(e)
      bound = None
      for key in ('elements_data_size', 'number_of_elements'):
        x = spec.get(key)
        if x is None:
          continue
        text = self.expr(x, scope)
        if key == 'number_of_elements' and esize and t != 'sequence':
          if isinstance(text, int):
            text *= esize
          elif esize != 1:
            text = '%s * %d' % (text, esize)
          key = 'elements_data_size'
        if key == 'elements_data_size' and esize and t == 'sequence' and (
            isinstance(text, int)):
          text //= esize
          key = 'number_of_elements'
        bound = ['bytes' if key == 'elements_data_size' else 'elements', text]
      term = spec.get('elements_terminator')
      if term is not None and not isinstance(term, int):
        term = str(term)
      out = [t]
      if t == 'string':
        out.append(str(spec.get('encoding') or '').lower())
        out.append(esize)
      elif t == 'stream':
        if esize != 1:
          out.append(esize)
      else:
        out.append(elem)
      out.append(bound)
      if term is not None:
        out.append({'terminator': term})
      return out
    return [str(t)]

  def form(self, lay, order=NATIVE):
    """Normal form without the names of the values."""
    k = (lay.name, order)
    if k not in self._seq:
      self._seq[k] = ['recursive', lay.name]
      ls = self.layout(lay, order)
      self._seq[k] = [x for _, x in ls]
    return self._seq[k]

  # -- expressions ---------------------------------------------------------

  def expr(self, x, scope):
    if isinstance(x, int):
      return x
    try:
      tree = ast.parse(str(x), mode='eval').body
    except SyntaxError:
      return str(x)
    tree = _Names(scope).visit(tree)
    try:
      return int(ast.literal_eval(tree))
    except (ValueError, TypeError, SyntaxError):
      pass
    return ast.unparse(_Sort().visit(tree))


class _Names(ast.NodeTransformer):

  def __init__(self, scope):
    self.scope = scope

  def visit_Attribute(self, node):
    parts = []
    n = node
    while isinstance(n, ast.Attribute):
      parts.append(n.attr)
      n = n.value
    if isinstance(n, ast.Name):
      for name, here in reversed(self.scope):
        if name == n.id:
          k = here.get(tuple(reversed(parts)))
          if k is not None:
            return ast.copy_location(
                ast.Name('value_%d' % k, ast.Load()), node)
    return node


class _Sort(ast.NodeTransformer):
  """Constants come last in sums, products and comparisons for equality."""

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if isinstance(node.op, (ast.Add, ast.Mult)) and isinstance(
        node.left, ast.Constant):
      node.left, node.right = node.right, node.left
    if isinstance(node.left, ast.Constant) and isinstance(
        node.right, ast.Constant):
      try:
        return ast.Constant(ast.literal_eval(node))
      except ValueError:
        return node
    return node

  def visit_Compare(self, node):
    self.generic_visit(node)
    swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
            ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    if len(node.ops) == 1 and isinstance(node.left, ast.Constant) and (
        type(node.ops[0]) in swap):
      return ast.Compare(
          node.comparators[0], [swap[type(node.ops[0])]()], [node.left])
    return node
