"""Padding up to a multiple: B - r, with r the remainder by B, is only used
where r is not 0 (else a whole block too much is skipped)."""

import ast

from sa.inline import ends


def key(e):
  return ast.dump(e)


def size_of(e, defs):
  """What the remainder e is a remainder by: keys."""
  if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
    return {key(e.right)}
  if isinstance(e, ast.Subscript) and isinstance(
      e.value, ast.Call) and isinstance(e.slice, ast.Constant) and (
          e.slice.value == 1):
    return divisor(e.value)
  if isinstance(e, ast.Subscript) and isinstance(
      e.value, ast.Name) and isinstance(e.slice, ast.Constant) and (
          e.slice.value == 1):
    return set().union(*[divisor(d) for d in defs.get(e.value.id, ())
                         if not isinstance(d, tuple)] or [set()])
  if isinstance(e, ast.Name):
    return set().union(*[size_of(d, defs if isinstance(
        d, ast.Subscript) else {}) if not isinstance(d, tuple) else
                         divisor(d[0]) for d in defs.get(e.id, ())] or [set()])
  return set()


def divisor(call):
  if isinstance(call, ast.Call) and isinstance(
      call.func, ast.Name) and call.func.id == 'divmod' and len(
          call.args) == 2:
    return {key(call.args[1])}
  return set()


def definitions(func):
  defs = {}
  for n in ast.walk(func):
    if isinstance(n, ast.Assign) and len(n.targets) == 1:
      t = n.targets[0]
      if isinstance(t, ast.Name):
        defs.setdefault(t.id, []).append(n.value)
      elif isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2 and (
          isinstance(t.elts[1], ast.Name)):
        defs.setdefault(t.elts[1].id, []).append((n.value,))
    elif isinstance(n, ast.NamedExpr):
      defs.setdefault(n.target.id, []).append(n.value)
  return defs


def implied(test, yes, defs, depth=0):
  """Keys of expressions that are not 0 if the test has this outcome."""
  if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
    return implied(test.operand, not yes, defs, depth)
  if isinstance(test, ast.BoolOp):
    parts = [implied(v, yes, defs, depth) for v in test.values]
    if isinstance(test.op, ast.And) == yes:
      return set().union(*parts)
    return set.intersection(*parts)
  if isinstance(test, ast.NamedExpr):
    return implied(test.value, yes, defs, depth) | (
        {key(ast.Name(test.target.id, ast.Load()))} if yes else set())
  if isinstance(test, ast.Compare) and len(test.ops) == 1:
    a, op, b = test.left, test.ops[0], test.comparators[0]
    if isinstance(a, ast.Constant):
      swap = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt,
              ast.GtE: ast.LtE}
      a, b = b, a
      op = swap[type(op)]() if type(op) in swap else op
    if isinstance(b, ast.Constant) and isinstance(b.value, int):
      zero = {ast.Eq: 0 == b.value, ast.NotEq: 0 != b.value,
              ast.Lt: 0 < b.value, ast.LtE: 0 <= b.value,
              ast.Gt: 0 > b.value, ast.GtE: 0 >= b.value}.get(type(op))
      if zero is not None and zero != yes:
        return {key(a)} | ({key(ast.Name(a.target.id, ast.Load()))}
                           if isinstance(a, ast.NamedExpr) else set())
    return set()
  if isinstance(test, ast.Name):
    out = {key(test)} if yes else set()
    ds = defs.get(test.id, ())
    if len(ds) == 1 and not isinstance(ds[0], tuple) and depth < 4:
      out |= implied(ds[0], yes, defs, depth + 1)
    return out
  return {key(test)} if yes else set()


class Walk:

  def __init__(self, func):
    self.defs = definitions(func)
    self.found = []  # (node, guarded)
    self.block(func.body, frozenset())

  def block(self, body, facts):
    for s in body:
      facts = self.statement(s, facts)
    return facts

  def kill(self, s, facts):
    names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)
             and not isinstance(n.ctx, ast.Load)}
    return frozenset(f for f in facts
                     if not any("id='%s'" % n in f for n in names))

  def statement(self, s, facts):
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
      return facts
    if isinstance(s, ast.If):
      self.expr(s.test, facts)
      y = implied(s.test, True, self.defs)
      n = implied(s.test, False, self.defs)
      a = self.block(s.body, facts | y)
      b = self.block(s.orelse, facts | n)
      if leaves(s.body):
        return b
      if leaves(s.orelse):
        return a
      return a & b
    if isinstance(s, (ast.While, ast.For)):
      inner = self.kill(s, facts)
      if isinstance(s, ast.While):
        self.expr(s.test, inner)
        self.block(s.body, inner | implied(s.test, True, self.defs))
      else:
        self.expr(s.iter, facts)
        self.block(s.body, inner)
      self.block(s.orelse, inner)
      return inner
    if isinstance(s, (ast.Try, ast.With)):
      inner = self.kill(s, facts)
      for f in ('items', 'body', 'orelse', 'finalbody'):
        for x in getattr(s, f, ()):
          if f == 'items':
            self.expr(x.context_expr, facts)
        if f != 'items':
          self.block(getattr(s, f, []), facts if f == 'body' else inner)
      for h in getattr(s, 'handlers', ()):
        self.block(h.body, inner)
      return inner
    self.expr(s, facts)
    return self.kill(s, facts)

  def expr(self, e, facts, wrapped=False):
    if isinstance(e, ast.IfExp):
      self.expr(e.test, facts)
      self.expr(e.body, facts | implied(e.test, True, self.defs))
      self.expr(e.orelse, facts | implied(e.test, False, self.defs))
      return
    if isinstance(e, ast.BoolOp):
      yes = isinstance(e.op, ast.And)
      for v in e.values:
        self.expr(v, facts)
        facts = facts | implied(v, yes, self.defs)
      return
    if isinstance(e, ast.BinOp):
      if isinstance(e.op, ast.Mod):
        self.expr(e.left, facts, True)
        self.expr(e.right, facts)
        return
      if isinstance(e.op, ast.Sub) and key(e.left) in size_of(
          e.right, self.defs):
        self.found.append((e, wrapped or key(e.right) in facts))
    for c in ast.iter_child_nodes(e):
      self.expr(c, facts, wrapped and isinstance(e, ast.BinOp))


def leaves(body):
  return bool(body) and (ends(body) or isinstance(
      body[-1], (ast.Continue, ast.Break)))


def paddings(func):
  return Walk(func).found
