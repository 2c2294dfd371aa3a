"""Names that can still be read after a statement."""

import ast


def _reads(node):
  out = set()
  for n in ast.walk(node):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
      out.add(n.id)
  return out


def _targets(node):
  out = set()
  if isinstance(node, ast.Name):
    out.add(node.id)
  elif isinstance(node, (ast.Tuple, ast.List)):
    for e in node.elts:
      out |= _targets(e)
  elif isinstance(node, ast.Starred):
    out |= _targets(node.value)
  return out


class Liveness:
  """Backward liveness over the syntax tree of one function."""

  def __init__(self, node):
    self.after = {}
    if isinstance(node.body, list):
      self.block(node.body, frozenset(), None, frozenset())

  def block(self, stmts, live, loop, exc):
    for s in reversed(stmts):
      live = live | exc
      self.after[id(s)] = self.after.get(id(s), frozenset()) | live
      live = self.stmt(s, live, loop, exc) | exc
    return live

  def stmt(self, s, out, loop, exc):
    if isinstance(s, ast.If):
      return (_reads(s.test) | self.block(s.body, out, loop, exc) |
              self.block(s.orelse, out, loop, exc))
    if isinstance(s, ast.While):
      head = out | _reads(s.test)
      if s.orelse:
        head = head | self.block(s.orelse, out, loop, exc)
      for _ in range(2):
        head = head | self.block(s.body, head, (out, head), exc)
      return head
    if isinstance(s, ast.For):
      head = frozenset(out)
      if s.orelse:
        head = head | self.block(s.orelse, out, loop, exc)
      for _ in range(2):
        b = self.block(s.body, head, (out, head), exc)
        head = head | (b - _targets(s.target))
      return head | _reads(s.iter) | _reads(s.target)
    if isinstance(s, ast.Try):
      if s.finalbody:
        out = self.block(s.finalbody, out, loop, exc)
        exc = exc | out
      h = frozenset(exc)
      for x in s.handlers:
        h = h | self.block(x.body, out, loop, exc)
        if x.type is not None:
          h = h | _reads(x.type)
      if s.orelse:
        out = self.block(s.orelse, out, loop, exc)
      return self.block(s.body, out, loop, h)
    if isinstance(s, ast.With):
      live = self.block(s.body, out, loop, exc)
      for i in s.items:
        if i.optional_vars is not None:
          live = live - _targets(i.optional_vars)
        live = live | _reads(i.context_expr)
      return live
    if isinstance(s, (ast.Return, ast.Raise)):
      return frozenset(_reads(s)) | exc
    if isinstance(s, ast.Break):
      return loop[0] if loop else out
    if isinstance(s, ast.Continue):
      return loop[1] if loop else out
    if isinstance(s, ast.Assign):
      k = set()
      for t in s.targets:
        k |= _targets(t)
      return (out - k) | _reads(s)
    if isinstance(s, ast.AnnAssign) and s.value is not None:
      return (out - _targets(s.target)) | _reads(s)
    if isinstance(s, ast.AugAssign):
      return out | _reads(s) | _targets(s.target)
    return out | _reads(s)
