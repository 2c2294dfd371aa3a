"""Brings the source into the form in which it was reviewed.

Every check judges functions in the context of the functions that call them.
A helper that was taken out of a reviewed function (spec/functions.json names
those) is put back at its calls before anything is analysed, so that what a
check finds out does not depend on where a function was cut in two. This is
only done when the helper can be put back without changing what the program
does: its name is defined once, it is no generator, its parameters are plain
and its returns end it. Any other helper is analysed through summaries.

Two further forms are undone: a flag that is tested right behind its only
assignment is replaced by its condition, and an endless loop that begins with
the test that ends it becomes a loop with that test.
"""

import ast
import builtins
import copy
import glob
import json
import os
import re
import string

from sa import renames

SPEC = os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec',
    'functions.json')
MAX_STATEMENTS = 240  # statements all calls of a helper may add up to
LOOPS = (ast.For, ast.While)
SCOPES = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)


class No(Exception):
  """The helper or call is left alone."""


def names(nodes, ctx=None):
  out = set()
  for n in nodes:
    for x in ast.walk(n):
      if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx)):
        out.add(x.id)
      elif isinstance(x, ast.ExceptHandler) and x.name:
        out.add(x.name)
  return out


def has_return(nodes):
  return any(isinstance(x, ast.Return) for n in nodes for x in ast.walk(n))


def ends(body):
  """A body that never falls through."""
  if not body:
    return False
  s = body[-1]
  if isinstance(s, (ast.Return, ast.Raise)):
    return True
  if isinstance(s, ast.If):
    return ends(s.body) and ends(s.orelse)
  if isinstance(s, ast.Try):
    if s.finalbody and ends(s.finalbody):
      return True
    return ends(s.orelse or s.body) and all(ends(h.body) for h in s.handlers)
  if isinstance(s, ast.With):
    return False
  return False


def own_break(body):
  """A break that belongs to the loop of this body."""
  for s in body:
    if isinstance(s, ast.Break):
      return True
    if isinstance(s, LOOPS):
      if own_break(s.orelse):
        return True
      continue
    for f in ('body', 'orelse', 'finalbody'):
      if own_break(getattr(s, f, None) or []):
        return True
    for h in getattr(s, 'handlers', None) or []:
      if own_break(h.body):
        return True
  return False


def single_exit(body, give, final=True):
  """Rewrites a body so that its returns become give(value) at its end."""
  out = []
  for i, s in enumerate(body):
    rest = body[i + 1:]
    if isinstance(s, ast.Return):
      return out + give(s.value, s)
    if not has_return([s]):
      out.append(s)
      if isinstance(s, ast.Raise):
        return out
      continue
    if isinstance(s, ast.If):
      s = copy.copy(s)
      if ends(s.body):
        a, b = s.body, s.orelse + rest
      elif s.orelse and ends(s.orelse):
        a, b = s.body + rest, s.orelse
      else:
        if sum(1 for r in rest for _ in ast.walk(r)) > 60:
          raise No('returns on some paths')
        a, b = s.body + rest, s.orelse + copy.deepcopy(rest)
      s.body = single_exit(a, give, final) or [ast.copy_location(
          ast.Pass(), s)]
      s.orelse = single_exit(b, give, final)
      return out + [s]
    if isinstance(s, ast.Try):
      s = copy.copy(s)
      if s.orelse:
        raise No('try with else')
      if rest and not ends(s.body):
        raise No('try that can be left in two ways')
      if s.finalbody and (rest or has_return(s.finalbody)):
        raise No('return in finally')
      s.body = single_exit(s.body, give, final and not rest)
      hs = []
      for h in s.handlers:
        h = copy.copy(h)
        b = h.body if ends(h.body) else h.body + copy.deepcopy(rest)
        h.body = single_exit(b, give, final)
        hs.append(h)
      s.handlers = hs
      return out + [s]
    if isinstance(s, LOOPS):
      s = copy.copy(s)
      if s.orelse or own_break(s.body):
        raise No('loop that can be left in two ways')
      s.body = [leave(x, give) for x in s.body]
      s.body = flat(s.body)
      endless = (isinstance(s, ast.While) and isinstance(
          s.test, ast.Constant) and s.test.value is True)
      s.orelse = [] if endless else single_exit(rest, give, final)
      return out + [s]
    raise No('return within %s' % type(s).__name__)
  if final:
    out += give(None, None)
  return out


def flat(items):
  out = []
  for x in items:
    out.extend(x if isinstance(x, list) else [x])
  return out


def leave(s, give):
  """Returns within a loop: the result and a break."""
  if isinstance(s, ast.Return):
    return give(s.value, s) + [ast.copy_location(ast.Break(), s)]
  if not has_return([s]):
    return s
  if isinstance(s, (ast.If, ast.Try, ast.With)):
    s = copy.copy(s)
    for f in ('body', 'orelse', 'finalbody'):
      if getattr(s, f, None):
        setattr(s, f, flat([leave(x, give) for x in getattr(s, f)]))
    if getattr(s, 'handlers', None):
      hs = []
      for h in s.handlers:
        h = copy.copy(h)
        h.body = flat([leave(x, give) for x in h.body])
        hs.append(h)
      s.handlers = hs
    return s
  raise No('return within %s in a loop' % type(s).__name__)


class Rename(ast.NodeTransformer):
  """Replaces names by names or expressions."""

  def __init__(self, table):
    self.table = table

  def visit_Name(self, n):
    v = self.table.get(n.id)
    if v is None:
      return n
    if isinstance(v, str):
      return ast.copy_location(ast.Name(v, n.ctx), n)
    return copy.deepcopy(v)

  def visit_ExceptHandler(self, n):
    self.generic_visit(n)
    v = self.table.get(n.name)
    if isinstance(v, str):
      n.name = v
    return n


class Helper:
  """A function that can be put back at its calls."""

  def __init__(self, module, cls, node):
    self.module = module
    self.cls = cls
    self.node = node
    self.name = node.name
    self.kind = 'method' if cls else 'function'
    for d in node.decorator_list:
      t = ast.unparse(d)
      if t == 'staticmethod' and cls:
        self.kind = 'static'
      elif t == 'classmethod' and cls:
        self.kind = 'class'
      else:
        raise No('decorated')
    a = node.args
    if a.vararg or a.kwarg or a.posonlyargs:
      raise No('parameters')
    for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
      if not isinstance(d, ast.Constant) and not (
          isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant)):
        raise No('default')
    self.params = [x.arg for x in a.args + a.kwonlyargs]
    self.defaults = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    self.defaults.update({x.arg: d for x, d in zip(
        a.kwonlyargs, a.kw_defaults) if d is not None})
    self.positional = [x.arg for x in a.args]
    body = list(node.body)
    if body and isinstance(body[0], ast.Expr) and isinstance(
        body[0].value, ast.Constant):
      body = body[1:]
    self.body = body
    for n in body:
      for x in ast.walk(n):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global,
                          ast.Nonlocal) + SCOPES):
          raise No(type(x).__name__)
        if isinstance(x, ast.Name) and x.id in (
            'super', 'locals', '__class__'):
          raise No(x.id)
        if isinstance(x, ast.Call) and isinstance(
            x.func, (ast.Name, ast.Attribute)) and (
                getattr(x.func, 'id', None) or x.func.attr) == self.name:
          raise No('recursive')
    self.first = None
    if self.kind in ('method', 'class'):
      if not self.positional:
        raise No('no receiver')
      self.first = self.positional[0]
      self.positional = self.positional[1:]
      self.params.remove(self.first)
    self.stored = names(body, (ast.Store, ast.Del))
    if self.first in self.stored:
      raise No('receiver changes')
    self.locals = self.stored | set(self.params)
    self.expr = (body[0].value if len(body) == 1 and isinstance(
        body[0], ast.Return) else None)
    self.size = sum(1 for n in body for x in ast.walk(n)
                    if isinstance(x, ast.stmt))
    self.sites = 0

  def free(self):
    return {n for n in names(self.body) if n not in self.locals and
            n != self.first and not hasattr(builtins, n)}


def simple(e):
  """An expression that can be repeated or moved a little."""
  if isinstance(e, ast.Constant):
    return True
  return isinstance(e, ast.Name)


def pure(e):
  return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom,
                                ast.NamedExpr, ast.Lambda)) for x in
                 ast.walk(e))


class Inliner:

  def __init__(self, trees, known):
    self.trees = trees
    self.known = known
    self.changed = set()
    self.bases = {}
    for tree in trees.values():
      for n in tree.body:
        if isinstance(n, ast.ClassDef):
          self.bases.setdefault(n.name, set()).update(
              ast.unparse(b).split('.')[-1] for b in n.bases)

  def run(self):
    stored = {n.attr for tree in self.trees.values() for n in ast.walk(tree)
              if isinstance(n, ast.Attribute) and not isinstance(
                  n.ctx, ast.Load)}
    self.constants = {
        t.id for tree in self.trees.values() for c in tree.body
        if isinstance(c, ast.ClassDef) for s in c.body
        if isinstance(s, ast.Assign) for t in s.targets
        if isinstance(t, ast.Name)} - stored
    for name in self.trees:
      self.aliases(name)
      texts = Texts()
      texts.visit(self.trees[name])
      if texts.count:
        self.changed.add(name)
      self.walrus(name)
      self.tests(name)
      self.choices(name)
      self.flags(name)
      self.loops(name)
      self.debug_only(name)
    for _ in range(12):
      if not self.helpers():
        break
    for name in self.changed:
      ast.fix_missing_locations(self.trees[name])

  # flags and loops

  def blocks(self, tree):
    for n in ast.walk(tree):
      for f in ('body', 'orelse', 'finalbody'):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
          yield b

  def functions(self, tree):
    for n in ast.walk(tree):
      if isinstance(n, ast.FunctionDef):
        yield n

  def tests(self, name):
    """not (a or b) is tested as not a and not b."""
    for n in ast.walk(self.trees[name]):
      if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        t = positive(n.test)
        if t is not n.test:
          n.test = t
          self.changed.add(name)

  def debug_only(self, name):
    """if not debug: continue, then the rest of the body, is if debug: rest."""
    for n in ast.walk(self.trees[name]):
      if isinstance(n, LOOPS):
        b = n.body
        for i, s in enumerate(b[:-1]):
          if (isinstance(s, ast.If) and not s.orelse and len(
              s.body) == 1 and isinstance(s.body[0], ast.Continue) and any(
                  isinstance(x, ast.Attribute) and x.attr == '_debug'
                  for x in ast.walk(s.test))):
            s.test = negated(s.test)
            s.body = b[i + 1:]
            del b[i + 1:]
            self.changed.add(name)
            break

  def aliases(self, name):
    """Locals that only stand for a constant of the class."""
    for f in self.functions(self.trees[name]):
      if not f.args.args or any(isinstance(x, SCOPES) for b in f.body
                                for x in ast.walk(b)):
        continue
      me = f.args.args[0].arg
      taken = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
      count = {}
      for x in ast.walk(f):
        if isinstance(x, ast.Name):
          k = (x.id, isinstance(x.ctx, ast.Load))
          count[k] = count.get(k, 0) + 1
        elif isinstance(x, ast.ExceptHandler) and x.name:
          taken.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
          taken.update(x.names)
      if count.get((me, False)):
        continue
      for b in list(self.blocks(f)):
        i = 0
        while i < len(b):
          s = b[i]
          if (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
              s.targets[0], ast.Name) and isinstance(
                  s.value, ast.Attribute) and isinstance(
                      s.value.value, ast.Name) and s.value.value.id == me and
              s.value.attr in self.constants):
            v = s.targets[0].id
            uses = sum(isinstance(x, ast.Name) and x.id == v
                       for y in b[i + 1:] for x in ast.walk(y))
            if (v not in taken and count.get((v, False)) == 1 and
                uses == count.get((v, True), 0)):
              r = Rename({v: s.value})
              b[i + 1:] = [r.visit(y) for y in b[i + 1:]]
              del b[i]
              if not b:
                b.append(ast.copy_location(ast.Pass(), s))
              self.changed.add(name)
              continue
          i += 1

  def walrus(self, name):
    """if (x := e) > 0 is x = e; if x > 0."""
    for f in self.functions(self.trees[name]):
      for b in list(self.blocks(f)):
        i = 0
        while i < len(b):
          s = b[i]
          holder, field = s, 'test'
          if isinstance(s, ast.If):
            e = s.test
            while True:
              if isinstance(e, ast.UnaryOp):
                holder, field = e, 'operand'
              elif isinstance(e, ast.Compare) or isinstance(e, ast.BinOp):
                holder, field = e, 'left'
              elif isinstance(e, ast.BoolOp):
                holder, field = e.values, 0
              else:
                break
              e = holder[0] if field == 0 else getattr(holder, field)
            if isinstance(e, ast.NamedExpr):
              use = ast.copy_location(ast.Name(e.target.id, ast.Load()), e)
              if field == 0:
                holder[0] = use
              else:
                setattr(holder, field, use)
              b.insert(i, ast.copy_location(
                  ast.Assign([e.target], e.value), s))
              self.changed.add(name)
              i += 1
          i += 1

  def choices(self, name):
    """x = a if c else b is the statement if."""
    for f in self.functions(self.trees[name]):
      for b in list(self.blocks(f)):
        for i, s in enumerate(b):
          if (isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and
              len(s.targets) == 1 and not any(
                  isinstance(x, (ast.Call, ast.Subscript))
                  for x in ast.walk(s.targets[0]))) or (
                      isinstance(s, ast.Return) and
                      isinstance(s.value, ast.IfExp)):
            e = s.value
            other = copy.deepcopy(s)
            s.value, other.value = e.body, e.orelse
            b[i] = ast.copy_location(ast.If(e.test, [s], [other]), s)
            self.changed.add(name)

  def flags(self, name):
    for f in self.functions(self.trees[name]):
      count = {}
      for x in ast.walk(f):
        if isinstance(x, ast.Name):
          k = (x.id, isinstance(x.ctx, ast.Load))
          count[k] = count.get(k, 0) + 1
      for b in self.blocks(f):
        i = 0
        while i + 1 < len(b):
          s, t = b[i], b[i + 1]
          if (isinstance(s, ast.Assign) and len(s.targets) == 1 and
              isinstance(s.targets[0], ast.Name) and isinstance(t, ast.If) and
              count.get((s.targets[0].id, True)) == count.get(
                  (s.targets[0].id, False))):
            test = t.test
            neg = (isinstance(test, ast.UnaryOp) and
                   isinstance(test.op, ast.Not))
            e = test.operand if neg else test
            v = s.targets[0].id
            # every assignment is followed by its only test
            if isinstance(e, ast.Name) and e.id == v and self.paired(
                f, v, count[(v, True)]):
              if neg:
                test.operand = s.value
              else:
                t.test = s.value
              del b[i]
              self.changed.add(name)
              k = (v, True)
              count[k] -= 1
              count[(v, False)] -= 1
              continue
          i += 1

  def paired(self, f, v, n):
    """Every test of a flag is right behind an assignment of it."""
    found = 0
    for b in self.blocks(f):
      for s, t in zip(b, b[1:]):
        if (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Name) and s.targets[0].id == v and isinstance(
                t, ast.If)):
          e = t.test
          if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e = e.operand
          if isinstance(e, ast.Name) and e.id == v and v not in names(
              [s.value]):
            found += 1
    return found == n

  def loops(self, name):
    for n in ast.walk(self.trees[name]):
      if (isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and
          n.test.value is True and not n.orelse and len(n.body) > 1):
        s = n.body[0]
        if (isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and
            isinstance(s.body[0], ast.Break)):
          n.test = negated(s.test)
          n.body = n.body[1:]
          self.changed.add(name)
    for b in list(self.blocks(self.trees[name])):
      for i, s in enumerate(b):
        w = rotated(s)
        if w is not None:
          b[i] = w
          self.changed.add(name)

  # helpers

  def find(self):
    """Helpers by name: every function that has the name, or None."""
    self.defs = {}
    plain = set()
    for m, tree in self.trees.items():
      for n in tree.body:
        if isinstance(n, ast.FunctionDef):
          plain.add(n)
          self.candidate(m, None, n)
        elif isinstance(n, ast.ClassDef):
          for x in n.body:
            if isinstance(x, ast.FunctionDef):
              plain.add(x)
              self.candidate(m, n.name, x)
    for tree in self.trees.values():
      for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n not in plain:
          self.defs.setdefault(n.name, []).append((None, None, None))
    return {k: v for k, v in self.defs.items() if any(h for _, _, h in v)}

  def candidate(self, m, cls, node):
    q = m + ':' + (cls + '.' if cls else '') + node.name
    h = None
    if not (q in self.known or node.name.startswith('__') or
            node.name == 'Main'):
      try:
        h = Helper(m, cls, node)
      except No:
        pass
    self.defs.setdefault(node.name, []).append((m, cls, h))

  def helpers(self):
    """Puts helpers back; helpers that call no other helper first."""
    table = self.find()
    if not table:
      return False
    calls = {}
    for m, tree in self.trees.items():
      for n in ast.walk(tree):
        if isinstance(n, ast.Call):
          k = (n.func.attr if isinstance(n.func, ast.Attribute) else
               getattr(n.func, 'id', None))
          if k in table:
            calls[k] = calls.get(k, 0) + 1
    leaf = set()
    for k, v in table.items():
      hs = [h for _, _, h in v if h]
      size = max(h.size for h in hs)
      n = calls.get(k, 0)
      if not n or (len(hs) == 1 and n * size > MAX_STATEMENTS):
        continue
      for h in hs:
        called = {x.func.attr if isinstance(x.func, ast.Attribute) else
                  getattr(x.func, 'id', None) for y in h.body
                  for x in ast.walk(y) if isinstance(x, ast.Call)}
        if not called & set(table):
          leaf.add(h)
    if not leaf:
      return False
    self.table = leaf
    hit = False
    for m, tree in self.trees.items():
      self.module = m
      for n in tree.body:
        if isinstance(n, ast.FunctionDef):
          hit |= self.function(n, None)
        elif isinstance(n, ast.ClassDef):
          for x in n.body:
            if isinstance(x, ast.FunctionDef):
              hit |= self.function(x, n.name)
    if hit:
      self.remove()
    return hit

  def remove(self):
    """Drops private helpers nothing refers to any more."""
    used = set()
    for tree in self.trees.values():
      for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
          used.add(n.attr)
        elif isinstance(n, ast.Name):
          used.add(n.id)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and (
            n.value in self.defs):
          used.add(n.value)
    for h in self.table:
      if h.name in used or not h.sites:
        continue
      for n in ast.walk(self.trees[h.module]):
        if isinstance(n, (ast.ClassDef, ast.Module)) and h.node in n.body:
          n.body.remove(h.node)
          if not n.body:
            n.body.append(ast.copy_location(ast.Pass(), h.node))
          self.changed.add(h.module)

  def function(self, f, cls):
    if any(h.node is f for h in self.table):
      return False
    self.f = f
    self.cls = cls
    self.hit = False
    f.body = self.block(f.body)
    return self.hit

  def block(self, body):
    out = []
    for s in body:
      if isinstance(s, SCOPES):
        out.append(s)
        continue
      for f in ('body', 'orelse', 'finalbody'):
        b = getattr(s, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
          setattr(s, f, self.block(b))
      for h in getattr(s, 'handlers', None) or []:
        h.body = self.block(h.body)
      out.extend(self.stmt(s))
    return out

  def helper_of(self, n):
    """The helper a call calls."""
    if not isinstance(n, ast.Call):
      return None
    fn = n.func
    if isinstance(fn, ast.Name):
      for m, cls, h in self.defs.get(fn.id, ()):
        if h in self.table and cls is None and m == self.module:
          return h
      return None
    if not isinstance(fn, ast.Attribute):
      return None
    defs = self.defs.get(fn.attr)
    if not defs or not isinstance(fn.value, ast.Name):
      return None
    r = fn.value.id
    args = self.f.args.posonlyargs + self.f.args.args
    own = self.cls is not None and bool(args) and args[0].arg == r and not any(
        'staticmethod' in ast.unparse(d) for d in self.f.decorator_list)
    start = self.cls if own else r
    up = self.ancestors(start)
    found = []
    for m, cls, h in defs:
      if m is None or cls in up:
        found.append((m, cls, h))
      elif own and cls is not None and start in self.ancestors(cls):
        return None  # overridden
    if len(found) != 1:
      return None
    h = found[0][2]
    if h not in self.table:
      return None
    if own:
      # the helper is found in the class itself or a class it extends
      if h.kind == 'class' and h.first in names(h.body) and not any(
          'classmethod' in ast.unparse(d) for d in self.f.decorator_list):
        return None
    elif r != h.cls or h.kind == 'method' or h.first in names(h.body):
      return None
    return h

  def ancestors(self, cls):
    out = set()
    todo = [cls]
    while todo:
      c = todo.pop()
      if c not in out:
        out.add(c)
        todo.extend(self.bases.get(c, ()))
    return out

  def usable(self, h):
    """The names a helper uses mean the same here."""
    free = h.free()
    if not free:
      return True
    mine = names([self.f], (ast.Store, ast.Del)) | {
        a.arg for a in self.f.args.args + self.f.args.kwonlyargs}
    if free & mine:
      return False
    if h.module == self.module:
      return True
    a = imports(self.trees[h.module])
    b = imports(self.trees[self.module])
    return all(n in a and a[n] == b.get(n) for n in free)

  def bind(self, h, call):
    """Pairs of parameters and arguments in the order of evaluation."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(
        k.arg is None for k in call.keywords):
      raise No('starred')
    if len(call.args) > len(h.positional):
      raise No('arguments')
    pairs = list(zip(h.positional, call.args))
    for k in call.keywords:
      pairs.append((k.arg, k.value))
    given = {p for p, _ in pairs}
    if len(given) != len(pairs) or not given <= set(h.params):
      raise No('arguments')
    for p in h.params:
      if p not in given:
        if p not in h.defaults:
          raise No('arguments')
        pairs.append((p, h.defaults[p]))
    return pairs

  def stmt(self, s):
    for _ in range(50):
      new = self.one(s)
      if new is None:
        return [s]
      if len(new) > 1 or new[0] is not s:
        # the statement itself may hold further calls
        out = []
        for x in new:
          if x is s:
            out.extend(self.stmt(s))
          else:
            out.append(x)
        return out
    return [s]

  def heads(self, s):
    """The expressions of a statement that are evaluated when it starts."""
    if isinstance(s, (ast.Expr, ast.Return)):
      return [('value', s.value)] if s.value is not None else []
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
      return [('value', s.value)] if s.value is not None else []
    if isinstance(s, ast.If):
      return [('test', s.test)]
    if isinstance(s, ast.For):
      return [('iter', s.iter)]
    if isinstance(s, ast.Raise):
      return [('exc', s.exc)] if s.exc is not None else []
    return []

  def one(self, s):
    """Puts back one helper called in a statement."""
    # helpers that only compute an expression
    if not isinstance(s, SCOPES):
      sub = Substitute(self, s)
      sub.run()
      if sub.count:
        self.note()
    for field, e in self.heads(s):
      calls = [x for x in walk_now(e) if self.helper_of(x)]
      for c in calls:
        h = self.helper_of(c)
        try:
          if not self.usable(h):
            raise No('names')
          if c is e and field == 'value':
            new = self.whole(s, h, c)
          else:
            new = self.part(s, field, e, h, c)
        except No:
          continue
        h.sites += 1
        self.note()
        return new
    return None

  def note(self):
    self.hit = True
    self.changed.add(self.module)

  def fresh(self, base, taken):
    n = base
    i = 2
    while n in taken or hasattr(builtins, n):
      n = '%s_%d' % (base, i)
      i += 1
    taken.add(n)
    return n

  def prepare(self, h, call, want=()):
    """The statements that bind parameters, and the renamed body."""
    mine = names([self.f]) | {
        a.arg for a in self.f.args.args + self.f.args.kwonlyargs}
    taken = set(mine) | h.free()
    body = copy.deepcopy(h.body)
    table = {}
    if h.first:
      table[h.first] = copy.deepcopy(call.func.value)
    pairs = self.bind(h, call)
    # what a helper returns in a name of its own is given the name it gets
    direct = {}
    if want:
      got = [r.value for n in body for r in ast.walk(n)
             if isinstance(r, ast.Return)]
      shapes = set()
      for v in got:
        e = v.elts if isinstance(v, ast.Tuple) else [v]
        shapes.add(tuple(x.id if isinstance(x, ast.Name) and
                         isinstance(x.ctx, ast.Load) else None for x in e))
      if len(shapes) == 1:
        shape = next(iter(shapes))
        if len(shape) == len(want):
          used = {}
          for _, a in pairs:
            for y in ast.walk(a):
              if isinstance(y, ast.Name):
                used[y.id] = used.get(y.id, 0) + 1
          given = {p: a for p, a in pairs}
          for x, w in zip(shape, want):
            a = given.get(x)
            if (x and w and x in h.stored and isinstance(a, ast.Name) and
                a.id == w and used[w] == 1 and shape.count(x) == 1 and
                w not in h.free() and (w == x or w not in h.locals)):
              # changed in place
              direct[x] = w
            elif (x and w and x in h.stored and x not in h.params and
                shape.count(x) == 1 and w not in used and
                w not in h.free() and (w == x or w not in h.locals)):
              direct[x] = w
    setup = []
    for p, a in pairs:
      if p in direct:
        table[p] = direct[p]
        continue
      if p not in h.stored and (isinstance(a, ast.Constant) or (
          isinstance(a, ast.Name) and a.id not in direct.values())):
        table[p] = copy.deepcopy(a)
        continue
      n = self.fresh(p, taken)
      table[p] = n
      setup.append(ast.copy_location(
          ast.Assign([ast.Name(n, ast.Store())], copy.deepcopy(a)), call))
    for v in sorted(h.stored):
      if v in table:
        continue
      if v in direct:
        table[v] = direct[v]
        taken.add(direct[v])
        continue
      n = self.fresh(v, taken)
      if n != v:
        table[v] = n
    rn = Rename(table)
    body = [rn.visit(n) for n in body]
    return setup, body

  def in_try(self, target):
    """Handlers could see a name that is assigned earlier than before."""
    for n in ast.walk(self.f):
      if isinstance(n, ast.Try):
        if target in names([x for h in n.handlers for x in h.body] +
                           list(n.finalbody), ast.Load):
          return True
    return False

  def whole(self, s, h, c):
    if isinstance(s, ast.Return):
      setup, body = self.prepare(h, c)
      if not ends(body):
        body.append(ast.copy_location(ast.Return(ast.Constant(None)), c))
      return setup + body
    if isinstance(s, ast.Expr):
      setup, body = self.prepare(h, c)

      def give(v, at):
        if v is None or isinstance(v, (ast.Constant, ast.Name)):
          return []
        return [ast.copy_location(ast.Expr(v), at)]
      out = setup + single_exit(body, give)
      return out or [ast.copy_location(ast.Pass(), s)]
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
      t = s.targets[0]
      want = []
      if isinstance(t, ast.Name):
        want = [t.id]
      elif isinstance(t, ast.Tuple) and all(
          isinstance(x, ast.Name) for x in t.elts):
        want = [x.id for x in t.elts]
      elif not isinstance(t, ast.Attribute) or not isinstance(
          t.value, ast.Name):
        raise No('target')
      want = [None if self.in_try(w) else w for w in want]
      setup, body = self.prepare(h, c, want)

      def give(v, at):
        if v is None:
          v = ast.Constant(None)
        at = at or c
        v = copy.deepcopy(v)
        if isinstance(v, ast.Name) and isinstance(
            t, ast.Name) and v.id == t.id:
          return []
        if isinstance(v, ast.Tuple) and isinstance(
            t, ast.Tuple) and len(v.elts) == len(t.elts):
          keep = [(x, y) for x, y in zip(t.elts, v.elts) if not (
              isinstance(y, ast.Name) and isinstance(x, ast.Name) and
              x.id == y.id)]
          if not keep:
            return []
          tn = {x.id for x, _ in keep if isinstance(x, ast.Name)}
          if not tn & names([y for _, y in keep]):
            return [ast.copy_location(ast.Assign(
                [copy.deepcopy(x)], y), at) for x, y in keep]
        return [ast.copy_location(
            ast.Assign([copy.deepcopy(t)], v), at)]
      return setup + single_exit(body, give)
    raise No('statement')

  def part(self, s, field, e, h, c):
    """A call within an expression: its result is computed before."""
    if h.expr is not None:
      raise No('expression')  # was substituted if it could
    for x in before(e, c):
      if not isinstance(x, (ast.Constant, ast.Name, ast.Attribute,
                            ast.expr_context, ast.operator, ast.cmpop,
                            ast.unaryop, ast.boolop, ast.keyword)):
        raise No('order of evaluation')
      if isinstance(x, ast.Name) and x.id in h.stored:
        pass
    if not always(e, c):
      raise No('not always evaluated')
    taken = names([self.f]) | h.free() | h.locals | {
        a.arg for a in self.f.args.args + self.f.args.kwonlyargs}
    tmp = self.fresh('result_of' + h.name.lower(), taken)
    a = ast.copy_location(ast.Assign(
        [ast.copy_location(ast.Name(tmp, ast.Store()), c)], c), c)
    new = self.whole(a, h, c)
    setattr(s, field, Swap(c, ast.copy_location(
        ast.Name(tmp, ast.Load()), c)).visit(e))
    return new + [s]


class Swap(ast.NodeTransformer):

  def __init__(self, old, new):
    self.old = old
    self.new = new

  def visit(self, n):
    if n is self.old:
      return self.new
    return self.generic_visit(n)


class Substitute(ast.NodeTransformer):
  """Calls of helpers that only compute an expression."""

  def __init__(self, inl, s):
    self.inl = inl
    self.s = s
    self.count = 0

  def run(self):
    for f, v in list(ast.iter_fields(self.s)):
      if f in ('body', 'orelse', 'finalbody', 'handlers') and isinstance(
          v, list):
        continue
      if isinstance(v, list):
        setattr(self.s, f, [self.visit(x) if isinstance(x, ast.AST) else x
                            for x in v])
      elif isinstance(v, ast.AST):
        setattr(self.s, f, self.visit(v))

  def visit_Call(self, n):
    self.generic_visit(n)
    h = self.inl.helper_of(n)
    if h is None or h.expr is None or not self.inl.usable(h):
      return n
    # comprehensions and walrus bind names
    if h.stored:
      return n
    try:
      pairs = self.inl.bind(h, n)
    except No:
      return n
    uses = {}
    for x in ast.walk(h.expr):
      if isinstance(x, ast.Name):
        uses[x.id] = uses.get(x.id, 0) + 1
    complicated = 0
    table = {}
    for p, a in pairs:
      if not (isinstance(a, (ast.Constant, ast.Name)) or pure(a)):
        complicated += 1
        if uses.get(p, 0) != 1 or not always(h.expr, None, p):
          return n
      table[p] = a
    if complicated and (len(pairs) > 1 or first_load(h.expr) not in table):
      return n
    if h.first:
      table[h.first] = n.func.value
    h.sites += 1
    self.count += 1
    e = Rename(table).visit(copy.deepcopy(h.expr))
    return e


def first_load(e):
  for x in walk_now(e):
    if isinstance(x, ast.Name):
      return x.id
  return None


def walk_now(e):
  """The nodes of an expression in the order of evaluation, roughly."""
  if isinstance(e, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp,
                    ast.DictComp)):
    return
  if isinstance(e, ast.IfExp):
    yield from walk_now(e.test)
    yield from walk_now(e.body)
    yield from walk_now(e.orelse)
    yield e
    return
  for x in ast.iter_child_nodes(e):
    yield from walk_now(x)
  yield e


def before(e, c):
  """What is evaluated before the call starts."""
  inside = {id(x) for x in ast.walk(c)}
  for x in walk_now(e):
    if x is c:
      return
    if id(x) not in inside:
      yield x


def always(e, c, name=None):
  """A part of an expression is evaluated whenever the expression is."""
  if e is c or (name and isinstance(e, ast.Name) and e.id == name):
    return True
  if isinstance(e, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp,
                    ast.DictComp)):
    return False
  if isinstance(e, ast.BoolOp):
    return always(e.values[0], c, name)
  if isinstance(e, ast.IfExp):
    return always(e.test, c, name)
  if isinstance(e, ast.Compare) and len(e.ops) > 1:
    return always(e.left, c, name)
  return any(always(x, c, name) for x in ast.iter_child_nodes(e))


class Texts(ast.NodeTransformer):
  """Formatted text in the form of f-strings."""

  def __init__(self):
    self.count = 0

  def done(self, parts, at):
    out = []
    for p in parts:
      if isinstance(p, str):
        p = ast.Constant(p)
      if isinstance(p, ast.Constant):
        if not p.value:
          continue
        if out and isinstance(out[-1], ast.Constant):
          out[-1] = ast.Constant(out[-1].value + p.value)
          continue
      out.append(p)
    self.count += 1
    return ast.copy_location(ast.JoinedStr(out), at)

  @staticmethod
  def value(e, conversion, spec):
    return ast.FormattedValue(e, conversion, ast.JoinedStr(
        [ast.Constant(spec)]) if spec else None)

  def visit_Call(self, n):
    self.generic_visit(n)
    f = n.func
    if not isinstance(f, ast.Attribute) or not isinstance(
        f.value, ast.Constant) or not isinstance(f.value.value, str):
      return n
    if f.attr == 'format':
      return self.formatted(n) or n
    if (f.attr == 'join' and f.value.value == '' and len(n.args) == 1 and
        not n.keywords and isinstance(n.args[0], (ast.List, ast.Tuple))):
      parts = []
      for e in n.args[0].elts:
        if isinstance(e, ast.JoinedStr):
          parts.extend(e.values)
        elif isinstance(e, ast.Constant) and isinstance(e.value, str):
          parts.append(e)
        else:
          return n
      return self.done(parts, n)
    return n

  def formatted(self, n):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(
        k.arg is None for k in n.keywords):
      return None
    given = {k.arg: k.value for k in n.keywords}
    parts = []
    order = []
    number = 0
    try:
      fields = list(string.Formatter().parse(n.func.value.value))
    except ValueError:
      return None
    for literal, name, spec, conversion in fields:
      parts.append(literal)
      if name is None:
        continue
      if '{' in spec:
        return None
      if name == '':
        name = number
        number += 1
      elif name.isdigit():
        name = int(name)
      if isinstance(name, int):
        if name >= len(n.args):
          return None
        e = n.args[name]
      elif name in given:
        e = given[name]
      else:
        return None
      order.append(name)
      parts.append(self.value(copy.deepcopy(e), ord(conversion) if conversion
                              else -1, spec))
    want = list(range(len(n.args))) + [k.arg for k in n.keywords]
    if order != want and not all(pure(a) for a in list(n.args) + list(
        given.values())):
      return None
    if set(order) != set(want):
      return None
    return self.done(parts, n)

  def visit_BinOp(self, n):
    self.generic_visit(n)
    if not isinstance(n.op, ast.Mod) or not isinstance(
        n.left, ast.Constant) or not isinstance(n.left.value, str):
      return n
    args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
    parts = []
    at = 0
    todo = list(args)
    t = n.left.value
    for m in re.finditer(r'%(%|(0?\d*)([sdxX])|.)', t):
      parts.append(t[at:m.start()])
      at = m.end()
      if m.group(1) == '%':
        parts.append('%')
        continue
      if not m.group(3) or not todo:
        return n
      if m.group(3) == 's' and (m.group(2) or not isinstance(
          n.right, ast.Tuple)):
        return n
      e = todo.pop(0)
      if m.group(3) == 's':
        parts.append(self.value(e, ord('s'), ''))
      else:
        parts.append(self.value(e, -1, m.group(2) + m.group(3)))
    if todo:
      return n
    parts.append(t[at:])
    return self.done(parts, n)


def positive(e):
  """A test with the same truth value, with not moved to its terms."""
  if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
    x = e.operand
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
      return positive(x.operand)
    if isinstance(x, ast.BoolOp):
      op = ast.And() if isinstance(x.op, ast.Or) else ast.Or()
      return ast.copy_location(ast.BoolOp(op, [positive(
          ast.copy_location(ast.UnaryOp(ast.Not(), v), v))
                                               for v in x.values]), e)
    return e
  if isinstance(e, ast.BoolOp):
    vs = [positive(v) for v in e.values]
    if any(a is not b for a, b in zip(vs, e.values)):
      return ast.copy_location(ast.BoolOp(e.op, vs), e)
  return e


def negated(e):
  if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
    return e.operand
  if isinstance(e, ast.Compare) and len(e.ops) == 1:
    pairs = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
             ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
             ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE,
             ast.LtE: ast.Gt}
    op = pairs.get(type(e.ops[0]))
    if op:
      return ast.copy_location(ast.Compare(
          e.left, [op()], e.comparators), e)
  return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)


def own_continue(body):
  for s in body:
    if isinstance(s, ast.Continue):
      return True
    if isinstance(s, LOOPS):
      if own_continue(s.orelse):
        return True
      continue
    for f in ('body', 'orelse', 'finalbody'):
      if own_continue(getattr(s, f, None) or []):
        return True
    if any(own_continue(h.body) for h in getattr(s, 'handlers', ())):
      return True
  return False


def rotated(s):
  """if c: while True: body; if not c: break -- is while c: body."""
  if not (isinstance(s, ast.If) and not s.orelse and len(s.body) == 1):
    return None
  w = s.body[0]
  if not (isinstance(w, ast.While) and isinstance(w.test, ast.Constant) and
          w.test.value is True and not w.orelse and len(w.body) > 1):
    return None
  e = w.body[-1]
  if not (isinstance(e, ast.If) and not e.orelse and len(e.body) == 1 and
          isinstance(e.body[0], ast.Break)) or own_continue(w.body):
    return None
  if ast.dump(positive(negated(e.test))) != ast.dump(positive(s.test)):
    return None
  del w.body[-1]
  w.test = s.test
  return w


def imports(tree):
  out = {}
  for n in tree.body:
    if isinstance(n, ast.Import):
      for a in n.names:
        out[a.asname or a.name.split('.')[0]] = a.name
    elif isinstance(n, ast.ImportFrom):
      for a in n.names:
        out[a.asname or a.name] = (n.module or '') + '.' + a.name
  return out


def normalise(trees):
  """Returns the modules that changed: name to (tree, line numbers)."""
  with open(SPEC, encoding='utf8') as f:
    known = set(json.load(f))
  renamed = renames.undo(trees)
  inl = Inliner(trees, known)
  inl.changed |= renamed
  inl.run()
  out = {}
  for name in inl.changed:
    old = trees[name]
    new = ast.parse(ast.unparse(old))
    lines = {}
    for a, b in zip(ast.walk(old), ast.walk(new)):
      if type(a) is not type(b):
        break
      if hasattr(b, 'lineno') and hasattr(a, 'lineno'):
        lines.setdefault(b.lineno, a.lineno)
    out[name] = (new, lines)
  return out


def source_lines():
  """The lines of the source files that were normalised, by file."""
  repo = os.environ.get('DTF_REPO', '/repo')
  trees = {}
  for d in ('dtformats', 'scripts'):
    for path in sorted(glob.glob(os.path.join(repo, d, '*.py'))):
      with open(path, encoding='utf8') as f:
        base = os.path.splitext(os.path.basename(path))[0]
        trees[d if base == '__init__' else d + '.' + base] = ast.parse(
            f.read())
  return {name.replace('.', '/') + '.py': lines
          for name, (_, lines) in normalise(trees).items()}
