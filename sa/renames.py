"""Gives private methods and attributes the names they were reviewed with.

A private function or attribute that is not among the reviewed ones
(spec/names.json), in the place of a reviewed one that is gone, is the same
under another name: the new name is replaced by the old one everywhere, in
strings that name callbacks too. The new name must be one that nothing else
has, and the old one must not be in use in the class or its relatives, so
that this never makes two things of a program into one.
"""

import ast
import json
import os

SPEC = os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec',
    'names.json')


def private(name):
  return name.startswith('_') and not name.startswith('__')


def params(f):
  a = f.args
  return len(a.posonlyargs + a.args), len(a.kwonlyargs), bool(
      a.vararg), bool(a.kwarg)


def attributes(cls):
  """Private names that a class binds, in the order in which it does."""
  out = []
  for n in cls.body:
    for t in (n.targets if isinstance(n, ast.Assign) else
              [n.target] if isinstance(n, ast.AnnAssign) else []):
      if isinstance(t, ast.Name) and private(t.id):
        out.append(t.id)
  for f in cls.body:
    if isinstance(f, ast.FunctionDef) and f.args.args:
      me = f.args.args[0].arg
      stores = [n for n in ast.walk(f) if isinstance(n, ast.Attribute)
                and isinstance(n.ctx, ast.Store)
                and isinstance(n.value, ast.Name) and n.value.id == me
                and private(n.attr)]
      stores.sort(key=lambda n: (n.lineno, n.col_offset))
      out.extend(n.attr for n in stores)
  return list(dict.fromkeys(out))


def describe(trees):
  """Functions and attributes of modules and classes."""
  out = {}
  for m, tree in trees.items():
    out[m + ':'] = {'functions': {
        n.name: list(params(n)) for n in tree.body
        if isinstance(n, ast.FunctionDef)}, 'attributes': []}
    for c in tree.body:
      if isinstance(c, ast.ClassDef):
        out[m + ':' + c.name] = {
            'functions': {n.name: list(params(n)) for n in c.body
                          if isinstance(n, ast.FunctionDef)},
            'attributes': attributes(c)}
  return out


def relatives(trees):
  """Classes by name: names of classes above and below."""
  bases = {}
  for tree in trees.values():
    for c in tree.body:
      if isinstance(c, ast.ClassDef):
        bases.setdefault(c.name, set()).update(
            ast.unparse(b).split('.')[-1] for b in c.bases)

  def up(c):
    seen, todo = set(), [c]
    while todo:
      for b in bases.get(todo.pop(), ()):
        if b not in seen:
          seen.add(b)
          todo.append(b)
    return seen
  ups = {c: up(c) for c in bases}
  return {c: ups[c] | {d for d in bases if c in ups[d]} for c in bases}


def pairs(spec, now, rel):
  """Pairs of new and old names."""
  known = set()
  for d in spec.values():
    known |= set(d['functions']) | set(d['attributes'])
  users = {}
  for k, d in now.items():
    for n in list(d['functions']) + d['attributes']:
      users.setdefault(n, set()).add(k)
  found, bad = {}, set()

  def pair(k, new, old):
    cls = k.split(':')[1]
    near = {o for o in now if o == k or o.split(':')[1] in rel.get(cls, ())}
    if users.get(old, set()) & near or (
        not cls and users.get(old, set()) & {k}):
      bad.add(new)
    elif found.setdefault(new, old) != old:
      bad.add(new)

  for k, d in now.items():
    if k not in spec:
      continue
    was = spec[k]
    fresh = [n for n in d['functions'] if private(n) and n not in known]
    gone = [n for n in was['functions'] if private(n) and
            n not in d['functions']]
    for old in gone:
      like = [n for n in fresh if d['functions'][n] == was['functions'][old]]
      same = [n for n in gone
              if was['functions'][n] == was['functions'][old]]
      if len(like) == len(same) == 1:
        pair(k, like[0], old)
    fresh = [n for n in d['attributes'] if n not in known]
    gone = [n for n in was['attributes'] if n not in d['attributes']]
    if len(fresh) == len(gone):
      for new, old in zip(fresh, gone):
        pair(k, new, old)
  for new in found:
    # every class that binds the new name gives it up for the same old one
    for k in users.get(new, ()):
      if k not in spec or found[new] not in (
          list(spec[k]['functions']) + spec[k]['attributes']):
        bad.add(new)
  olds = list(found.values())
  return {n: o for n, o in found.items()
          if n not in bad and olds.count(o) == 1}


class Apply(ast.NodeTransformer):

  def __init__(self, names):
    self.names = names
    self.count = 0

  def new(self, name):
    if name in self.names:
      self.count += 1
      return self.names[name]
    return name

  def visit_FunctionDef(self, node):
    node.name = self.new(node.name)
    self.generic_visit(node)
    return node

  def visit_Attribute(self, node):
    node.attr = self.new(node.attr)
    self.generic_visit(node)
    return node

  def visit_Name(self, node):
    node.id = self.new(node.id)
    return node

  def visit_Constant(self, node):
    if isinstance(node.value, str):
      node.value = self.new(node.value)
    return node


def undo(trees):
  """Undoes renames; returns the names of the modules that changed."""
  with open(SPEC, encoding='utf8') as f:
    spec = json.load(f)
  names = pairs(spec, describe(trees), relatives(trees))
  if not names:
    return set()
  # a local name of the same spelling
  for tree in trees.values():
    for n in ast.walk(tree):
      if isinstance(n, ast.arg) or (
          isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)):
        x = n.arg if isinstance(n, ast.arg) else n.id
        if x in names and not any(
            isinstance(c, ast.ClassDef) and x in attributes(c)
            for c in tree.body):
          del names[x]
  out = set()
  for m, tree in trees.items():
    a = Apply(names)
    a.visit(tree)
    if a.count:
      out.add(m)
  return out
