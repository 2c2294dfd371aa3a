"""Loads the program under analysis."""

import ast
import glob
import hashlib
import os
import re

from sa import inline
from sa import layouts

REPO = os.environ.get('DTF_REPO', '/repo')


class AnalysisBroken(Exception):
  """The analysis can give no verdict (an anchor is missing, say)."""


class Func:
  """A function or method."""

  def __init__(self, q, node, module, cls):
    self.q = q
    self.node = node
    self.module = module
    self.cls = cls
    self.name = node.name if hasattr(node, 'name') else '<lambda>'
    self.kind = 'method' if cls else 'function'
    self.is_property = False
    self.is_abstract = False
    self.setter = False
    for d in getattr(node, 'decorator_list', []):
      t = ast.unparse(d)
      if t == 'property':
        self.is_property = True
      elif t == 'classmethod':
        self.kind = 'class'
      elif t == 'staticmethod':
        self.kind = 'static'
      elif 'abstractmethod' in t:
        self.is_abstract = True
      elif t.endswith('.setter'):
        self.setter = True
    self.is_gen = False
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
      n = stack.pop()
      if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        continue
      if isinstance(n, (ast.Yield, ast.YieldFrom)):
        self.is_gen = True
      stack.extend(ast.iter_child_nodes(n))
    self._locals = None
    self.doc_types = None

  @property
  def locals(self):
    if self._locals is None:
      names = set()
      a = self.node.args
      for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
      for x in (a.vararg, a.kwarg):
        if x:
          names.add(x.arg)
      body = self.node.body if isinstance(self.node.body, list) else []
      stack = list(body)
      while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
          names.add(n.name)
          continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
          continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
          names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
          names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
          for al in n.names:
            names.add((al.asname or al.name).split('.')[0])
        stack.extend(ast.iter_child_nodes(n))
      self._locals = names
    return self._locals

  @property
  def where(self):
    return '%s:%s' % (self.module.rel, self.q.split(':', 1)[1])


class Class:
  """A class."""

  def __init__(self, q, node, module):
    self.q = q
    self.node = node
    self.module = module
    self.name = node.name
    self.methods = {}
    self.setters = {}
    self.bases = []       # class names or 'ext:dotted'
    self.mro = None
    self.ext_bases = []
    self.class_attrs = {}  # name -> value, filled by the interpreter
    self.subclasses = set()


class Module:
  """A source file."""

  def __init__(self, name, path, rel, text):
    self.name = name
    self.path = path
    self.rel = rel
    self.text = text
    self.tree = ast.parse(text, filename=rel)
    self.env = None
    self.imports = {}


class Project:
  """All modules, classes, functions and definition files."""

  def __init__(self, repo=REPO):
    self.repo = repo
    self.modules = {}
    self.classes = {}
    self.functions = {}
    h = hashlib.sha256()
    pats = [('dtformats', 'dtformats/*.py'), ('scripts', 'scripts/*.py')]
    for pkg, pat in pats:
      for path in sorted(glob.glob(os.path.join(repo, pat))):
        base = os.path.splitext(os.path.basename(path))[0]
        name = pkg if base == '__init__' else pkg + '.' + base
        with open(path, encoding='utf8') as f:
          text = f.read()
        h.update(text.encode())
        try:
          self.modules[name] = Module(
              name, path, os.path.relpath(path, repo), text)
        except SyntaxError as e:
          raise AnalysisBroken('%s does not parse: %s' % (path, e))
    if len(self.modules) < 40:
      raise AnalysisBroken(
          'only %d modules found in %s' % (len(self.modules), repo))
    for name, (tree, _) in inline.normalise(
        {k: m.tree for k, m in self.modules.items()}).items():
      self.modules[name].tree = tree
    self.fabrics, self.debugs = layouts.load(os.path.join(repo, 'dtformats'))
    self.digest = h.hexdigest()
    for m in self.modules.values():
      self._index(m)
    for c in self.classes.values():
      self._resolve_bases(c)
    for c in self.classes.values():
      c.mro = self._mro(c, set())
      for b in c.mro[1:]:
        self.classes[b].subclasses.add(c.q)

  def _index(self, m):
    for n in m.tree.body:
      self._index_stmt(m, n, None)

  def _index_stmt(self, m, n, cls):
    if isinstance(n, ast.FunctionDef):
      q = m.name + ':' + ((cls.name + '.') if cls else '') + n.name
      f = Func(q, n, m, cls)
      if f.setter and cls:
        q += '@setter'
        f.q = q
        cls.setters[n.name] = f
      elif cls:
        cls.methods[n.name] = f
      self.functions[q] = f
    elif isinstance(n, ast.ClassDef) and cls is None:
      c = Class(m.name + ':' + n.name, n, m)
      self.classes[c.q] = c
      for b in n.body:
        self._index_stmt(m, b, c)
    elif isinstance(n, (ast.If, ast.Try)):
      for b in ast.iter_child_nodes(n):
        if isinstance(b, ast.stmt):
          self._index_stmt(m, b, cls)
    elif isinstance(n, ast.Import):
      for a in n.names:
        if a.asname:
          m.imports[a.asname] = a.name
        else:
          m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
    elif isinstance(n, ast.ImportFrom):
      for a in n.names:
        m.imports[a.asname or a.name] = (n.module or '') + '.' + a.name

  def resolve_dotted(self, m, node):
    """Dotted name of an expression, through the imports of its module."""
    parts = []
    while isinstance(node, ast.Attribute):
      parts.append(node.attr)
      node = node.value
    if not isinstance(node, ast.Name):
      return None
    parts.append(node.id)
    parts.reverse()
    if m.name + ':' + parts[0] in self.classes and len(parts) == 1:
      return m.name + ':' + parts[0]
    head = m.imports.get(parts[0])
    if head is None:
      return parts[0] if len(parts) == 1 else '.'.join(parts)
    full = '.'.join([head] + parts[1:])
    mod, _, last = full.rpartition('.')
    if mod in self.modules and mod + ':' + last in self.classes:
      return mod + ':' + last
    return full

  def _resolve_bases(self, c):
    for b in c.node.bases:
      d = self.resolve_dotted(c.module, b)
      if d in self.classes:
        c.bases.append(d)
      elif d != 'object':
        c.ext_bases.append(d or ast.unparse(b))

  def _mro(self, c, seen):
    if c.q in seen:
      raise AnalysisBroken('inheritance cycle at %s' % c.q)
    out = [c.q]
    for b in c.bases:
      for x in self._mro(self.classes[b], seen | {c.q}):
        if x in out:
          out.remove(x)
        out.append(x)
    return out

  def ext_bases(self, clsq):
    out = []
    for b in self.classes[clsq].mro:
      out.extend(self.classes[b].ext_bases)
    return out

  def find_method(self, clsq, name, after=None):
    """Finds a method by name, optionally after a class in the order."""
    mro = self.classes[clsq].mro
    if after is not None:
      mro = mro[mro.index(after) + 1:] if after in mro else []
    for b in mro:
      f = self.classes[b].methods.get(name)
      if f:
        return f
    return None

  def abstract_methods(self, clsq):
    out = set()
    for b in self.classes[clsq].mro:
      for n, f in self.classes[b].methods.items():
        if f.is_abstract and self.find_method(clsq, n) is f:
          out.add(n)
    return out


_ARG = re.compile(r'^\s+\*{0,2}(\w+) \((.*?)\): ', re.S)


def doc_args(node):
  """Argument types the docstring states: name -> type text."""
  doc = ast.get_docstring(node, clean=True) or ''
  m = re.search(r'^Args:\n(.*?)(?:\n\n|\n\S|\Z)', doc, re.S | re.M)
  out = {}
  if not m:
    return out
  for line in re.split(r'\n(?=  \w|  \*)', '\n' + m.group(1)):
    a = re.match(r'\s*\*{0,2}(\w+) \((.+?)\):', line, re.S)
    if a:
      out[a.group(1)] = re.sub(r'\s+', ' ', a.group(2))
  return out
