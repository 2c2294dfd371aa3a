"""C17: files are reached through the file system helper only."""

import ast

from checks import c08
from checks import common
from sa import both
from sa import project as P
from sa import values as V

FS_ACCESS = {
    'builtins.open', 'io.open', 'codecs.open', 'os.open', 'os.stat',
    'os.lstat', 'os.listdir', 'os.scandir', 'os.walk', 'os.fwalk',
    'os.access', 'os.readlink', 'os.path.exists', 'os.path.lexists',
    'os.path.isfile', 'os.path.isdir', 'os.path.islink', 'os.path.ismount',
    'os.path.getsize', 'os.path.getmtime', 'os.path.getctime',
    'os.path.getatime', 'os.path.samefile', 'os.path.realpath', 'glob.glob',
    'glob.iglob', 'glob.glob0', 'glob.glob1', 'pathlib.Path',
    'pathlib.PosixPath', 'fileinput.input', 'linecache.getline',
    'gzip.open', 'bz2.open', 'lzma.open'}


def helper_classes(proj):
  """Implementations of the file system helper interface."""
  return {q for q, c in proj.classes.items()
          if 'OpenFileByPath' in c.methods}


class PackagePaths:
  """Whether an expression is a path inside the package (its own data)."""

  def __init__(self, proj):
    self.p = proj
    self.sites = None

  def call_sites(self, name):
    if self.sites is None:
      self.sites = {}
      for m in self.p.modules.values():
        owner = {}

        def walk(n, f, m=m):
          for c in ast.iter_child_nodes(n):
            g = c if isinstance(c, ast.FunctionDef) else f
            if isinstance(c, ast.Call):
              fn = c.func
              nm = fn.attr if isinstance(fn, ast.Attribute) else (
                  fn.id if isinstance(fn, ast.Name) else None)
              self.sites.setdefault(nm, []).append((m, g, c))
            walk(c, g)
        walk(m.tree, None)
        del owner
    return self.sites.get(name, [])

  def class_value(self, name):
    for c in self.p.classes.values():
      for s in c.node.body:
        if isinstance(s, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == name for t in s.targets):
          return s.value
    return None

  def is_package(self, expr, func, depth=0, top=True):
    """Whether the path starts in the package directory."""
    if depth > 8 or expr is None:
      return False
    if isinstance(expr, ast.Name):
      if expr.id == '__file__':
        return True
      if func is not None:
        names = [a.arg for a in func.args.args]
        stores = [n for n in ast.walk(func) if isinstance(
            n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and any(
                isinstance(t, ast.Name) and t.id == expr.id for t in (
                    n.targets if isinstance(n, ast.Assign) else [n.target]))]
        if stores:
          return all(self.is_package(s.value, func, depth + 1)
                     for s in stores)
        if expr.id in names:
          i = names.index(expr.id)
          sites = self.call_sites(func.name)
          ok = bool(sites)
          for m, g, c in sites:
            arg = None
            for k in c.keywords:
              if k.arg == expr.id:
                arg = k.value
            j = i - (1 if names[0] in ('self', 'cls') else 0)
            if arg is None and j < len(c.args):
              arg = c.args[j]
            if not self.is_package(arg, g, depth + 1):
              ok = False
          return ok
      for m in self.p.modules.values():
        for s in m.tree.body:
          if isinstance(s, ast.Assign) and any(
              isinstance(t, ast.Name) and t.id == expr.id
              for t in s.targets):
            return self.is_package(s.value, None, depth + 1)
      return False
    if isinstance(expr, ast.Attribute):
      v = self.class_value(expr.attr)
      return v is not None and self.is_package(v, None, depth + 1)
    if isinstance(expr, ast.Call):
      fn = ast.unparse(expr.func)
      if fn.endswith(('join', 'dirname', 'abspath', 'realpath', 'normpath')):
        args = expr.args
        if args and isinstance(args[0], (ast.List, ast.Tuple)):
          args = args[0].elts
        return bool(args) and self.is_package(args[0], func, depth + 1)
      # a helper that returns a path
      name = fn.split('.')[-1]
      hits = [f for f in self.p.functions.values() if f.name == name]
      if hits:
        rets = [n.value for f in hits for n in ast.walk(f.node)
                if isinstance(n, ast.Return)]
        return bool(rets) and all(
            self.is_package(r, f.node, depth + 1)
            for f in hits for r in [
                n.value for n in ast.walk(f.node)
                if isinstance(n, ast.Return)])
      return False
    if isinstance(expr, ast.JoinedStr):
      first = expr.values[0]
      return isinstance(first, ast.FormattedValue) and self.is_package(
          first.value, func, depth + 1)
    if isinstance(expr, ast.BinOp):
      return self.is_package(expr.left, func, depth + 1)
    return False


def extract(it):
  attrs = {}
  for (clsq, name), v in it.attrs.items():
    if name == '_file_system_helper':
      attrs[clsq] = 'given' if V.ANY == v or any(
          t[0] == 'inst' and 'Native' not in t[1] for t in v) else 'local'
  return {'stats': common.stats(it),
          'events': common.events(it, ('helper', 'ext-call')),
          'attrs': attrs}


def check(rep):
  rep.rule(
      'Outside the implementations of the file system helper, the library '
      'reaches no file by a direct call (the definition files of the package '
      'itself excepted, whose paths derive from __file__), nor does a tool '
      'that can be given a helper; wherever a parser is created by code that '
      'has a helper, the helper it gets can be the one that was given; every '
      'parser that takes a helper keeps it.')
  proj = P.Project()
  helpers = helper_classes(proj)
  if len(helpers) < 2:
    from sa.report import Broken
    raise Broken('no implementations of the helper found')
  helper_methods = {id(f.node) for q in helpers
                    for f in proj.classes[q].methods.values()}
  with_helper = set()
  for m in proj.modules.values():
    if m.name.startswith('scripts.') and any(
        isinstance(n, (ast.Name, ast.Attribute)) and (
            getattr(n, 'attr', None) or getattr(n, 'id', None)) in (
                'ParseDFVFSCLIArguments', 'DFVFSFileSystemHelper')
        for n in ast.walk(m.tree)):
      with_helper.add(m.rel)
      rep.count('ob:tools with a helper')
  paths = PackagePaths(proj)
  for m in proj.modules.values():
    lib = m.name.startswith('dtformats')
    if not lib and m.rel not in with_helper:
      continue
    names = c08.Names(m, proj)
    fn = common.qualname_of(m.tree)

    def walk(n, f, m=m, names=names, fn=fn):
      for c in ast.iter_child_nodes(n):
        g = c if isinstance(c, ast.FunctionDef) else f
        if isinstance(c, (ast.Attribute, ast.Name)) and isinstance(
            c.ctx, ast.Load):
          full = names.full(c)
          if full in FS_ACCESS:
            rep.count('ob:direct file system accesses')
            inside = g is not None and id(g) in helper_methods
            arg = None
            if isinstance(n, ast.Call) and n.func is c:
              arg = n.args[0] if n.args else next(
                  (k.value for k in n.keywords
                   if k.arg in ('file', 'path', 'pathname')), None)
            if not inside and not paths.is_package(arg, g):
              rep.add('direct access', '%s:%s' % (m.rel, fn.get(c)), full,
                      '%s bypasses the file system helper' % full, c.lineno)
        walk(c, g)
    walk(m.tree, None)
  results = both.run(extract)
  common.add_stats(rep, results)
  given = {}
  for r in results:
    for e in r['events']:
      if e['kind'] == 'helper':
        lib = e['rel'].startswith('dtformats')
        if not lib and e['rel'] not in with_helper:
          continue
        if lib and e['cls'] is not None and e['cls'] not in r['attrs']:
          # Code that has no helper itself.
          continue
        k = (e['rel'], e['func'], e['made'], e['line'])
        given.setdefault(k, set()).add(e['helper'])
    for clsq, kind in r['attrs'].items():
      rep.count('ob:parsers that take a helper')
      if kind != 'given':
        c = proj.classes[clsq]
        f = proj.find_method(clsq, '__init__')
        args = [a.arg for a in f.node.args.args] if f else []
        if 'file_system_helper' in args:
          rep.add('helper dropped', '%s:%s' % (c.module.rel, c.name),
                  '__init__', 'the helper given to the constructor is not '
                  'kept', c.node.lineno)
  for (rel, func, made, line), kinds in sorted(given.items()):
    rep.count('ob:parsers created with a helper')
    if 'missing' in kinds or 'given' not in kinds:
      rep.add('helper not passed on', '%s:%s' % (rel, func),
              made.split(':')[-1],
              'the new %s does not get the file system helper' % made, line)
  rep.need('ob:tools with a helper', 4)
  rep.need('ob:parsers that take a helper', 20)
  rep.need('ob:parsers created with a helper', 12)
  rep.need('ob:direct file system accesses', 5)
