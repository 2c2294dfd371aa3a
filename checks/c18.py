"""C18: a tool that could not do its work exits with a failure status."""

import ast
import itertools

from sa import project as P
from sa.report import Broken

UNKNOWN = ('?',)
MISSING = ('fall through',)

# Looking at a path or its signature is not processing it.
PATH_ONLY = {'BasenamePath', 'DirnamePath', 'JoinPath', 'SplitPath',
             'CheckFileExistsByPath', 'GetFileSizeByPath', 'OpenFileByPath',
             'ListDirectory', 'WriteText', 'WriteValue', 'Write', 'AddRow'}

# Handlers of these do not stand for a source that could not be read.
HARMLESS = {'ImportError', 'ModuleNotFoundError', 'IndexError', 'KeyError',
            'AttributeError', 'StopIteration', 'TypeError'}

# Handlers of these stand for a source that could not be read only when
# what they guard reads the source: else a value could not be presented.
VALUE_ONLY = {'ValueError', 'OverflowError', 'ArithmeticError',
              'ZeroDivisionError', 'UnicodeDecodeError', 'UnicodeEncodeError',
              'UnicodeError', 'LookupError'}


class Exit(Exception):
  def __init__(self, code):
    super().__init__()
    self.code = code


# -- the guard: result of Main() -> exit status -------------------------------


def guard_value(n, env, result, fname):
  if isinstance(n, ast.Constant):
    return n.value
  if isinstance(n, ast.Name):
    return env.get(n.id, UNKNOWN)
  if isinstance(n, ast.Call):
    if isinstance(n.func, ast.Name) and n.func.id == fname:
      return result
    f = n.func.id if isinstance(n.func, ast.Name) else None
    if f in ('int', 'bool') and len(n.args) == 1:
      v = guard_value(n.args[0], env, result, fname)
      return UNKNOWN if v == UNKNOWN else {'int': int, 'bool': bool}[f](
          v or 0)
    if isinstance(n.func, ast.Attribute) and n.func.attr in (
        'exit', '_exit') or f in ('exit', 'quit', 'SystemExit'):
      v = guard_value(n.args[0], env, result, fname) if n.args else None
      raise Exit(v)
    return UNKNOWN
  if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
    v = guard_value(n.operand, env, result, fname)
    return UNKNOWN if v == UNKNOWN else not v
  if isinstance(n, ast.IfExp):
    t = guard_value(n.test, env, result, fname)
    if t == UNKNOWN:
      return UNKNOWN
    return guard_value(n.body if t else n.orelse, env, result, fname)
  if isinstance(n, ast.BoolOp):
    v = UNKNOWN
    for x in n.values:
      v = guard_value(x, env, result, fname)
      if v == UNKNOWN:
        return UNKNOWN
      if isinstance(n.op, ast.Or) == bool(v):
        return v
    return v
  if isinstance(n, ast.Compare) and len(n.ops) == 1:
    a = guard_value(n.left, env, result, fname)
    b = guard_value(n.comparators[0], env, result, fname)
    if UNKNOWN in (a, b):
      return UNKNOWN
    op = n.ops[0]
    if isinstance(op, (ast.Is, ast.Eq)):
      return a == b and (type(a) is type(b) or isinstance(op, ast.Eq))
    if isinstance(op, (ast.IsNot, ast.NotEq)):
      return not (a == b and (type(a) is type(b) or
                              isinstance(op, ast.NotEq)))
  if isinstance(n, ast.BinOp):
    a = guard_value(n.left, env, result, fname)
    b = guard_value(n.right, env, result, fname)
    if isinstance(a, int) and isinstance(b, int):
      if isinstance(n.op, ast.Sub):
        return a - b
      if isinstance(n.op, ast.Add):
        return a + b
  return UNKNOWN


def guard_exec(body, env, result, fname):
  for s in body:
    if isinstance(s, ast.If):
      t = guard_value(s.test, env, result, fname)
      if t == UNKNOWN:
        raise Broken('cannot decide the guard %s' % ast.unparse(s.test))
      guard_exec(s.body if t else s.orelse, env, result, fname)
    elif isinstance(s, ast.Expr):
      guard_value(s.value, env, result, fname)
    elif isinstance(s, ast.Assign):
      v = guard_value(s.value, env, result, fname)
      for t in s.targets:
        if isinstance(t, ast.Name):
          env[t.id] = v
    elif isinstance(s, ast.Raise) and s.exc is not None:
      guard_value(s.exc, env, result, fname)
      raise Exit(1)
    elif isinstance(s, ast.Try):
      guard_exec(s.body, env, result, fname)
      guard_exec(s.finalbody, env, result, fname)


def status(guard, result, fname):
  """The exit status of the process when Main() returns this."""
  try:
    guard_exec(guard, {}, result, fname)
  except Exit as e:
    c = e.code
    if c == UNKNOWN:
      return None
    if c is None:
      return 0
    if isinstance(c, bool):
      return int(c)
    if isinstance(c, int):
      return c & 0xff
    return 1
  return 0


# -- Main(): which results are returned in which situation --------------------


class Flow:
  """Forward analysis of (processed, failed) with the local variables.

  A state is (processed, failed, tainted names, values of booleans).
  """

  def __init__(self, proj, m, rep):
    self.p = proj
    self.m = m
    self.rep = rep
    self.local = {}
    self.classes = {}
    for s in m.tree.body:
      if isinstance(s, ast.FunctionDef):
        self.local[s.name] = s
      elif isinstance(s, ast.ClassDef):
        self.classes[s.name] = s
    self.method_names = {n for c in proj.classes.values() for n in c.methods
                         if not n.startswith('__')}
    self.function_names = {f.name for f in proj.functions.values()
                           if f.cls is None}
    self.class_names = {c.name for c in proj.classes.values()}
    self.source = None
    self.depth = 0

  def tainted(self, n, st):
    for x in ast.walk(n):
      if isinstance(x, ast.Name) and x.id in st[2]:
        return True
      if isinstance(x, ast.Attribute) and isinstance(
          x.value, ast.Name) and x.attr == self.source and (
              x.value.id in st[2] or x.value.id in self.options):
        return True
      if isinstance(x, ast.Attribute) and ast.unparse(x) in st[2]:
        return True
    return False

  options = frozenset()

  def calls(self, n):
    out = []
    for x in ast.walk(n):
      if isinstance(x, ast.Call):
        out.append(x)
    return out

  def effect(self, n, st):
    """Effect of evaluating an expression."""
    for c in self.calls(n):
      f = c.func
      if isinstance(f, ast.Attribute):
        if f.attr in PATH_ONLY or f.attr not in self.method_names and (
            f.attr not in self.function_names):
          continue
        args = [*c.args, *(k.value for k in c.keywords)]
        hit = self.tainted(f.value, st) or any(
            self.tainted(a, st) for a in args)
        if hit and f.attr not in self.class_names:
          st = (True,) + st[1:]
      elif isinstance(f, ast.Name):
        if f.id in self.local or f.id in self.function_names:
          args = [*c.args, *(k.value for k in c.keywords)]
          if any(self.tainted(a, st) for a in args):
            st = (True,) + st[1:]
    return st

  def inline(self, call, st):
    """[(state, value)] of a call of a function of the script, or None."""
    f = call.func
    if not (isinstance(f, ast.Name) and f.id in self.local):
      return None
    if self.depth > 3:
      return None
    node = self.local[f.id]
    names = [a.arg for a in node.args.args]
    taint = set()
    for n, a in zip(names, call.args):
      if self.tainted(a, st):
        taint.add(n)
      if isinstance(a, ast.Name) and a.id in self.options:
        self.options = self.options | {n}
    for k in call.keywords:
      if k.arg and self.tainted(k.value, st):
        taint.add(k.arg)
    self.depth += 1
    out = []
    inner = (st[0], st[1], frozenset(taint), frozenset())
    for kind, s, v in self.block(node.body, [inner]):
      if kind in ('return', 'fall'):
        val = v if kind == 'return' else None
        out.append(((s[0], s[1], st[2], st[3]), val))
      elif kind == 'exit':
        self.exits.append((s, v))
    self.depth -= 1
    return out

  def values(self, n, st):
    """[(state, abstract value)] of an expression."""
    if n is None:
      return [(st, None)]
    if isinstance(n, ast.Constant):
      return [(st, n.value)]
    if isinstance(n, ast.Name):
      known = dict(st[3])
      return [(st, known.get(n.id, UNKNOWN))]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      return [(s, UNKNOWN if v == UNKNOWN else not v)
              for s, v in self.values(n.operand, st)]
    if isinstance(n, ast.Call):
      f = n.func
      if isinstance(f, ast.Attribute) and f.attr == 'exit' or (
          isinstance(f, ast.Name) and f.id in ('exit', 'quit')):
        v = None
        if n.args:
          v = self.values(n.args[0], st)[0][1]
        self.exits.append((st, v))
        return []
      r = self.inline(n, st)
      if r is not None:
        return r
    if isinstance(n, ast.IfExp):
      out = []
      for s, t in self.values(n.test, st):
        if t == UNKNOWN or t:
          out += self.values(n.body, s)
        if t == UNKNOWN or not t:
          out += self.values(n.orelse, s)
      return out
    return [(self.effect(n, st), UNKNOWN)]

  def assign(self, target, value_node, v, st):
    taint = set(st[2])
    known = dict(st[3])
    for t in (target.elts if isinstance(target, ast.Tuple) else [target]):
      name = ast.unparse(t)
      if value_node is not None and self.tainted(value_node, st):
        taint.add(name)
      else:
        taint.discard(name)
      if isinstance(t, ast.Name):
        if v == UNKNOWN or isinstance(target, ast.Tuple):
          known.pop(t.id, None)
        elif isinstance(v, (bool, int, type(None))):
          known[t.id] = v
        else:
          known.pop(t.id, None)
      if value_node is not None and isinstance(
          value_node, ast.Call) and isinstance(
              value_node.func, ast.Attribute) and (
                  value_node.func.attr == 'parse_args'):
        self.options = self.options | {name}
    return (st[0], st[1], frozenset(taint), frozenset(known.items()))

  def block(self, body, states):
    live = list(dict.fromkeys(states))
    out = []
    for s in body:
      nxt = []
      for st in live:
        for kind, x, v in self.stmt(s, st):
          if kind == 'fall':
            nxt.append(x)
          else:
            out.append((kind, x, v))
      live = list(dict.fromkeys(nxt))
    return out + [('fall', x, None) for x in live]

  def stmt(self, s, st):
    if isinstance(s, ast.Return):
      return [('return', x, v) for x, v in self.values(s.value, st)]
    if isinstance(s, ast.Raise):
      if s.exc is not None and 'SystemExit' in ast.unparse(s.exc):
        v = None
        if isinstance(s.exc, ast.Call) and s.exc.args:
          v = self.values(s.exc.args[0], st)[0][1]
        self.exits.append((st, v))
      return [('raise', st, None)]
    if isinstance(s, ast.Expr):
      return [('fall', x, None) for x, _ in self.values(s.value, st)]
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
      if s.value is None:
        return [('fall', st, None)]
      out = []
      for x, v in self.values(s.value, st):
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
          x = self.assign(t, s.value, v, x)
        out.append(('fall', x, None))
      return out
    if isinstance(s, ast.AugAssign):
      st = self.effect(s.value, st)
      known = dict(st[3])
      known.pop(ast.unparse(s.target), None)
      return [('fall', (st[0], st[1], st[2], frozenset(known.items())), None)]
    if isinstance(s, ast.If):
      out = []
      for x, v in self.values(s.test, st):
        if v == UNKNOWN or v:
          out += self.block(s.body, [x])
        if v == UNKNOWN or not v:
          out += self.block(s.orelse, [x])
      return out
    if isinstance(s, (ast.For, ast.While)):
      out = []
      if isinstance(s, ast.For):
        # Iterating over what a reader returns reads it even when it is
        # empty.
        entry = [self.assign(s.target, s.iter, UNKNOWN,
                             self.effect(s.iter, st))]
      else:
        entry = [x for x, _ in self.values(s.test, st)]
      after = list(entry)
      todo = list(entry)
      seen = set(todo)
      while todo:
        x = todo.pop()
        for kind, y, v in self.block(s.body, [x]):
          if kind in ('fall', 'continue'):
            if y not in seen:
              seen.add(y)
              todo.append(y)
              after.append(y)
          elif kind == 'break':
            after.append(y)
          else:
            out.append((kind, y, v))
      return out + [('fall', x, None) for x in dict.fromkeys(after)]
    if isinstance(s, ast.With):
      for i in s.items:
        st = self.effect(i.context_expr, st)
        if i.optional_vars is not None:
          st = self.assign(i.optional_vars, i.context_expr, UNKNOWN, st)
      return self.block(s.body, [st])
    if isinstance(s, ast.Try):
      out = []
      res = self.block(s.body, [st])
      ends = []
      for kind, x, v in res:
        if kind == 'fall' and s.orelse:
          ends += self.block(s.orelse, [x])
        elif kind == 'raise':
          ends.append((kind, x, v))
        else:
          ends.append((kind, x, v))
      # A handler is entered with what was known before the failing call.
      for h in s.handlers:
        names = self.handler_names(h)
        failed = st[1] or not names <= HARMLESS
        if failed and not st[1] and names <= HARMLESS | VALUE_ONLY:
          failed = any(self.effect(b, (False,) + st[1:])[0] for b in s.body)
        self.rep.count('ob:exception handlers')
        known = frozenset(
            (k, v) for k, v in st[3] if k not in self.stores(s.body))
        taint = st[2] | (self.stores(s.body) if any(
            self.tainted(b, st) for b in s.body) else frozenset())
        ends += self.block(
            h.body, [(st[0], failed, frozenset(taint), known)])
      for kind, x, v in ends:
        if s.finalbody:
          for k2, y, w in self.block(s.finalbody, [x]):
            out.append((kind, y, v) if k2 == 'fall' else (k2, y, w))
        else:
          out.append((kind, x, v))
      return out
    if isinstance(s, ast.Break):
      return [('break', st, None)]
    if isinstance(s, ast.Continue):
      return [('continue', st, None)]
    return [('fall', st, None)]

  def stores(self, body):
    return frozenset(x.id for b in body for x in ast.walk(b) if isinstance(
        x, ast.Name) and isinstance(x.ctx, ast.Store))

  def handler_names(self, h):
    if h.type is None:
      return {'BaseException'}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {ast.unparse(t).split('.')[-1] for t in ts}


def positional(fn):
  """Names of the positional arguments of the tool."""
  out = []
  for n in ast.walk(fn):
    if isinstance(n, ast.Call) and isinstance(
        n.func, ast.Attribute) and n.func.attr == 'add_argument' and n.args:
      a = n.args[0]
      if isinstance(a, ast.Constant) and isinstance(
          a.value, str) and not a.value.startswith('-'):
        out.append(a.value)
  return out


def check(rep):
  rep.rule(
      'For every script: (1) the main guard maps each result Main can '
      'return to an exit status; (2) on every path of Main (with functions '
      'of the script inlined) a result with status 0 is only returned after '
      'a call that was given the source completed, and never after an '
      'exception handler for an input or output failure was entered.')
  rep.assume('An exception that leaves Main ends the process with status 1.')
  proj = P.Project()
  for m in proj.modules.values():
    if not m.name.startswith('scripts.'):
      continue
    guards = [s for s in m.tree.body if isinstance(s, ast.If) and
              '__name__' in ast.unparse(s.test)]
    if not guards:
      rep.add('no entry', m.rel, '__main__', 'the tool has no main guard')
      continue
    rep.count('ob:tools')
    guard = guards[0].body
    called = [n.func.id for s in guard for n in ast.walk(s)
              if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)]
    mains = [n for n in called if any(
        isinstance(s, ast.FunctionDef) and s.name == n for s in m.tree.body)]
    if not mains:
      rep.add('no entry', m.rel, '__main__', 'the guard calls no function')
      continue
    fname = mains[0]
    flow = Flow(proj, m, rep)
    fn = flow.local[fname]
    pos = []
    for f in m.tree.body:
      if isinstance(f, ast.FunctionDef):
        pos += positional(f)
    if not pos:
      raise Broken('%s takes no positional argument' % m.rel)
    flow.source = pos[-1]
    flow.exits = []
    st = (False, False, frozenset(), frozenset())
    ends = flow.block(fn.body, [st])
    where = '%s:%s' % (m.rel, fname)
    good = 0
    for kind, x, v in ends:
      if kind not in ('return', 'fall'):
        continue
      rep.count('ob:paths')
      vals = [v] if v != UNKNOWN else [True, False]
      if kind == 'fall':
        vals = [None]
      for w in vals:
        code = status(guard, w, fname)
        if code is None:
          raise Broken('%s: cannot tell the exit status of %r' % (m.rel, w))
        if v == UNKNOWN:
          # The result of a call decides; taken as its own verdict.
          continue
        if code == 0 and not x[0]:
          rep.add('success without work', where, 'return %r' % (w,),
                  'ends with status 0 on a path on which the source was '
                  'not processed', fn.lineno)
        elif code == 0 and x[1]:
          rep.add('failure as success', where, 'return %r' % (w,),
                  'ends with status 0 after a failure was caught', fn.lineno)
        elif code != 0 and x[0] and not x[1] and kind == 'return':
          rep.count('ob:failure after work')
        if code == 0:
          good += 1
    for x, v in flow.exits:
      rep.count('ob:paths')
      code = 0 if v in (None, False) or v == 0 else (
          None if v == UNKNOWN else 1)
      if code == 0 and (not x[0] or x[1]):
        rep.add('success without work', where, 'exit',
                'exits with status 0 although the source was not processed',
                fn.lineno)
      if code == 0:
        good += 1
    if v_unknown(ends):
      good += 1
    if not good:
      rep.add('never successful', where, 'return',
              'no path ends with status 0', fn.lineno)
    # The guard must tell success and failure apart.
    for ok in {v for k, x, v in ends if k == 'return' and v != UNKNOWN}:
      rep.sample('%s: Main() -> %r: status %s' % (
          m.rel, ok, status(guard, ok, fname)))
    falsy = [v for k, x, v in ends if k == 'return' and not x[0]]
    for v in falsy:
      if v != UNKNOWN and status(guard, v, fname) == 0:
        rep.add('guard', m.rel, '__main__',
                'the result %r of a failed run becomes status 0' % (v,))
    work = [v for k, x, v in ends if k == 'return' and x[0] and not x[1]]
    for v in work:
      if v is True and status(guard, v, fname) != 0:
        rep.add('guard', m.rel, '__main__',
                'the result %r of a successful run becomes a failure' % (v,))
  rep.need('ob:tools', 25)
  rep.need('ob:paths', 80)


def v_unknown(ends):
  return any(k == 'return' and v == UNKNOWN for k, x, v in ends)
