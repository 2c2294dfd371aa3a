"""Abstract interpreter over the syntax tree.

Flow sensitive within a function, context sensitive in the class of self and
the (normalised) abstract arguments, with one global table for instance
attributes and one for heap objects (by allocation site). Contexts are
re-analysed until all tables are stable; events are recorded in a last pass
over the contexts that are reachable from the entry points.
"""

import ast
import builtins
import collections
import os
import re
import sys
import time

from sa import liveness
from sa import models
from sa import project as P
from sa import values as V

sys.setrecursionlimit(60000)

DEBUG_ATTR = '_debug'


class State:
  """Abstract state at a program point."""

  __slots__ = ('env', 'facts', 'alias', 'dead', 'dbgdef', 'pos', 'mark')

  def __init__(self, env=None, facts=frozenset(), alias=None, dbgdef=None,
               pos=1, mark=1):
    # Data that has to be rejected: 1 none was met since entry, 2 was met.
    self.mark = mark
    # File position: 1 can be what it was on entry, 2 can have been moved by
    # debug output, 0 was set since.
    self.pos = pos
    self.env = env if env is not None else {}
    self.facts = facts
    self.alias = alias if alias is not None else {}
    self.dead = False
    self.dbgdef = dbgdef if dbgdef is not None else {}

  def copy(self):
    return State(
        dict(self.env), self.facts, dict(self.alias), dict(self.dbgdef),
        self.pos, self.mark)


def join_states(a, b):
  if a is None or a.dead:
    return b if b is None or not b.dead else None
  if b is None or b.dead:
    return a
  env = {}
  ea, eb = a.env, b.env
  for k, v in ea.items():
    w = eb.get(k)
    if w is None:
      if '.' in k or '[' in k:
        continue
      env[k] = V.join(v, V.UNBOUND)
    elif w is v:
      env[k] = v
    else:
      env[k] = V.join(v, w)
  for k, w in eb.items():
    if k not in ea and '.' not in k and '[' not in k:
      env[k] = V.join(w, V.UNBOUND)
  alias = {k: v for k, v in a.alias.items() if b.alias.get(k) is v}
  dbg = dict(a.dbgdef)
  dbg.update(b.dbgdef)
  return State(env, a.facts & b.facts, alias, dbg, a.pos | b.pos,
               a.mark | b.mark)


def after(mark, out):
  """The mark of a state after a callee that has the mark out."""
  return (mark if out & 1 else 0) | (out & 2)


def widen_states(old, new):
  j = join_states(old, new)
  if j is None:
    return None
  env = {}
  for k, v in j.env.items():
    o = old.env.get(k)
    env[k] = V.widen(o, v) if o is not None and o != v else v
  j.env = env
  return j


MAX_PARTS = 40


def _atom_shape(t):
  k = t[0]
  if k == 'struct':
    return t[:3]
  if k in ('map', 'inst', 'cls', 'bound', 'func', 'mod', 'ext', 'bool',
           'exti', 'fabric'):
    return t
  if k == 'str':
    if t[1] is not None and len(t[1]) == 1:
      return (k, t[1])
    return (k,)
  if k == 'tuple':
    return (k, tuple(frozenset(_atom_shape(x) for x in v) for v in t[1]))
  return (k,)


def _unpacks(s):
  """A loop over items that are tuples themselves."""
  t = s.target
  if (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and
      s.iter.func.id == 'enumerate' and isinstance(t, ast.Tuple)):
    t = t.elts[-1]
  return isinstance(t, ast.Tuple)


def _is_condition(n, strict=False):
  if isinstance(n, ast.Compare):
    return True
  if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
    return True
  if isinstance(n, ast.BoolOp):
    return all(_is_condition(x, strict) or not strict and _is_path(x)
               for x in n.values) and any(_is_condition(x) for x in n.values)
  return (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
          n.func.id == 'isinstance')


def _apart(x, y):
  """How much states differ: what a flag says is told apart longest."""
  if x and y and len(x) == len(y) == 1 and all(
      t[0] == 'bool' for v in (x, y) for t in v):
    return 4
  return 1


def _shape(st, live):
  """What is told apart between states."""
  out = []
  for n in live:
    v = st.env.get(n)
    if v is not None:
      out.append(frozenset(_atom_shape(t) for t in v))
    else:
      out.append(None)
  return tuple(out)


def same_state(a, b):
  if a is None or b is None:
    return a is b
  return (a.env == b.env and a.facts == b.facts and a.pos == b.pos and
          a.mark == b.mark and
          a.alias.keys() == b.alias.keys())


class Summary:
  """What a function context does, as seen by its callers."""

  __slots__ = ('ret', 'yields', 'exc', 'mods', 'post', 'post_t', 'post_f',
               'effects', 'done', 'normal', 'pos_used', 'pos_out',
               'mark_out', 'yield_mark')

  def __init__(self):
    self.ret = V.BOTTOM
    self.yields = V.BOTTOM
    self.exc = {}
    self.mods = frozenset()
    self.post = None      # (param name -> value, facts)
    self.post_t = None
    self.post_f = None
    self.effects = frozenset()
    self.pos_used = False
    self.pos_out = 0
    self.mark_out = 0
    self.yield_mark = 0
    self.done = False
    self.normal = False

  def same(self, o):
    return (self.ret == o.ret and self.yields == o.yields and
            self.exc == o.exc and self.mods == o.mods and
            self.post == o.post and self.post_t == o.post_t and
            self.post_f == o.post_f and self.effects == o.effects and
            self.pos_used == o.pos_used and self.pos_out == o.pos_out and
            self.mark_out == o.mark_out and
            self.yield_mark == o.yield_mark and
            self.normal == o.normal)


class Heap:
  """A list, dict or set by allocation site."""

  __slots__ = ('kind', 'elem', 'key', 'items', 'seq', 'open', 'shared',
               'updates', 'where', 'mutated', 'oelem', 'shrunk', 'size',
               'sorted')

  def __init__(self, kind):
    self.kind = kind
    self.elem = V.BOTTOM
    self.key = V.BOTTOM
    self.items = {}       # constant key -> value
    self.seq = None       # items of a literal that is never mutated
    self.open = False     # keys other than items can be present
    self.shared = None    # description of the shared owner
    self.updates = 0
    self.where = None
    self.mutated = False
    self.sorted = False    # it is sorted in place somewhere
    self.shrunk = False    # items are removed somewhere
    self.size = 0          # least number of items that it is created with
    self.oelem = V.BOTTOM  # values written with an unknown key

  def lookup(self, cs):
    """Value for one of the constant keys cs: (value, can be missing)."""
    out = V.BOTTOM
    miss = False
    for c in cs:
      v = self.items.get(c)
      if v is not None:
        out = V.join(out, v)
        if self.open and not all(t[0] == 'map' for t in v):
          out = V.join(out, V.retag_none(self.oelem or self.elem, 'attr'))
      else:
        miss = True
        if self.open:
          out = V.join(out, V.retag_none(self.oelem or self.elem, 'attr'))
    return out, miss


class Frame:
  """Execution of one function context."""

  def __init__(self, func, key, selfatom):
    self.func = func
    self.key = key
    self.selfatom = selfatom
    self.returns = []
    self.trys = []
    self.loops = []
    self.yields = V.BOTTOM
    self.exc = {}
    self.mods = set()
    self.effects = set()
    self.pos_used = False
    self.yield_mark = 0
    self.debug = 0
    self.rest = False       # the remainder of the function is debug output
    self.dbg_bound = set()
    self.plain_bound = set()
    self.caught = []
    self.assigned = set()


class TryFrame:
  def __init__(self, handlers):
    self.handlers = handlers   # list of (tuple of exception names or None)
    self.pending = [None] * len(handlers)
    self.caught = [dict() for _ in handlers]


class NewContext(Exception):
  """The last pass meets a call that the fixed point does not cover."""


Event = collections.namedtuple(
    'Event', 'kind rel func line col text data cls mode debug')


class Interp:
  """The interpreter."""

  def __init__(self, proj, mode=False):
    self.p = proj
    self.mode = mode          # is debug output enabled
    self.attrs = {}
    self.mixed = set()
    self.attr_updates = collections.Counter()
    self.struct_attrs = {}
    self.heap = {}
    self.summaries = {}
    self.deps = collections.defaultdict(set)
    self.stack = []
    self.inprogress = set()
    self.dirty = collections.OrderedDict()
    self.final = False
    self.final_done = set()
    self.events = {}
    self.node_values = {}
    self.visited = set()
    self.quiet = 0
    self.frame = None
    self.roots = []
    self.contexts = collections.Counter()
    self.dbg_seen = False
    self.last_posts = None
    self.modfuncs = {}
    # Numbers that arguments are told apart by.
    self.keep = frozenset()
    self.precise = False
    self.call_edges = {}
    self.hooks = []
    self.loop_info = {}
    self.exit_states = {}
    self.global_attrs = {}
    self.binds = {}
    self.used_fabrics = set()
    self.used_debugs = set()
    self._bindings = {}
    self._self_loads = {}
    self.debug_sites = {}
    self.minlen = {}
    self.dynamic = set()
    self.static_events = {}
    self.swallows = {}
    self.computed_attrs = {}
    self.live_reads = {}     # attribute -> functions reading it, not as debug
    self.live_calls = {}     # function -> functions it calls, not as debug
    self.allocs = {}         # context -> allocation sites
    self.callees = {}        # context -> {(line, column, context)}
    self.iteration_sites = set()
    self.raise_at = {}       # id(node) -> exceptions raised by evaluating it
    self.handler_types = {}  # id(handler) -> exceptions it names, or None
    self.layout_gets = {}

  # -- modules and classes --------------------------------------------------

  def module_env(self, name):
    m = self.p.modules[name]
    if m.env is not None and m.env_owner is self:
      return m.env
    m.env = {}
    m.env_owner = self
    f = Frame(_ModuleFunc(m), ('module', name), None)
    saved = self.frame, self._shared
    self.frame = f
    self._shared = 'module %s' % name
    st = State(m.env)
    try:
      for s in m.tree.body:
        if isinstance(s, ast.If) and any(
            isinstance(n, ast.Name) and n.id == '__name__'
            for n in ast.walk(s.test)):
          continue
        st = self.exec_stmt(s, st) or st
        if st.env is not m.env:
          m.env.update(st.env)
          st.env = m.env
    finally:
      self.frame, self._shared = saved
    return m.env

  _shared = None

  def exec_classdef(self, node, st):
    m = self.frame.func.module
    q = m.name + ':' + node.name
    c = self.p.classes.get(q)
    if c is None:
      st.env[node.name] = V.ANY
      return
    f = Frame(_ModuleFunc(m, c), ('class', q), None)
    saved = self.frame, self._shared
    self.frame = f
    self._shared = 'class %s' % node.name
    cst = State()
    c.class_attrs = cst.env
    c.attr_owner = self
    try:
      for s in node.body:
        cst = self.exec_stmt(s, cst) or cst
        if cst.env is not c.class_attrs:
          c.class_attrs.update(cst.env)
          cst.env = c.class_attrs
    finally:
      self.frame, self._shared = saved
    st.env[node.name] = V.atom('cls', q)

  def class_attr(self, clsq, name):
    """Class level value, None when there is none."""
    for b in self.p.classes[clsq].mro:
      c = self.p.classes[b]
      self.module_env(c.module.name)
      if name in c.methods:
        f = c.methods[name]
        return ('method', f)
      v = self.global_attrs.get((b, name))
      w = c.class_attrs.get(name)
      if w is not None or v is not None:
        self.dep(('gattr', b, name))
        return ('value', V.join(w or V.BOTTOM, v or V.BOTTOM))
    return None

  # -- tables ---------------------------------------------------------------

  def dep(self, res):
    if self.frame is not None and self.frame.key is not None:
      self.deps[res].add(self.frame.key)

  def touch(self, res):
    for k in self.deps.get(res, ()):
      self.dirty[k] = True

  def attr_get(self, clsq, name):
    self.dep(('attr', clsq, name))
    return self.attrs.get((clsq, name))

  def attr_set(self, clsq, name, v):
    if not v:
      return
    key = (clsq, name)
    old = self.attrs.get(key, V.BOTTOM)
    v = V.drop(v, 'unbound')
    new = V.join(old, V.depth_limit(v))
    if key in self.mixed or V.mixed(new):
      # What the attribute holds goes with another attribute, which tells the
      # kinds of value apart.
      self.mixed.add(key)
      new = V.ANY
    if new != old:
      self.attr_updates[key] += 1
      if self.attr_updates[key] > 3:
        new = V.widen(old, new)
      if self.attr_updates[key] > 40:
        new = V.ANY
      self.attrs[key] = new
      self.touch(('attr', clsq, name))

  def site(self, node, extra=None):
    f = self.frame
    cls = f.selfatom[1] if f.selfatom and f.selfatom[0] == 'inst' else None
    return (f.func.module.rel, f.func.q, getattr(node, 'lineno', 0),
            getattr(node, 'col_offset', 0), cls, extra)

  def new_heap(self, kind, node, extra=None):
    s = self.site(node, extra)
    if self.frame is not None:
      self.allocs.setdefault(self.frame.key, set()).add(s)
    h = self.heap.get(s)
    if h is None or h.kind != kind:
      h = Heap(kind)
      h.where = s
      h.shared = self._shared
      self.heap[s] = h
    self.dep(('heap', s))
    return s, h

  def heap_of(self, t):
    self.dep(('heap', t[1]))
    return self.heap[t[1]]

  def shrink(self, t):
    """Items of a list are removed."""
    h = self.heap[t[1]]
    if not h.shrunk:
      h.shrunk = True
      self.touch(("heap", t[1]))

  def heap_add(self, t, elem=None, key=None, mutate=True, node=None):
    """Weak update of a heap object."""
    h = self.heap[t[1]]
    ch = False
    if elem is not None and elem:
      e = V.drop(elem, 'unbound')
      new = V.join(h.elem, V.depth_limit(e))
      if new != h.elem:
        h.updates += 1
        if h.updates > 6:
          new = V.widen(h.elem, new)
        if h.updates > 60:
          new = V.ANY
        h.elem = new
        ch = True
    if key is not None and key:
      new = V.join(h.key, key)
      if new != h.key:
        h.updates += 1
        if h.updates > 6:
          new = V.widen(h.key, new)
        h.key = new
        ch = True
    if mutate:
      if not h.mutated or h.seq is not None:
        h.mutated = True
        h.seq = None
        ch = True
      self.effect(('mut', t[1]), node)
      if h.shared and not self._shared:
        self.event('mutate-shared', node, h.shared, site=t[1])
    if ch:
      self.touch(('heap', t[1]))

  def dict_set(self, t, key, val, mutate=True, node=None):
    h = self.heap[t[1]]
    cs = V.consts(key) if key else set()
    ch = False
    if cs is None or len(cs) > 400:
      if not h.open:
        h.open = True
        ch = True
      new = V.join(h.oelem, V.depth_limit(V.drop(val, 'unbound')))
      if new != h.oelem:
        h.oelem = V.widen(h.oelem, new) if h.oelem else new
        ch = True
    else:
      for c in cs:
        old = h.items.get(c, V.BOTTOM)
        new = V.join(old, V.depth_limit(val))
        if new != old or c not in h.items:
          h.items[c] = new
          ch = True
      if len(h.items) > 3000 and mutate:
        h.open = True
    if ch:
      self.touch(('heap', t[1]))
    self.heap_add(t, elem=val, key=key, mutate=mutate, node=node)

  def effect(self, e, node=None):
    if self.frame is not None:
      fresh = self.fresh_target(node) if node is not None else None
      if fresh is None:
        self.frame.effects.add(e)
      if self.frame.debug and node is not None and not fresh:
        self.event('debug-effect', node, '%s %s' % (e[0], e[1:]), effect=e,
                   key=self.frame.key, col=getattr(node, 'col_offset', 0))

  def fresh_target(self, node):
    """Is the modified object one this function made itself.

    None when it can come from elsewhere, else whether it is only ever made
    while debug output is enabled.
    """
    target = None
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
      target = node.func.value
    elif isinstance(node, (ast.Attribute, ast.Subscript)):
      target = node.value
    if isinstance(target, ast.Name):
      if isinstance(node, ast.Attribute) and (
          self.frame.func.name == '__init__' and self.frame.func.node):
        a = self.frame.func.node.args.args
        if a and a[0].arg == target.id:
          return True
      kinds = self.local_bindings(self.frame.func).get(target.id)
      if kinds and all(kinds):
        return (target.id in self.frame.dbg_bound and
                target.id not in self.frame.plain_bound)
    return None

  def local_bindings(self, func):
    out = self._bindings.get(func.q)
    if out is not None:
      return out
    out = self._bindings[func.q] = {}
    node = func.node
    if node is None:
      return out
    args = getattr(node, 'args', None)
    if isinstance(args, ast.arguments):
      for a in (args.posonlyargs + args.args + args.kwonlyargs +
                [x for x in (args.vararg, args.kwarg) if x]):
        out[a.arg] = [False]
    for n in ast.walk(node):
      if isinstance(n, (ast.Global, ast.Nonlocal)):
        for x in n.names:
          out.setdefault(x, []).append(False)
      elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
          n.targets[0], ast.Name):
        v = n.value
        fresh = isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                               ast.DictComp, ast.SetComp))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and (
            v.func.id in ('list', 'dict', 'set', 'bytearray', 'sorted') or
            v.func.id[:1].isupper()):
          fresh = True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and (
            v.func.attr[:1].isupper() and isinstance(v.func.value, ast.Name)
            and v.func.value.id in func.module.imports):
          fresh = True
        out.setdefault(n.targets[0].id, []).append(fresh)
        n.targets[0]._done = True
      elif isinstance(n, ast.Name) and isinstance(
          n.ctx, (ast.Store, ast.Del)) and not getattr(n, '_done', False):
        out.setdefault(n.id, []).append(False)
    return out

  # -- events and exceptions ------------------------------------------------

  def event(self, kind, node, text, **data):
    if not self.final or self.quiet:
      return
    f = self.frame.func
    line = getattr(node, 'lineno', 0)
    col = getattr(node, 'col_offset', 0)
    cls = None
    if self.frame.selfatom and self.frame.selfatom[0] in ('inst', 'cls'):
      cls = self.frame.selfatom[1]
    key = (kind, f.module.rel, f.q, line, col, text, self.frame.debug > 0)
    if key not in self.events:
      self.events[key] = Event(
          kind, f.module.rel, f.q, line, col, text, data, cls, self.mode,
          self.frame.debug > 0)

  def always_event(self, kind, node, text, **data):
    """An event of module level code, which is only run once."""
    f = self.frame.func
    key = (kind, f.module.rel, f.q, getattr(node, 'lineno', 0), 0, text, False)
    self.static_events[key] = Event(
        kind, f.module.rel, f.q, getattr(node, 'lineno', 0), 0, text, data,
        None, self.mode, False)

  def mark_nonempty(self, node, st):
    """x.append(...) makes x non empty."""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
      b = node.func.value
      if _is_path(b):
        t = ast.unparse(b)
        st.facts |= frozenset([(t, 'true', '', _names(t))])

  def kill_nonempty(self, node, st):
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
      self.kill_content(node.func.value, st)

  def kill_content(self, base, st):
    """Items of a container are removed."""
    t = ast.unparse(base)
    st.facts = frozenset(
        x for x in st.facts if not (x[0] == t and x[1] == 'true') and
        'len(%s)' % t not in (x[0], x[2]) and not (
            x[1] == 'in' and x[2] == t))

  def dict_get_event(self, recv, keyval, cs, node, miss):
    fn = self.debug_sites.get(recv[1])
    if fn is not None:
      self.event('debug-get', node, '%s:%s %s' % (fn, ','.join(
          sorted(str(c) for c in cs)), recv[1]), file=fn, keys=frozenset(cs),
                 site=str(recv[1]))

  def exc_matches(self, exc, handler):
    """'yes', 'maybe' or 'no': does a handler for a class catch exc."""
    if handler in models.exc_bases(self, exc):
      return 'yes'
    if exc in models.exc_bases(self, handler):
      return 'maybe'
    return 'no'

  def emit(self, exc, node, st, why='', origin=None, mark=1):
    """An exception of class exc can be raised here."""
    if self.quiet or self.frame is None:
      return
    if self.final:
      self.raise_at.setdefault(id(node), set()).add(exc)
    f = self.frame
    if origin is None:
      if exc in models.UNTRACKED:
        origin = (exc, '', '', 0, '')
      else:
        origin = (exc, f.func.module.rel, f.func.q,
                  getattr(node, 'lineno', 0), why)
    within = f.debug
    for tf in reversed(f.trys):
      if within and not tf.debug:
        within = False
        self.event('debug-raise', node, '%s: %s' % (exc, why or origin[4]),
                   exc=exc, origin=origin, trys=len(f.trys))
      stop = False
      for i, types in enumerate(tf.handlers):
        m = 'yes' if types is None else 'no'
        for t in types or ():
          r = self.exc_matches(exc, t)
          if r == 'yes':
            m = 'yes'
            break
          if r == 'maybe':
            m = 'maybe'
        if m != 'no':
          c = st.copy() if st is not None else None
          if c is not None:
            c.mark = after(c.mark, mark)
          tf.pending[i] = join_states(tf.pending[i], c)
          tf.caught[i][(exc, origin)] = True
        if m == 'yes':
          stop = True
          break
      if stop:
        return
    if within:
      self.event('debug-raise', node, '%s: %s' % (exc, why or origin[4]),
                 exc=exc, origin=origin, trys=len(f.trys))
    f.exc[(exc, origin)] = f.exc.get((exc, origin), 0) | (
        after(st.mark, mark) if st is not None else mark)
    if not f.trys or True:
      self.event('escape', node, exc + ': ' + why, exc=exc, origin=origin)

  # -- contexts -------------------------------------------------------------

  def norm_arg(self, v, literal=False, depth=0):
    out = []
    for t in v:
      k = t[0]
      if k == 'int':
        if literal and t[1] == t[2] and t[1] is not None and -2 <= t[1] <= 512:
          pass
        elif depth and t[3] is not None and len(t[3]) == 1:
          pass
        elif t in self.keep:
          pass
        elif self.precise and t[1] == t[2] and t[1] is not None and (
            0 <= t[1] <= 16):
          pass
        else:
          lo = t[1]
          if lo is not None and lo < 0:
            lo = next((x for x in (-1 << 31, -1 << 63) if lo >= x), None)
          elif lo is not None:
            lo = min(lo, 1)
          hi = t[2]
          for b in (255, 65535, 0xffffffff, 1 << 60, 1 << 61,
                    0xffffffffffffffff):
            if hi is not None and hi <= b:
              hi = b
              break
          else:
            hi = None
          t = ('int', lo, hi, None)
      elif k == 'str':
        if t[1] is not None:
          c = t[1]
          if len(c) > 16 or any(
              len(s) > 64 or not s.replace('_', 'a').replace(
                  '.', 'a').isalnum() for s in c):
            t = ('str', None, t[2])
      elif k == 'bytes':
        c = t[1]
        if c is not None and (not literal or len(c) > 1):
          c = None
        lo = t[2]
        if c is None and not (t[2] == t[3] and t[2] in (
            1, 2, 4, 6, 8, 12, 16, 20, 32)):
          t = ('bytes', None, min(lo, 1), None, t[4])
      elif k == 'vtuple':
        t = ('vtuple', self.norm_arg(t[1], depth=depth + 1), min(t[2], 1), None)
      elif k == 'tuple':
        t = ('tuple', tuple(
            self.norm_arg(x, depth=depth + 1) for x in t[1]))
      elif k == 'struct':
        t = ('struct', t[1], t[2], tuple(
            (n, x if len(x) == 1 and all(
                y[0] == 'int' and y[3] is not None for y in x)
             else self.norm_arg(x, literal=True, depth=1))
            for n, x in t[3]))
      elif k == 'unbound':
        continue
      out.append(t)
    return V.normalise(out)

  def call_func(self, f, selfatom, args, kwargs, node, st, argnodes=None,
                kwnodes=None):
    """Calls a function of the program with abstract arguments."""
    bound = self.bind(f, selfatom, args, kwargs, node, st, argnodes, kwnodes)
    if bound is None:
      return V.BOTTOM
    env, origin = bound
    if not f.is_gen:
      # A choice of texts: one call for every text.
      for n, v in env.items():
        if len(v) == 1:
          (t,) = v
          if t[0] == 'str' and t[1] and 1 < len(t[1]) <= 16:
            return self.call_texts(f, selfatom, env, origin, n, t, node, st)
    return self.call_env(f, selfatom, env, origin, node, st)

  def call_texts(self, f, selfatom, env, origin, name, t, node, st):
    out = V.BOTTOM
    origin = dict(origin)
    origin.pop(name, None)
    states = []
    for x in sorted(t[1]):
      e = dict(env)
      e[name] = V.str_const(x)
      c = st.copy() if st is not None else None
      r = self.call_env(f, selfatom, e, origin, node, c)
      if r:
        states.append(c)
      out = V.join(out, r)
    self.last_posts = None
    if st is not None and states:
      j = None
      for c in states:
        j = join_states(j, c)
      st.env, st.facts, st.alias = j.env, j.facts, j.alias
      st.dbgdef, st.pos, st.mark = j.dbgdef, j.pos, j.mark
    return out

  def call_env(self, f, selfatom, env, origin, node, st):
    self.pass_self_state(f, env, node, st)
    key = (f.q, selfatom, tuple(sorted(env.items())))
    if self.contexts_of(f.q) > 800 and key not in self.summaries:
      env = {k: self.coarse(v) for k, v in env.items()}
      key = (f.q, selfatom, tuple(sorted(env.items())))
    if self.final:
      caller = self.frame.func.q
      self.call_edges.setdefault(
          (caller, f.q), set()).add((self.frame.func.module.rel,
                                     getattr(node, 'lineno', 0)))
      if not self.frame.debug:
        self.live_calls.setdefault(caller, set()).add(f.q)
      self.callees.setdefault(self.frame.key, set()).add(
          (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), key))
    s = self.summary(key, f, selfatom, env)
    self.last_posts = None
    if f.is_gen:
      return V.atom('gen', key)
    self.apply_summary(s, node, st)
    if st is not None:
      if s.pos_used:
        self.use_position(st, node)
      if self.frame.debug:
        if any(e[0] == 'file' for e in s.effects):
          st.pos = 2
      elif s.normal:
        st.pos = (s.pos_out & 2) | (st.pos if s.pos_out & 1 else 0)
      if s.normal:
        st.mark = after(st.mark, s.mark_out)
    if not s.normal:
      if s.done:
        return V.BOTTOM
      return V.BOTTOM
    self.kill_mods(st, s.mods)
    if s.post is not None:
      self.apply_post(s.post, origin, st)
    self.last_posts = (s.post_t, s.post_f, origin)
    return s.ret

  def use_position(self, st, node):
    if st is None:
      return
    if st.pos & 1:
      self.frame.pos_used = True
    if st.pos & 2 and not self.frame.debug:
      self.event('debug-position', node, 'file position')

  def pass_self_state(self, f, env, node, st):
    """Passes what the caller knows of constant attributes of its object."""
    if st is None or not isinstance(node, ast.Call) or not isinstance(
        node.func, ast.Attribute) or f.kind != 'method':
      return
    b = node.func.value
    me = self.frame.func.node
    if not isinstance(b, ast.Name) or me is None or not getattr(
        me, 'args', None) or not me.args.args or (
            me.args.args[0].arg != b.id or f.cls is None):
      return
    names = self._self_loads.get(f.q)
    if names is None:
      names = set()
      a = f.node.args.args
      for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(
            n.ctx, ast.Load) and isinstance(n.value, ast.Name) and (
                a and n.value.id == a[0].arg):
          names.add(n.attr)
      names = self._self_loads[f.q] = (a[0].arg if a else '', sorted(names))
    me_name, names = names
    for n in names:
      v = st.env.get(b.id + '.' + n)
      if v and all(t[0] == 'str' and t[1] is not None and len(t[1]) <= 4
                   for t in v):
        env[me_name + '.' + n] = v

  def apply_summary(self, s, node, st):
    for (exc, origin), mark in s.exc.items():
      self.emit(exc, node, st, origin=origin, mark=mark)
    self.frame.mods |= s.mods
    for e in s.effects:
      self.effect(e, node)

  def kill_mods(self, st, mods):
    if not mods or st is None:
      return
    dead = [k for k in st.env if '.' in k and
            any(c in mods for c in k.split('.')[1:])]
    for k in dead:
      del st.env[k]
    if st.facts:
      st.facts = frozenset(
          x for x in st.facts if not any(('.' + m) in x[0] or
                                         ('.' + m) in x[2] for m in mods))
    dead = [k for k, a in st.alias.items()
            if any(isinstance(n, ast.Attribute) and n.attr in mods
                   for n in ast.walk(a))]
    for k in dead:
      del st.alias[k]

  def apply_post(self, post, origin, st):
    vals, facts = post
    for name, v in vals.items():
      a = origin.get(name)
      if a is None:
        continue
      cur = self.ev_quiet(a, st)
      m = self.meet_post(cur, v)
      if m != cur and m:
        self.refine(a, m, st)
    if facts:
      new = set()
      for l, op, r, names in facts:
        if all(n in origin and origin[n] is not None for n in names):
          l2, r2 = l, r
          ok = True
          allnames = set()
          try:
            l2, n1 = _substitute(l, origin)
            r2, n2 = _substitute(r, origin)
            allnames = n1 | n2
          except ValueError:
            ok = False
          if ok:
            new.add((l2, op, r2, frozenset(allnames)))
      st.facts = st.facts | frozenset(new)

  def meet_post(self, cur, post):
    """Restricts the value of an argument by what the callee established."""
    out = []
    pk = {t[0] for t in post}
    if 'any' in pk:
      return cur
    pst = {t[1:3]: t for t in post if t[0] == 'struct'}
    pby = next((t for t in post if t[0] == 'bytes'), None)
    for t in cur:
      if t[0] == 'any':
        out.append(t)
      elif t[0] == 'struct':
        o = pst.get(t[1:3])
        if o is not None:
          refs = dict(t[3])
          for n, v in o[3]:
            if n not in refs or self.smaller(v, refs[n]):
              refs[n] = v
          out.append(t[:3] + (tuple(sorted(refs.items(),
                                           key=lambda kv: kv[0])),))
      elif t[0] == 'bytes':
        if pby is not None:
          hi = t[3]
          if pby[3] is not None and (hi is None or pby[3] < hi):
            hi = pby[3]
          out.append(('bytes', t[1], max(t[2], pby[2]), hi, t[4] & pby[4]))
      elif t[0] == 'int':
        o = next((x for x in post if x[0] == 'int'), None)
        if o is not None:
          r = {t}
          if o[3] is not None and len(o[3]) == 1 and t[3] is None:
            r = set(V.int_set(o[3]))
          else:
            if o[1] is not None:
              r = {y for x in r for y in V.int_restrict(x, '>=', o[1])}
            if o[2] is not None:
              r = {y for x in r for y in V.int_restrict(x, '<=', o[2])}
          out.extend(r)
        elif 'bool' in pk:
          out.append(t)
      elif t[0] in pk or t[0] in ('exti', 'ext', 'file', 'inst'):
        out.append(t)
    return V.normalise(out)

  @staticmethod
  def smaller(a, b):
    return V.join(a, b) == b

  def contexts_of(self, q):
    return self.contexts[q]

  def coarse(self, v):
    out = []
    for t in v:
      if t[0] == 'int':
        t = ('int', None, None, None)
      elif t[0] == 'str':
        t = ('str', None, False)
      elif t[0] == 'bytes':
        t = ('bytes', None, 0, None, t[4])
      elif t[0] == 'struct':
        t = t[:3] + ((),)
      elif t[0] == 'tuple':
        t = ('tuple', tuple(self.coarse(x) for x in t[1]))
      elif t[0] == 'vtuple':
        t = ('vtuple', self.coarse(t[1]), 0, None)
      out.append(t)
    return V.normalise(out)

  def summary(self, key, f, selfatom, env):
    self.dep(('sum', key))
    s = self.summaries.get(key)
    if self.final:
      if s is None:
        raise NewContext(key, f, selfatom, env)
      if key not in self.final_done:
        self.final_done.add(key)
        self.analyse(key, f, selfatom, env)
      return self.summaries[key]
    if s is None:
      self.contexts[f.q] += 1
      s = Summary()
      self.summaries[key] = s
      self.analyse(key, f, selfatom, env)
      s = self.summaries[key]
    return s

  def analyse(self, key, f, selfatom, env):
    """Interprets a function body in one context."""
    if key in self.inprogress:
      return
    self.inprogress.add(key)
    self.modfuncs[key] = (f, selfatom, env)
    saved = self.frame, self._shared, self.quiet, self.last_posts, self.dbg_seen
    self._shared = None
    self.quiet = 0
    self.frame = fr = Frame(f, key, selfatom)
    self.module_env(f.module.name)
    e = dict(env)
    for n, v in e.items():
      if n == 'debug' and not (f.name.startswith('Set')):
        e[n] = V.atom('bool', self.mode, 'dbg')
    st = State(e)
    for n in f.locals:
      if n not in st.env:
        st.env[n] = V.UNBOUND
    if isinstance(f.node, ast.Lambda):
      v = self.ev(f.node.body, st)
      fr.returns.append((v, st, f.node))
    else:
      st = self.exec_block(f.node.body, st)
      if st is not None:
        fr.returns.append((V.none('ret'), st, None))
    s = Summary()
    s.done = True
    params = [n for n in env if n not in fr.assigned]
    s.post, s.post_t, s.post_f = self.make_posts(fr, params, env)
    for v, _, _ in fr.returns:
      s.ret = V.join(s.ret, v)
    s.normal = bool(fr.returns)
    s.yields = fr.yields
    s.exc = fr.exc
    s.mods = frozenset(fr.mods)
    s.effects = frozenset(fr.effects)
    s.pos_used = fr.pos_used
    for _, x, _ in fr.returns:
      if x is not None:
        s.pos_out |= x.pos
        s.mark_out |= x.mark
    s.yield_mark = fr.yield_mark
    if self.final:
      self.exit_states.setdefault(f.q, []).append(
          (selfatom, env, [(v, x, n) for v, x, n in fr.returns]))
    (self.frame, self._shared, self.quiet, self.last_posts,
     self.dbg_seen) = saved
    self.inprogress.discard(key)
    old = self.summaries.get(key)
    if self.final:
      return
    if old is not None and old.done:
      # Keep the sequence of summaries ascending.
      s.ret = self.widen_ret(old.ret, s.ret)
      s.yields = self.widen_ret(old.yields, s.yields)
      merged = dict(old.exc)
      for k, v in s.exc.items():
        merged[k] = merged.get(k, 0) | v
      s.exc = merged
      s.mods |= old.mods
      s.effects |= old.effects
      s.pos_used |= old.pos_used
      s.pos_out |= old.pos_out
      s.mark_out |= old.mark_out
      s.yield_mark |= old.yield_mark
      s.normal |= old.normal
    if old is None or not s.same(old) or not old.done:
      changed = old is None or not s.same(old)
      self.summaries[key] = s
      if changed:
        self.touch(('sum', key))

  def widen_ret(self, old, new):
    return V.widen(old, new) if old and new else V.join(old, new)

  def make_posts(self, fr, params, env):
    def post_of(states):
      states = [s for s in states if s is not None]
      if not states:
        return None
      j = None
      for s in states:
        j = join_states(j, s)
      if j is None:
        return None
      vals = {}
      for n in params:
        v = j.env.get(n)
        if v is not None and v != env[n] and v:
          vals[n] = self.norm_post(v)
      for k, v in j.env.items():
        if k.startswith('self.') and k.count('.') <= 2:
          pass
      facts = frozenset(
          x for x in j.facts if x[3] and all(
              n in params or n == 'self' for n in x[3]))
      if not vals and not facts:
        return None
      return (vals, facts)
    allst = [s for _, s, _ in fr.returns]
    ts = [s for v, s, _ in fr.returns if V.truthiness(v)[0]]
    fs = [s for v, s, _ in fr.returns if V.truthiness(v)[1]]
    return post_of(allst), post_of(ts), post_of(fs)

  def norm_post(self, v):
    return v

  def bind(self, f, selfatom, args, kwargs, node, st, argnodes, kwnodes):
    """Binds arguments to parameters: (param -> value, param -> arg node)."""
    a = f.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    origin = {}
    args = list(args)
    argnodes = list(argnodes or [None] * len(args))
    if f.cls is not None and f.kind in ('method', 'class') and params:
      env[params[0]] = frozenset([selfatom]) if selfatom else V.ANY
      origin[params[0]] = None
      params = params[1:]
    star = any(isinstance(x, ast.Starred) for x in argnodes if x is not None)
    if len(args) > len(params) and not a.vararg and not star:
      self.event('arity', node, '%s takes %d arguments, %d are given' % (
          f.name, len(params), len(args)), callee=f.q)
      self.emit('TypeError', node, st, 'call of %s' % f.name)
      args = args[:len(params)]
    for i, (n, v) in enumerate(zip(params, args)):
      an = argnodes[i] if i < len(argnodes) else None
      env[n] = self.norm_arg(v, literal=isinstance(an, ast.Constant))
      origin[n] = an if _is_path(an) else None
    if a.vararg:
      env[a.vararg.arg] = V.vtuple(V.join_all(args[len(params):]))
    kwonly = [x.arg for x in a.kwonlyargs]
    extra = {}
    for n, v in (kwargs or {}).items():
      if n is None:
        star = True
        continue
      if n in env:
        self.event('arity', node, '%s gets argument %s twice' % (f.name, n),
                   callee=f.q)
        self.emit('TypeError', node, st, 'call of %s' % f.name)
        continue
      if n not in params and n not in kwonly:
        if a.kwarg:
          extra[n] = v
          continue
        self.event('arity', node, '%s has no argument %s' % (f.name, n),
                   callee=f.q)
        self.emit('TypeError', node, st, 'call of %s' % f.name)
        continue
      an = (kwnodes or {}).get(n)
      env[n] = self.norm_arg(v, literal=isinstance(an, ast.Constant))
      origin[n] = an if _is_path(an) else None
    if a.kwarg:
      s, h = self.new_heap('dict', f.node, 'kwargs')
      for n, v in extra.items():
        self.dict_set(('dict', s), V.str_const(n), v, mutate=False)
      h.open = True
      env[a.kwarg.arg] = V.atom('dict', s)
    # Defaults.
    pos = [x.arg for x in a.posonlyargs + a.args]
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    for n, d in zip(kwonly, a.kw_defaults):
      if d is not None:
        defaults[n] = d
    for n in params + kwonly:
      if n in env:
        continue
      if n in defaults:
        env[n] = self.norm_arg(self.default_value(f, defaults[n]), literal=True)
      elif star:
        env[n] = V.ANY
      else:
        self.event('arity', node, '%s is missing argument %s' % (f.name, n),
                   callee=f.q)
        self.emit('TypeError', node, st, 'call of %s' % f.name)
        env[n] = V.BOTTOM
        return None
    for n, v in env.items():
      if not v:
        return None
    if self.final:
      self.binds.setdefault(f.q, []).append((self.frame.func.q, node, env))
    return env, origin

  def default_value(self, f, node):
    saved = self.frame, self._shared
    self.frame = Frame(_ModuleFunc(f.module, f.cls), self.frame.key, None)
    self._shared = 'default argument of %s' % f.name
    try:
      st = State(dict(f.cls.class_attrs) if f.cls else {})
      return self.ev(node, st)
    finally:
      self.frame, self._shared = saved

  # -- driver ---------------------------------------------------------------

  def add_root(self, f, selfatom, env):
    self.roots.append((f, selfatom, env))

  def run(self):
    for m in self.p.modules:
      self.module_env(m)
    root = Frame(_ModuleFunc(self.p.modules['dtformats']), None, None)
    self.frame = root
    for f, selfatom, env in self.roots:
      key = (f.q, selfatom, tuple(sorted(env.items())))
      self.frame = root
      self.summary(key, f, selfatom, env)
    self.iterations = 0
    self.solve(root)
    # A wrong type that was met while the tables were growing may no longer be
    # there: these exceptions are found again over the tables as they are now.
    for key in reversed(list(self.modfuncs)):
      x = self.summaries[key]
      exc = {k: v for k, v in x.exc.items()
             if k[0] not in ('TypeError', 'AttributeError')}
      if len(exc) != len(x.exc):
        x.exc = exc
        self.dirty[key] = True
    for _ in range(20):
      self.solve(root)
      try:
        return self.last_pass(root)
      except NewContext as e:
        key = e.args[0]
        if os.environ.get('DTF_TRACE'):
          print('# new context', key, 'from', self.frame.key)
      # The call is added, and everything is looked at again.
      self.final = False
      self.inprogress.clear()
      for d in (self.events, self.binds, self.call_edges,
                self.exit_states, self.node_values, self.live_reads,
                self.live_calls, self.callees, self.computed_attrs,
                self.iteration_sites, self.raise_at, self.handler_types):
        d.clear()
      self.quiet = 0
      self.frame = root
      self.dirty.update(dict.fromkeys(reversed(self.modfuncs)))
    raise P.AnalysisBroken('the last pass does not agree with the fixed point')

  def solve(self, root):
    n = 0
    while self.dirty:
      n += 1
      if n > 60000:
        raise P.AnalysisBroken('the analysis does not converge')
      key, _ = self.dirty.popitem(last=False)
      if key not in self.modfuncs:
        continue
      f, selfatom, env = self.modfuncs[key]
      self.frame = root
      self.analyse(key, f, selfatom, env)
    self.iterations += n
    if os.environ.get('DTF_TRACE'):
      print('# solved', n, len(self.modfuncs), time.time())

  def last_pass(self, root):
    self.final = True
    self.final_done = set()
    for f, selfatom, env in self.roots:
      key = (f.q, selfatom, tuple(sorted(env.items())))
      self.frame = root
      self.summary(key, f, selfatom, env)

  # -- statements -----------------------------------------------------------

  def exec_block(self, stmts, st):
    """Executes statements from one state; joins the outcomes."""
    out = None
    for x in self.exec_many(stmts, [st] if st is not None else []):
      out = join_states(out, x)
    return out

  def exec_many(self, stmts, states):
    """Executes statements from several states, which stay apart as long as
    they tell kinds of values apart."""
    for s in stmts:
      out = []
      for st in states:
        if st is not None and not st.dead:
          out.extend(self.exec_stmts(s, st))
      states = self.merge(out, s)
      if not states:
        return []
    return [x for x in states if x is not None and not x.dead]

  def exec_stmts(self, s, st):
    if self.final:
      self.visited.add(id(s))
    m = getattr(self, 'st_' + type(s).__name__, None)
    if m is None:
      return [st]
    r = m(s, st)
    if r is None:
      return []
    if isinstance(r, State):
      r = [r]
    return [x for x in r if x is not None and not x.dead]

  def exec_stmt(self, s, st):
    out = None
    for x in self.exec_stmts(s, st):
      out = join_states(out, x)
    return out

  def merge(self, states, s):
    if len(states) < 2:
      return states
    f = self.frame.func
    lv = getattr(f, 'liveness', None)
    if lv is None:
      if f.node is None or isinstance(f.node, ast.Lambda):
        lv = False
      else:
        lv = liveness.Liveness(f.node)
      f.liveness = lv
    if not lv:
      out = None
      for x in states:
        out = join_states(out, x)
      return [out]
    live = sorted(lv.after.get(id(s), ()))
    groups = {}
    for st in states:
      k = _shape(st, live)
      groups[k] = join_states(groups.get(k), st)
    while len(groups) > MAX_PARTS:
      keys = list(groups)
      best = None
      for i, a in enumerate(keys):
        for b in keys[i + 1:]:
          d = sum(_apart(x, y) for x, y in zip(a, b) if x != y)
          if best is None or d < best[0]:
            best = (d, a, b)
      _, a, b = best
      j = join_states(groups.pop(a), groups.pop(b))
      k = _shape(j, live)
      groups[k] = join_states(groups.get(k), j)
    return list(groups.values())

  def st_Expr(self, s, st):
    if isinstance(s.value, ast.Constant):
      return st
    v = self.ev(s.value, st)
    if not v and not isinstance(s.value, (ast.Yield, ast.YieldFrom)):
      return None
    for h in self.hooks:
      h('expr', self, s, st, v)
    return st

  def st_Pass(self, s, st):
    return st

  def st_Import(self, s, st):
    for a in s.names:
      name = a.name if a.asname else a.name.split('.')[0]
      st.env[a.asname or name] = self.import_value(name)
    return st

  def st_ImportFrom(self, s, st):
    for a in s.names:
      full = (s.module or '') + '.' + a.name
      st.env[a.asname or a.name] = self.import_value(full)
    return st

  def import_value(self, full):
    if full in self.p.modules:
      return V.atom('mod', full)
    mod, _, last = full.rpartition('.')
    if mod in self.p.modules:
      env = self.module_env(mod)
      if last in env:
        return env[last]
      return V.ANY
    return V.atom('ext', full)

  def st_FunctionDef(self, s, st):
    m = self.frame.func.module
    cls = getattr(self.frame.func, 'classobj', None)
    q = m.name + ':' + ((cls.name + '.') if cls else '') + s.name
    if q in self.p.functions and self.p.functions[q].node is s:
      if not cls:
        st.env[s.name] = V.atom('func', q)
    else:
      q = m.name + ':' + self.frame.func.q.split(':')[-1] + '.' + s.name
      if q not in self.p.functions:
        self.p.functions[q] = P.Func(q, s, m, None)
      st.env[s.name] = V.ANY if not cls else V.ANY
    return st

  def st_ClassDef(self, s, st):
    self.exec_classdef(s, st)
    return st

  def st_Global(self, s, st):
    return st

  def dict_fork(self, node, st):
    """Cases of a look up in a constant table: [(keys or None, value)]."""
    default = None
    if isinstance(node, ast.Call) and isinstance(
        node.func, ast.Attribute) and node.func.attr == 'get' and (
            len(node.args) in (1, 2) and not node.keywords):
      base, key = node.func.value, node.args[0]
      default = (self.ev_quiet(node.args[1], st) if len(node.args) > 1 else
                 V.none('get'))
    elif isinstance(node, ast.Subscript) and not isinstance(
        node.slice, ast.Slice):
      base, key = node.value, node.slice
    else:
      return None
    if not (_is_path(base) or isinstance(base, ast.Dict)) or not _is_path(
        key) or isinstance(key, ast.Constant):
      return None
    b = self.ev_quiet(base, st)
    if len(b) != 1:
      return None
    t = next(iter(b))
    if t[0] != 'dict':
      return None
    h = self.heap_of(t)
    if h.open or h.mutated or not h.items or len(h.items) > 200:
      return None
    kv = self.ev_quiet(key, st)
    if not kv or not all(x[0] in ('int', 'str', 'none', 'bool') for x in kv):
      return None
    groups = {}
    for c, v in h.items.items():
      sh = frozenset(_atom_shape(x) for x in v)
      g = groups.setdefault(sh, [set(), V.BOTTOM])
      g[0].add(c)
      g[1] = V.join(g[1], v)
    if len(groups) > MAX_PARTS:
      return None
    if len(groups) < 2 and (default is None or frozenset(
        _atom_shape(x) for x in default) in groups):
      return None
    out = []
    for cs, v in groups.values():
      kc = V.join_all(V.const(c) for c in cs)
      y = self.restrict(kv, '==', kc)
      if y:
        out.append((key, y, v))
    if default is not None:
      allk = V.join_all(V.const(c) for c in h.items)
      rest = kv
      for c in sorted(h.items, key=repr):
        if isinstance(c, (int, str)):
          rest = self.restrict(rest, '!=', V.const(c)) if rest else rest
      for c in sorted(h.items, key=repr, reverse=True):
        if isinstance(c, (int, str)):
          rest = self.restrict(rest, '!=', V.const(c)) if rest else rest
      if rest:
        out.append((key, rest, default))
    return out if len(out) > 1 else None

  def getattr_fork(self, node, st):
    """x = getattr(y, name, default): cases by whether y has the name."""
    if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and
            node.func.id == 'getattr' and len(node.args) == 3 and
            _is_path(node.args[0]) and isinstance(
                node.args[1], ast.Constant)):
      return None
    b = self.ev_quiet(node.args[0], st)
    d = self.ev_quiet(node.args[2], st)
    if not all(t[0] in ('struct', 'none', 'inst') for t in b):
      return None
    has, hasnot, v = set(), set(), V.BOTTOM
    mark = V.atom('exti', '<missing>')
    self.quiet += 1
    for t in b:
      w = self.atom_attr(t, node.args[1].value, node, st.copy(), mark)
      if ('exti', '<missing>') in w:
        hasnot.add(t)
      else:
        has.add(t)
        v = V.join(v, w)
    self.quiet -= 1
    if not has or not hasnot:
      return None
    return [(node.args[0], frozenset(has), v),
            (node.args[0], frozenset(hasnot), d)]

  def name_fork(self, node, st):
    """x = enumeration.GetName(y): cases by the number of the name."""
    if not (isinstance(node, ast.Call) and isinstance(
        node.func, ast.Attribute) and node.func.attr == 'GetName' and
            len(node.args) == 1 and not node.keywords):
      return None
    key = node.args[0]
    if not _is_path(key) or isinstance(key, ast.Constant):
      return None
    b = self.ev_quiet(node.func.value, st)
    if len(b) != 1 or next(iter(b))[0] != 'map':
      return None
    t = next(iter(b))
    names = self.p.fabrics[t[1]].enumeration(t[2])
    kv = self.ev_quiet(key, st)
    if not names or len(names) > 64 or not kv or not all(
        x[0] == 'int' for x in kv):
      return None
    # only where the number tells decoded structures apart
    if not (isinstance(key, ast.Attribute) and sum(
        1 for x in self.ev_quiet(key.value, st) if x[0] == 'struct') > 1):
      return None
    out = []
    rest = kv
    for n in sorted(names):
      y = self.restrict(kv, '==', V.const(n))
      if y:
        out.append((key, y, V.const(names[n])))
      rest = self.restrict(rest, '!=', V.const(n)) if rest else rest
    for n in sorted(names, reverse=True):
      rest = self.restrict(rest, '!=', V.const(n)) if rest else rest
    if rest:
      out.append((key, rest, V.none('get')))
    return out if len(out) > 1 else None

  def text_fork(self, node, v, st):
    """A look up by a text that is made of a value: cases by that value."""
    if sum(1 for t in v if t[0] == 'map') < 2 and not any(
        t[0] == 'str' and t[1] and 1 < len(t[1]) <= 16 for t in v):
      return None
    for n in ast.walk(node):
      cases = n is not node and isinstance(
          n, (ast.Call, ast.Subscript)) and self.dict_fork(n, st)
      if cases:
        out = []
        for key, kv, _ in cases:
          y = st.copy()
          self.refine(key, kv, y)
          if not y.dead:
            w = self.ev_quiet(node, y)
            if w:
              out.append((key, kv, w))
        return out
      if isinstance(n, ast.FormattedValue) and _is_path(n.value):
        x = self.ev_quiet(n.value, st)
        c = V.consts(x)
        if c is None and all(t[0] == 'int' for t in x):
          bb = V.bounds(x)
          if bb and None not in bb and bb[1] - bb[0] < 16:
            c = set(range(bb[0], bb[1] + 1))
        if c and 1 < len(c) <= 16:
          out = []
          for k in sorted(c, key=repr):
            y = st.copy()
            self.refine(n.value, V.const(k), y)
            if not y.dead:
              w = self.ev_quiet(node, y)
              if w:
                out.append((n.value, V.const(k), w))
          return out
    return None

  def flag_fork(self, s, st):
    """flag = condition: the case that it holds and the case that not."""
    if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name) or (
        not _is_condition(s.value)):
      return None
    saved = self.dbg_seen
    self.dbg_seen = False
    t, f = self.split(s.value, st.copy())
    dbg = self.dbg_seen
    self.dbg_seen = saved or dbg
    if dbg:
      return None
    out = []
    for c, k in ((t, True), (f, False)):
      if c is not None:
        v = V.atom('bool', k, '')
        if not _is_condition(s.value, True):
          v = V.assume(self.ev_quiet(s.value, c), k) or v
        self.assign(s.targets[0], v, c, None)
        out.append(c)
    return out or None

  def st_Assign(self, s, st):
    out = self.flag_fork(s, st)
    if out:
      return out
    self.last_posts = None
    v = self.ev(s.value, st)
    posts = self.last_posts if isinstance(s.value, ast.Call) else None
    self.last_posts = None
    if not v:
      return None
    if posts and (posts[0] or posts[1]) and len(s.targets) == 1 and isinstance(
        s.targets[0], ast.Name) and all(
            t[0] == 'bool' and not t[2] for t in v):
      out = []
      for k, post in ((True, posts[0]), (False, posts[1])):
        if V.truthiness(v)[0 if k else 1]:
          c = st.copy()
          if post:
            self.apply_post(post, posts[2], c)
          if not c.dead:
            self.assign(s.targets[0], V.atom('bool', k, ''), c, None)
            out.append(c)
      if out:
        return out
    cases = (self.dict_fork(s.value, st) or self.getattr_fork(s.value, st) or
             self.name_fork(s.value, st) or self.text_fork(s.value, v, st))
    if cases:
      out = []
      for key, kv, x in cases:
        c = st.copy()
        self.refine(key, kv, c)
        if c.dead:
          continue
        for t in s.targets:
          self.assign(t, x, c, s.value)
        out.append(c)
      return out
    if isinstance(s.value, ast.Call) and len(s.targets) == 1 and isinstance(
        s.targets[0], ast.Tuple):
      ts = [t for t in v if t[0] == 'tuple']
      if 1 < len(ts) == len(v):
        out = []
        for t in ts:
          c = st.copy()
          self.assign(s.targets[0], frozenset([t]), c, s.value)
          out.append(c)
        return out
    for t in s.targets:
      self.assign(t, v, st, s.value)
    return st

  def st_AnnAssign(self, s, st):
    if s.value is not None:
      v = self.ev(s.value, st)
      if not v:
        return None
      self.assign(s.target, v, st, s.value)
    return st

  def st_AugAssign(self, s, st):
    load = _as_load(s.target)
    load._aug = True
    a = self.ev(load, st)
    b = self.ev(s.value, st)
    if not a or not b:
      return None
    v = self.binop(s.op, a, b, s, st, load, s.value)
    if not v:
      return None
    if any(t[0] in ('list', 'set', 'dict') for t in a):
      for t in a:
        if t[0] in ('list', 'set', 'dict'):
          self.heap_add(t, elem=self.iterate(b, s.value, st), node=s)
    old = None
    if isinstance(s.target, ast.Name):
      old = [x for x in st.facts if s.target.id in x[3]]
    self.assign(s.target, v, st, None)
    if old and isinstance(s.op, ast.Add):
      b2 = V.bounds(b)
      if b2 and b2[0] is not None and b2[0] >= 0:
        # x grew: lower bounds of x stay valid.
        n = s.target.id
        keep = set()
        for (l, op, r, names) in old:
          if r == n and op in ('<', '<=') and n not in _names(l):
            keep.add((l, '<=', r, names))
        st.facts |= frozenset(keep)
    if old and isinstance(s.op, (ast.Add, ast.Sub)) and self.fact_expr(
        s.value) and s.target.id not in _names(ast.unparse(s.value)):
      st.facts |= self.shifted(old, s.target.id, s.op, s.value)
    return st

  def shifted(self, facts, name, op, value):
    """The facts after name = name +/- value, in terms of the new value."""
    inv = ast.Sub() if isinstance(op, ast.Add) else ast.Add()
    sub = ast.unparse(ast.BinOp(
        left=ast.Name(id=name, ctx=ast.Load()), op=inv, right=value))
    out = set()
    extra = _names(ast.unparse(value))
    rx = re.compile(r'(?<![\w.])%s(?![\w.(\[])' % re.escape(name))
    for l, o, r, names in facts:
      if o not in ('<', '<=', '=='):
        continue
      l2, r2 = rx.sub('(%s)' % sub, l), rx.sub('(%s)' % sub, r)
      if len(l2) + len(r2) > 160 or (
          len(re.findall(r'(?<![\w])%s(?!\w)' % re.escape(name), l + r)) !=
          len(re.findall(rx, l + r))):
        continue
      out.add((l2, o, r2, names | extra))
    return frozenset(out)

  def st_Delete(self, s, st):
    for t in s.targets:
      if isinstance(t, ast.Subscript):
        b = self.ev(t.value, st)
        self.ev(t.slice, st)
        for x in b:
          if x[0] in ('list', 'dict', 'set'):
            self.heap_add(x, node=t)
            self.shrink(x)
        self.kill_content(t.value, st)
      elif isinstance(t, ast.Name):
        self.set_name(t.id, V.UNBOUND, st)
    return st

  def st_Return(self, s, st):
    v = V.none('lit') if s.value is None else self.ev(s.value, st)
    if s.value is not None and not v:
      return None
    if self.frame.debug and not (
        self.frame.rest):
      self.event('debug-control', s, 'return')
    self.frame.returns.append((V.drop(v, 'unbound') or V.ANY, st, s))
    for tf in self.frame.trys:
      pass
    return None

  def st_Raise(self, s, st):
    names = None
    if s.exc is None:
      c = self.frame.caught[-1] if self.frame.caught else {}
      for (exc, origin) in list(c):
        self.emit(exc, s, st, origin=origin)
      return None
    v = self.ev(s.exc, st)
    names = models.exception_names(self, v)
    if self.frame.debug:
      self.event('debug-control', s, 'raise')
    for n in names:
      self.emit(n, s, st, 'raise')
    return None

  def st_Assert(self, s, st):
    t, f = self.split(s.test, st)
    if f is not None:
      self.emit('AssertionError', s, f, 'assert')
    return t

  def st_If(self, s, st):
    saved = self.dbg_seen
    self.dbg_seen = False
    t, f = self.split(s.test, st)
    dbg = self.dbg_seen
    self.dbg_seen = saved
    if dbg:
      return self.exec_debug_if(s, t, f)
    out = []
    if t is not None:
      out.extend(self.exec_many(s.body, [t]))
    if f is not None:
      out.extend(self.exec_many(s.orelse, [f]))
    return out

  def exec_debug_if(self, s, t, f):
    """Branches on whether debug output is enabled."""
    out = []
    rest = self.debug_rest(s)
    if rest:
      self.frame.rest = True
    for st, body in ((t, s.body), (f, s.orelse)):
      if st is not None and body:
        self.frame.debug += 1
        st = self.exec_block(body, st)
        self.frame.debug -= 1
      out.append(st)
    if rest:
      self.frame.debug += 1
    return join_states(*out)

  def debug_rest(self, s):
    """Is only the remainder of the function debug output.

    The statement is "if not debug: return" at the level of the function, of
    a function that returns no value.
    """
    node = self.frame.func.node
    if self.frame.func.is_gen or s not in getattr(node, 'body', ()):
      return False
    if s.orelse or not isinstance(s.body[-1], ast.Return):
      return False
    for n in ast.walk(node):
      if isinstance(n, ast.Return) and n.value is not None and not (
          isinstance(n.value, ast.Constant) and n.value.value is None):
        return False
    return True

  def st_While(self, s, st):
    entry = st
    head = st.copy()
    out = None
    saved = self.dbg_seen
    first = None
    for i in range(14):
      self.frame.loops.append(([], [], self.frame.debug))
      self.dbg_seen = False
      t, f = self.split(s.test, head.copy())
      dbg = self.dbg_seen and not self.frame.debug
      self.frame.debug += dbg
      end = None
      if t is not None:
        end = self.exec_block(s.body, t)
      self.frame.debug -= dbg
      brk, cont, _ = self.frame.loops.pop()
      back = end
      for c in cont:
        back = join_states(back, c)
      out = f
      if s.orelse and out is not None:
        out = self.exec_block(s.orelse, out)
      exits = ([out] if out is not None else []) + brk
      if back is None:
        break
      new = join_states(head, back)
      if i >= 2:
        new = widen_states(head, new)
      if same_state(new, head):
        break
      head = new
    self.dbg_seen = saved
    if self.final:
      self.loop_info.setdefault((self.frame.key, id(s)), []).append(
          (self.frame.func, s, head, back, entry))
    return exits

  def st_For(self, s, st):
    it = self.ev(s.iter, st)
    if not it:
      return None
    seq = self.known_items(it)
    if seq is not None and len(seq) <= 200 and (
        len(seq) <= 40 or _unpacks(s)):
      return self.unroll_for(s, seq, st)
    elem = self.iterate(it, s.iter, st)
    self.order_check(it, s.iter, 'for')
    nonempty = self.surely_nonempty(it)
    zero = st.copy()
    if not self.ends(it):
      # The iteration ends with an exception.
      if not elem:
        return None
      nonempty = True
      zero = None
    if not elem:
      return self.exec_block(s.orelse, zero) if s.orelse else zero
    head = st
    out = None
    exits = None
    for i in range(12):
      self.frame.loops.append(([], [], self.frame.debug))
      body = head.copy()
      self.assign(s.target, elem, body, None)
      self.index_fact(s, body)
      end = self.exec_block(s.body, body)
      brk, cont, _ = self.frame.loops.pop()
      back = end
      for c in cont:
        back = join_states(back, c)
      exits = brk
      normal = None if zero is None else (
          back if nonempty else join_states(zero, back))
      out = normal
      if back is None:
        break
      new = join_states(head, back)
      if i >= 2:
        new = widen_states(head, new)
      if same_state(new, head):
        break
      head = new
    if s.orelse and out is not None:
      out = self.exec_block(s.orelse, out)
    return ([out] if out is not None else []) + (exits or [])

  def ends(self, it):
    """Whether an iteration can come to its end."""
    for t in it:
      if t[0] != 'gen':
        return True
      s = self.summaries.get(t[1])
      if s is None or not s.done or s.normal:
        return True
    return False

  def index_fact(self, s, st):
    """Facts the iteration itself establishes."""
    it = s.iter
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
      if it.func.id == 'range' and isinstance(s.target, ast.Name):
        hi = it.args[-1] if len(it.args) in (1, 2) else None
        if hi is not None:
          self.add_fact(s.target, '<', hi, st)
      elif it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(
          s.target, ast.Tuple):
        if _is_path(it.args[0]) and isinstance(s.target.elts[0], ast.Name):
          n = s.target.elts[0].id
          p = ast.unparse(it.args[0])
          st.facts |= frozenset([
              (n, '<', 'len(%s)' % p,
               frozenset([n]) | _names(p))])

  def unroll_for(self, s, seq, st):
    exits = []
    cur = [st]
    for v in seq:
      nxt = []
      for x in cur:
        self.frame.loops.append(([], [], self.frame.debug))
        self.assign(s.target, v, x, None)
        if x.dead:
          self.frame.loops.pop()
          continue
        end = self.exec_many(s.body, [x])
        brk, cont, _ = self.frame.loops.pop()
        nxt.extend(end)
        nxt.extend(cont)
        exits.extend(brk)
      cur = self.merge(nxt, s.body[-1])
      exits = self.merge(exits, s)
    if s.orelse and cur:
      cur = self.exec_many(s.orelse, cur)
    return cur + exits

  def known_items(self, it):
    """The items of a constant iterable in order, or None."""
    if len(it) != 1:
      return None
    t = next(iter(it))
    if t[0] == 'tuple':
      return list(t[1])
    if t[0] == 'list':
      h = self.heap_of(t)
      if h.seq is not None and not h.mutated:
        return list(h.seq)
    return None

  def surely_nonempty(self, it):
    for t in it:
      if t[0] == 'vtuple' and t[2] > 0:
        continue
      if t[0] == 'tuple' and t[1]:
        continue
      if t[0] in ('list', 'dict', 'set'):
        h = self.heap_of(t)
        if not h.mutated and (h.seq or h.items):
          continue
      return False
    return bool(it)

  def st_Break(self, s, st):
    lp = self.frame.loops[-1]
    if self.frame.debug > lp[2]:
      self.event('debug-control', s, 'break')
    lp[0].append(st)
    return None

  def st_Continue(self, s, st):
    lp = self.frame.loops[-1]
    if self.frame.debug > lp[2]:
      self.event('debug-control', s, 'continue')
    lp[1].append(st)
    return None

  def st_With(self, s, st):
    for item in s.items:
      v = self.ev(item.context_expr, st)
      if not v:
        return None
      if item.optional_vars is not None:
        self.assign(item.optional_vars, v, st, None)
    return self.exec_many(s.body, [st])

  def st_Try(self, s, st):
    handlers = []
    for h in s.handlers:
      if h.type is None:
        handlers.append(None)
      else:
        handlers.append(tuple(models.exception_names(
            self, self.ev_quiet(h.type, st), h.type)))
    if self.final:
      for h, x in zip(s.handlers, handlers):
        self.handler_types[id(h)] = x
    tf = TryFrame(handlers)
    tf.debug = self.frame.debug
    fin_exc_before = set(self.frame.exc)
    self.frame.trys.append(tf)
    nret = len(self.frame.returns)
    out = self.exec_many(s.body, [st.copy() if s.finalbody else st])
    self.frame.trys.pop()
    if out and s.orelse:
      out = self.exec_many(s.orelse, out)
    for i, h in enumerate(s.handlers):
      hs = tf.pending[i]
      if hs is None:
        continue
      if h.name:
        self.set_name(h.name, V.atom('exti', 'exception'), hs)
      self.frame.caught.append(tf.caught[i])
      if self.final:
        self.event('handler', h, ','.join(sorted(
            {e for e, _ in tf.caught[i]})), types=handlers[i])
      before = len(self.frame.returns)
      hs = self.exec_many(h.body, [hs])
      self.frame.caught.pop()
      if self.final:
        jumps = any(isinstance(n, (ast.Break, ast.Continue))
                    for x in h.body for n in ast.walk(x))
        if hs or jumps or len(self.frame.returns) > before:
          self.swallows.setdefault(
              (self.frame.func.q, id(h), self.frame.debug > 0), (
                  s, h, set()))[2].update(tf.caught[i])
      for x in hs:
        if h.name:
          self.set_name(h.name, V.UNBOUND, x)
      out = out + hs
    if s.finalbody:
      # Also on the way out of an exception or return.
      if not out or set(self.frame.exc) - fin_exc_before or (
          len(self.frame.returns) > nret):
        self.exec_block(s.finalbody, st.copy())
      out = self.exec_many(s.finalbody, self.merge(out, s))
    return out

  # -- assignment -----------------------------------------------------------

  def set_name(self, name, v, st):
    env = st.env
    env[name] = v
    if self.frame.debug == 0:
      st.dbgdef.pop(name, None)
      self.frame.plain_bound.add(name)
    else:
      st.dbgdef[name] = self.frame.debug
      self.frame.dbg_bound.add(name)
    p1, p2 = name + '.', name + '['
    dead = [k for k in env if k.startswith(p1) or k.startswith(p2) or
            ('[' in k and '[' + name + ']' in k)]
    for k in dead:
      del env[k]
    if st.facts:
      st.facts = frozenset(x for x in st.facts if name not in x[3])
    if st.alias:
      st.alias.pop(name, None)
      dead = [k for k, a in st.alias.items()
              if any(isinstance(n, ast.Name) and n.id == name
                     for n in ast.walk(a))]
      for k in dead:
        del st.alias[k]

  def assign(self, target, v, st, vnode):
    if isinstance(target, ast.Name):
      self.frame.assigned.add(target.id)
      if self.frame.key and self.frame.key[0] == 'module':
        self.touch(('mod', self.frame.func.module.name, target.id))
      self.set_name(target.id, v, st)
      if vnode is not None and self.simple(vnode) and not any(
          isinstance(n, ast.Name) and n.id == target.id
          for n in ast.walk(vnode)):
        st.alias[target.id] = vnode
        t = ast.unparse(vnode)
        st.facts |= frozenset([
            (target.id, '==', t, frozenset([target.id]) | _names(t))])
      elif vnode is not None and isinstance(vnode, ast.BinOp):
        self.sum_facts(target.id, vnode, st)
        t = ast.unparse(vnode)
        if len(t) < 100 and self.fact_expr(vnode) and (
            target.id not in _names(t)):
          st.facts |= frozenset([
              (target.id, '==', t, frozenset([target.id]) | _names(t))])
      elif (isinstance(vnode, ast.Call) and isinstance(vnode.func, ast.Name)
            and vnode.func.id in ('min', 'max') and len(vnode.args) > 1):
        for a in vnode.args:
          t = ast.unparse(a)
          if self.fact_expr(a) and target.id not in _names(t):
            l, r = target.id, t
            if vnode.func.id == 'max':
              l, r = r, l
            st.facts |= frozenset([
                (l, '<=', r, frozenset([target.id]) | _names(t))])
    elif isinstance(target, (ast.Tuple, ast.List)):
      self.unpack(target, v, st, vnode)
    elif isinstance(target, ast.Attribute):
      self.assign_attr(target, v, st, vnode)
    elif isinstance(target, ast.Subscript):
      b = self.ev(target.value, st)
      if isinstance(target.slice, ast.Slice):
        i = V.INT
      else:
        i = self.ev(target.slice, st)
      for t in b:
        if t[0] == 'dict':
          self.dict_set(t, i, v, node=target)
        elif t[0] in ('list', 'set'):
          self.heap_add(t, elem=v, node=target)
          if isinstance(target.slice, ast.Slice):
            self.shrink(t)
        elif t[0] in ('none',) and t[1] not in models.QUIET_NONE:
          self.event('type', target, 'item assignment on None')
          self.emit('TypeError', target, st, 'item assignment on None')
        elif t[0] in ('tuple', 'str', 'bytes', 'int', 'float'):
          self.event('type', target, 'item assignment on ' + V.show(
              frozenset([t])))
          self.emit('TypeError', target, st, 'item assignment')
      if b and all(t[0] == 'dict' for t in b) and not isinstance(
          target.slice, ast.Slice):
        self.in_facts(target.slice, target.value, st)
    elif isinstance(target, ast.Starred):
      self.assign(target.value, V.vtuple(V.ANY), st, None)

  def sum_facts(self, name, vnode, st):
    """x = a + b with b >= 0 establishes a <= x."""
    if not isinstance(vnode.op, ast.Add):
      return
    for a, b in ((vnode.left, vnode.right), (vnode.right, vnode.left)):
      if not self.simple(a) or name in _names(ast.unparse(a)):
        continue
      bv = V.bounds(self.ev_quiet(b, st))
      if bv and bv[0] is not None and bv[0] >= 0:
        t = ast.unparse(a)
        op = '<' if bv[0] > 0 else '<='
        st.facts |= frozenset([
            (t, op, name, frozenset([name]) | _names(t))])

  @staticmethod
  def simple(node):
    """Is this an expression that can be tracked by its text."""
    if _is_path(node):
      return not isinstance(node, ast.Constant)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and (
        node.func.id == 'len') and len(node.args) == 1:
      return _is_path(node.args[0])
    return False

  def unpack(self, target, v, st, vnode):
    n = len(target.elts)
    star = any(isinstance(e, ast.Starred) for e in target.elts)
    parts = [V.BOTTOM] * n
    for t in v:
      k = t[0]
      if k == 'tuple':
        if star:
          parts = [V.ANY] * n
          continue
        if len(t[1]) != n:
          self.event('unpack', target, '%d values unpacked into %d names' % (
              len(t[1]), n))
          self.emit('ValueError', target, st, 'unpack')
          continue
        parts = [V.join(a, b) for a, b in zip(parts, t[1])]
      elif k in ('none',):
        if t[1] not in models.QUIET_NONE:
          self.event('unpack', target, 'None is unpacked')
          self.emit('TypeError', target, st, 'None is unpacked')
      elif k in ('int', 'float', 'bool', 'struct', 'inst', 'map', 'func',
                 'bound', 'file'):
        self.event('unpack', target, '%s is unpacked into %d names' % (
            V.show(frozenset([t])), n))
        self.emit('TypeError', target, st, 'unpack')
      elif k == 'str':
        if t[1] is not None and all(len(s) == n for s in t[1]):
          parts = [V.join(a, V.NSTR) for a in parts]
          continue
        self.event('unpack', target, 'a string is unpacked into %d names' % n)
        self.emit('ValueError', target, st, 'unpack of a string')
      elif k == 'vtuple':
        if not star and not (t[2] == n and t[3] == n):
          self.emit('ValueError', target, st, 'unpack of a sequence')
        parts = [V.join(a, t[1]) for a in parts]
      elif k == 'list':
        h = self.heap_of(t)
        if h.seq is not None and len(h.seq) == n and not star:
          parts = [V.join(a, b) for a, b in zip(parts, h.seq)]
        else:
          if not star:
            self.emit('ValueError', target, st, 'unpack of a list')
          parts = [V.join(a, h.elem) for a in parts]
      elif k == 'bytes':
        if not star and not (t[2] == n and t[3] == n):
          self.emit('ValueError', target, st, 'unpack of bytes')
        parts = [V.join(a, V.int_range(0, 255)) for a in parts]
      elif k == 'unbound':
        continue
      else:
        parts = [V.join(a, V.ANY) for a in parts]
    if any(not x for x in parts):
      st.dead = True
      return
    for e, x in zip(target.elts, parts):
      if isinstance(e, ast.Starred):
        self.assign(e.value, V.vtuple(V.ANY), st, None)
      else:
        self.assign(e, x, st, None)

  def assign_attr(self, target, v, st, vnode):
    b = self.ev(target.value, st)
    if not b:
      st.dead = True
      return
    name = target.attr
    self.frame.mods.add(name)
    public = any(
        t[0] == 'struct' and self.p.fabrics[t[1]].field_type(
            t[2], name) is not None or t[0] == 'inst' and name[:1] != '_'
        for t in b)
    self.effect(('attr', name, public), target)
    for t in b:
      k = t[0]
      if k == 'inst':
        c = self.p.classes[t[1]]
        setter = None
        for q in c.mro:
          setter = setter or self.p.classes[q].setters.get(name)
        if setter is not None:
          self.call_func(setter, t, [v], {}, target, st)
        else:
          if self.final:
            self.event('store-attr', target, name, cls=t[1], value=v)
          self.attr_set(t[1], name, v)
      elif k == 'struct':
        self.set_struct_attr(t, name, v)
      elif k == 'cls':
        self.event('mutate-shared', target, 'class attribute %s' % name)
        key = (t[1], name)
        old = self.global_attrs.get(key, V.BOTTOM)
        new = V.join(old, V.depth_limit(v))
        if new != old:
          self.global_attrs[key] = V.widen(old, new) if old else new
          self.touch(('gattr',) + key)
      elif k == 'mod':
        self.event('mutate-shared', target, 'module attribute %s' % name)
      elif k == 'none' and t[1] not in models.QUIET_NONE:
        self.event('none', target, 'attribute %s is set on None' % name)
        self.emit('AttributeError', target, st, 'attribute of None')
    self.strong_struct_attr(target.value, b, name, v, st)
    pth = _path(target)
    if pth:
      pre = pth + '.'
      for kk in [x for x in st.env if x.startswith(pre)]:
        del st.env[kk]
      st.env[pth] = v
      suffix = '.' + name
      if st.facts:
        st.facts = frozenset(
            x for x in st.facts if suffix not in x[0] and suffix not in x[2])
      dead = [k for k, a in st.alias.items()
              if any(isinstance(n, ast.Attribute) and n.attr == name
                     for n in ast.walk(a))]
      for k in dead:
        del st.alias[k]

  def set_struct_attr(self, t, name, v):
    """Weak update of an attribute that is not part of the layout."""
    if self.p.fabrics[t[1]].field_type(t[2], name) is not None:
      return
    key = (t[1], t[2], name)
    old = self.struct_attrs.get(key, V.BOTTOM)
    new = V.join(old, V.depth_limit(V.drop(v, 'unbound')))
    if new != old:
      self.struct_attrs[key] = V.widen(old, new) if old else new
      self.touch(('sattr',) + key)

  def strong_struct_attr(self, node, b, name, v, st):
    """The attribute of a structure that is reached by a path is set."""
    if not any(t[0] == 'struct' for t in b) or not _is_path(node):
      return
    out = []
    for t in b:
      if t[0] == 'struct':
        refs = dict(t[3])
        refs[name] = V.depth_limit(V.drop(v, 'unbound')) or V.ANY
        t = t[:3] + (tuple(sorted(refs.items(), key=lambda kv: kv[0])),)
      out.append(t)
    self.refine(node, V.normalise(out), st)

  # -- refinement -----------------------------------------------------------

  def refine(self, node, v, st, depth=0):
    """Sets the value of an expression; marks the state dead on bottom."""
    if not v:
      st.dead = True
      return
    if isinstance(node, ast.Name):
      old = st.env.get(node.id)
      if old is None:
        return
      st.env[node.id] = v
      a = st.alias.get(node.id)
      if a is not None and depth < 4:
        if isinstance(a, ast.Call):
          self.refine_len(a.args[0], v, st)
        else:
          self.refine(a, v, st, depth + 1)
      # Other names that are equal to this one.
      if depth < 2:
        for k, x in list(st.alias.items()):
          if isinstance(x, ast.Name) and x.id == node.id and k in st.env:
            st.env[k] = v
    elif isinstance(node, ast.Attribute):
      b = self.ev_quiet(node.value, st)
      if any(t[0] == 'struct' for t in b):
        out = []
        many = sum(1 for t in b if t[0] == 'struct') > 1
        for t in b:
          if t[0] == 'struct':
            refs = dict(t[3])
            new = v
            if many:
              self.quiet += 1
              own = self.struct_attr(t, node.attr, node, st)
              self.quiet -= 1
              new = self.meet(own, v)
              if not new:
                continue
            refs[node.attr] = new
            t = t[:3] + (tuple(sorted(refs.items(), key=lambda kv: kv[0])),)
          out.append(t)
        if _is_path(node.value):
          self.refine(node.value, V.normalise(out), st, depth)
        if depth < 2:
          u = ast.unparse(node)
          for k, x in list(st.alias.items()):
            if isinstance(x, ast.Attribute) and ast.unparse(x) == u and (
                k in st.env):
              st.env[k] = v
      else:
        pth = _path(node)
        if pth:
          st.env[pth] = v
    elif isinstance(node, ast.Subscript):
      pth = _path(node)
      if pth:
        st.env[pth] = v
    elif isinstance(node, ast.NamedExpr):
      self.refine(node.target, v, st, depth)

  def meet(self, own, v):
    """The part of own that is also described by v."""
    if V.has(v, 'any'):
      return own
    out = set()
    for t in own:
      if t[0] == 'any':
        return v
      same = frozenset(x for x in v if x[0] == t[0])
      if not same:
        continue
      if t[0] == 'int':
        for x in same:
          if x[3] is not None:
            if t[3] is not None:
              out |= set(V.int_set(t[3] & x[3]))
            else:
              out |= set(V.int_set({
                  y for y in x[3] if (t[1] is None or y >= t[1]) and
                  (t[2] is None or y <= t[2])}))
          else:
            cur = {t}
            if x[1] is not None:
              cur = {z for y in cur for z in V.int_restrict(y, '>=', x[1])}
            if x[2] is not None:
              cur = {z for y in cur for z in V.int_restrict(y, '<=', x[2])}
            out |= cur
      elif t[0] in ('str', 'bytes') and t[1] is not None:
        for x in same:
          c = t[1] if x[1] is None else t[1] & x[1]
          if c:
            out |= V.str_set(c) if t[0] == 'str' else V.bytes_set(c)
      elif t[0] in ('str', 'bytes', 'bool'):
        out |= same
      else:
        out.add(t)
    return V.normalise(out)

  def refine_len(self, node, lv, st):
    """The length of an expression has the int value lv."""
    b = V.bounds(lv)
    if b is None or not _is_path(node):
      return
    lo, hi = b
    cur = self.ev_quiet(node, st)
    out = []
    for t in cur:
      if t[0] == 'bytes':
        l = max(t[2], lo or 0)
        h = t[3] if hi is None else (hi if t[3] is None else min(hi, t[3]))
        if h is not None and l > h:
          continue
        t = ('bytes', t[1], l, h, t[4])
      elif t[0] == 'vtuple':
        l = max(t[2], lo or 0)
        h = t[3] if hi is None else (hi if t[3] is None else min(hi, t[3]))
        if h is not None and l > h:
          continue
        t = ('vtuple', t[1], l, h)
      elif t[0] == 'str':
        if lo is not None and lo > 0:
          t = ('str', t[1], True)
      out.append(t)
    self.refine(node, V.normalise(out), st)

  def len_operand(self, node, st):
    """x when the expression is len(x), directly or through a name."""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and (
        node.func.id == 'len') and len(node.args) == 1 and _is_path(
            node.args[0]):
      return node.args[0]
    if isinstance(node, ast.Name):
      a = st.alias.get(node.id)
      if a is not None:
        return self.len_operand(a, st) if not isinstance(a, ast.Name) else None
    return None

  def checked_len(self, node, st):
    """The length of the operand was compared: clears 'short'."""
    cur = self.ev_quiet(node, st)
    if any(t[0] == 'bytes' and t[4] for t in cur):
      out = frozenset(
          t[:4] + (frozenset(),) if t[0] == 'bytes' else t for t in cur)
      self.refine(node, out, st)

  def add_fact(self, l, op, r, st):
    if not (self.fact_expr(l) and self.fact_expr(r)):
      return
    a, b = ast.unparse(l), ast.unparse(r)
    names = _names(a) | _names(b)
    if not names:
      return
    if op in ('>', '>='):
      a, b, op = b, a, {'>': '<', '>=': '<='}[op]
    st.facts |= frozenset([(a, op, b, names)])

  def fact_expr(self, n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, bytes, str)):
      return True
    if self.simple(n):
      return True
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
      return self.fact_expr(n.left) and self.fact_expr(n.right)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      return self.fact_expr(n.operand)
    return False

  # -- conditions -----------------------------------------------------------

  def split(self, node, st):
    """Evaluates a condition: (state when true, state when false)."""
    if isinstance(node, ast.BoolOp):
      if isinstance(node.op, ast.And):
        t, out = st, None
        for x in node.values:
          if t is None:
            break
          t, f = self.split(x, t)
          out = join_states(out, f)
        return t, out
      f, out = st, None
      for x in node.values:
        if f is None:
          break
        t, f = self.split(x, f)
        out = join_states(out, t)
      return out, f
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
      t, f = self.split(node.operand, st)
      return f, t
    if isinstance(node, ast.Compare):
      if len(node.ops) == 1:
        return self.split_compare(
            node, node.left, node.ops[0], node.comparators[0], st)
      left = node.left
      t, out = st, None
      for op, right in zip(node.ops, node.comparators):
        if t is None:
          break
        t, f = self.split_compare(node, left, op, right, t)
        out = join_states(out, f)
        left = right
      return t, out
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and (
        node.func.id == 'isinstance') and len(node.args) == 2:
      return self.split_isinstance(node, st)
    self.last_posts = None
    v = self.ev(node, st)
    posts = self.last_posts if isinstance(node, ast.Call) else None
    self.last_posts = None
    if not v:
      return None, None
    mt, mf = V.truthiness(v)
    t = f = None
    path = _is_path(node) or isinstance(node, ast.NamedExpr)
    if mt:
      t = st.copy()
      if path:
        self.refine(node, V.assume(v, True), t)
        u = ast.unparse(node)
        t.facts |= frozenset([(u, 'true', '', _names(u))])
      if posts and posts[0]:
        self.apply_post(posts[0], posts[2], t)
      if t.dead:
        t = None
    if mf:
      f = st.copy()
      if path:
        self.refine(node, V.assume(v, False), f)
      if posts and posts[1]:
        self.apply_post(posts[1], posts[2], f)
      if f.dead:
        f = None
    return t, f

  _KINDS = {
      'str': ('str',), 'bytes': ('bytes',), 'int': ('int', 'bool'),
      'bool': ('bool',), 'float': ('float',), 'tuple': ('tuple', 'vtuple'),
      'list': ('list',), 'dict': ('dict',), 'set': ('set',)}

  def split_isinstance(self, node, st):
    v = self.ev(node.args[0], st)
    c = self.ev(node.args[1], st)
    if not v:
      return None, None
    kinds, classes, unknown = set(), set(), False
    for t in c:
      for u in (t[1] if t[0] == 'tuple' else (frozenset([t]),)):
        for w in u:
          if w[0] == 'ext' and w[1].startswith('builtins.') and (
              w[1][9:] in self._KINDS):
            kinds.update(self._KINDS[w[1][9:]])
          elif w[0] == 'cls':
            classes.add(w[1])
          else:
            unknown = True
    yes, no = set(), set()
    for t in v:
      k = t[0]
      if k in ('any', 'exti', 'iter', 'file', 'ext'):
        yes.add(t)
        no.add(t)
      elif k == 'inst':
        if set(self.p.classes[t[1]].mro) & classes:
          yes.add(t)
        else:
          no.add(t)
          if unknown:
            yes.add(t)
      elif k in kinds:
        yes.add(t)
      elif k == 'struct' and unknown:
        yes.add(t)
        no.add(t)
      else:
        no.add(t)
        if unknown and k in ('dict', 'list', 'int'):
          yes.add(t)
    if any(t == ('any',) for t in v) and kinds and not classes and not unknown:
      yes.discard(('any',))
      typed = {'str': V.STR, 'bytes': V.BYTES, 'int': V.INT, 'bool': V.BOOL,
               'float': V.FLOAT}
      got = [typed[k] for k in kinds if k in typed]
      if len(got) == len([k for k in kinds]):
        for g in got:
          yes |= g
      else:
        yes.add(('any',))
    t = f = None
    if yes:
      t = st.copy()
      if _is_path(node.args[0]):
        self.refine(node.args[0], V.normalise(yes), t)
    if no:
      f = st.copy()
      if _is_path(node.args[0]):
        self.refine(node.args[0], V.normalise(no), f)
    return t, f

  _OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
          ast.Gt: '>', ast.GtE: '>='}
  _NEG = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', '>': '<=', '>=': '<'}
  _SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}

  def split_compare(self, node, ln, op, rn, st):
    lv = self.ev(ln, st)
    rv = self.ev(rn, st)
    if not lv or not rv:
      return None, None
    if isinstance(op, (ast.Is, ast.IsNot)):
      isnone = all(t[0] == 'none' for t in rv)
      if not isnone:
        return st.copy(), st.copy()
      y = frozenset(t for t in lv if t[0] in ('none', 'any', 'exti', 'iter'))
      n = V.drop(lv, 'none')
      t = f = None
      if y:
        t = st.copy()
        if V.has(lv, 'any') or _is_path(ln):
          y2 = frozenset(x for x in y if x[0] == 'none') or V.none('lit')
          if _is_path(ln):
            self.refine(ln, y2, t)
      if n:
        f = st.copy()
        if _is_path(ln):
          self.refine(ln, n, f)
      if isinstance(op, ast.IsNot):
        t, f = f, t
      return t, f
    if isinstance(op, (ast.In, ast.NotIn)):
      t, f = self.split_in(ln, lv, rn, rv, st, node)
      if isinstance(op, ast.NotIn):
        t, f = f, t
      return t, f
    o = self._OPS[type(op)]
    self.check_compare(node, o, lv, rv, st)
    known = self.decided(ln, o, rn, st) if st.facts else None
    if known is not None:
      return (st.copy(), None) if known else (None, st.copy())
    t = st.copy()
    f = st.copy()
    self.apply_cmp(o, ln, lv, rn, rv, t)
    self.apply_cmp(self._NEG[o], ln, lv, rn, rv, f)
    return (None if t.dead else t), (None if f.dead else f)

  def decided(self, ln, o, rn, st):
    """The outcome of a comparison for equality that was made before."""
    if o not in ('==', '!=') or not self.simple(ln):
      return None
    if not (isinstance(rn, ast.Constant) or self.simple(rn)):
      return None
    a, b = ast.unparse(ln), ast.unparse(rn)
    out = None
    for x, op, y, _ in st.facts:
      if x == a and y == b or x == b and y == a:
        if op == '!=':
          out = o == '!='
        elif op == '==' and isinstance(rn, ast.Constant):
          out = o == '=='
    return out

  def check_compare(self, node, o, lv, rv, st):
    if o in ('==', '!='):
      lk = {t[0] for t in lv} - {'none', 'unbound'}
      rk = {t[0] for t in rv} - {'none', 'unbound'}
      for a, b in ((lk, rk), (rk, lk)):
        if a and b and a <= {'str'} and b <= {'bytes', 'int'}:
          self.event('compare', node, '%s is compared with %s' % (
              V.show(lv), V.show(rv)))
      return
    for a in lv:
      for b in rv:
        x = models.order_kind(a)
        y = models.order_kind(b)
        if x is None or y is None:
          continue
        if x == 'none' or y == 'none' or x != y:
          if (a[0] == 'none' and a[1] in models.QUIET_NONE) or (
              b[0] == 'none' and b[1] in models.QUIET_NONE):
            continue
          self.event('compare', node, '%s is ordered against %s' % (
              V.show(frozenset([a])), V.show(frozenset([b]))))
          self.emit('TypeError', node, st, 'comparison')

  def apply_cmp(self, o, ln, lv, rn, rv, st):
    """Restricts a state by the comparison ln o rn."""
    self.add_fact(ln, o, rn, st)
    for a, av, b, bv, op in ((ln, lv, rn, rv, o),
                             (rn, rv, ln, lv, self._SWAP[o])):
      new = self.restrict(av, op, bv)
      if not new:
        st.dead = True
        return
      x = self.len_operand(a, st)
      if x is not None:
        bb = V.bounds(bv)
        zero = bb == (0, 0)
        if op in ('==', '>=', '>') and not zero:
          self.checked_len(x, st)
        self.refine_len(x, new, st)
        if st.dead:
          return
      if _is_path(a) and new != av:
        self.refine(a, new, st)
        if st.dead:
          return
      if isinstance(a, ast.NamedExpr) and new != av:
        self.refine(a, new, st)
      if isinstance(a, ast.Tuple) and isinstance(b, ast.Tuple) and (
          op == '==') and len(a.elts) == len(b.elts):
        for x1, y1 in zip(a.elts, b.elts):
          self.apply_cmp('==', x1, self.ev_quiet(x1, st), y1,
                         self.ev_quiet(y1, st), st)
          if st.dead:
            return

  def restrict(self, av, op, bv):
    """The part of av for which 'av op bv' can hold."""
    bb = V.bounds(frozenset(t for t in bv if t[0] in ('int', 'bool')))
    bc = V.consts(bv)
    other = any(t[0] in ('any', 'float', 'exti', 'struct', 'inst')
                for t in bv)
    out = set()
    for t in av:
      k = t[0]
      if k == 'float':
        if bb is None:
          bl = bh = bool(bv) and all(t[1:] == ('lo', 'hi') for t in bv)
        else:
          bl, bh = (x is not None and not other for x in bb)
        flags = set(t[1:])
        if bh and op in ('<', '<=', '=='):
          flags.add('hi')
        if bl and op in ('>', '>=', '=='):
          flags.add('lo')
        out.add(('float',) + tuple(
            x for x in ('lo', 'hi') if x in flags))
        continue
      if k in ('int',):
        if other or bb is None:
          if op == '==' and not other:
            continue
          out.add(t)
          continue
        lo, hi = bb
        cur = {t}
        if op == '==':
          if bc is not None and all(
              isinstance(x, (int, type(None))) for x in bc):
            ints = {int(x) for x in bc if x is not None}
            if t[3] is not None:
              out |= set(V.int_set(t[3] & ints))
            else:
              keep = {x for x in ints if (t[1] is None or x >= t[1]) and
                      (t[2] is None or x <= t[2])}
              out |= set(V.int_set(keep))
            continue
          if lo is not None:
            cur = {y for x in cur for y in V.int_restrict(x, '>=', lo)}
          if hi is not None:
            cur = {y for x in cur for y in V.int_restrict(x, '<=', hi)}
        elif op == '!=':
          if lo is not None and lo == hi and all(
              x[0] in ('int', 'bool') for x in bv):
            cur = {y for x in cur for y in V.int_restrict(x, '!=', lo)}
        elif op in ('<', '<='):
          if hi is not None:
            cur = {y for x in cur for y in V.int_restrict(x, op, hi)}
        elif op in ('>', '>='):
          if lo is not None:
            cur = {y for x in cur for y in V.int_restrict(x, op, lo)}
        out |= cur
      elif k == 'bool':
        if bc is not None and op in ('==', '!='):
          vals = (True, False) if t[1] is None else (t[1],)
          if op == '==':
            vals = [x for x in vals if x in bc]
          elif len(bc) == 1:
            vals = [x for x in vals if x not in bc]
          if len(vals) == 2:
            out.add(t)
          elif len(vals) == 1:
            out.add(('bool', vals[0], t[2]))
        else:
          out.add(t)
      elif k in ('str', 'bytes'):
        if op == '==' and not other:
          if not any(x[0] == k for x in bv):
            continue
          if bc is not None:
            mine = {x for x in bc if isinstance(
                x, str if k == 'str' else bytes)}
            if t[1] is not None:
              mine &= t[1]
            elif k == 'bytes':
              mine = {x for x in mine if len(x) >= t[2] and (
                  t[3] is None or len(x) <= t[3])}
            if k == 'bytes':
              mine = mine - V.excluded(t)
            if mine:
              if k == 'str':
                out |= V.str_set(mine)
              else:
                out |= V.bytes_set(mine)
            continue
          out.add(t)
        elif op == '!=' and bc is not None and len(bc) == 1 and (
            t[1] is not None):
          rest = t[1] - bc
          if rest:
            out |= V.str_set(rest) if k == 'str' else V.bytes_set(rest)
        elif op == '!=' and k == 'str' and bc == {''}:
          out.add(('str', t[1], True))
        else:
          out.add(t)
      elif k == 'none':
        if op == '==':
          if other or any(x[0] == 'none' for x in bv):
            out.add(t)
        elif op == '!=':
          if not (bc == {None}):
            out.add(t)
        elif op in ('<', '<=', '>', '>='):
          pass
      elif k == 'tuple' and op == '==' and not other and bv and all(
          x[0] != 'tuple' or len(x[1]) == len(t[1]) and not all(
              self.restrict(p, '==', q) for p, q in zip(t[1], x[1]))
          for x in bv) and all(x[0] in ('tuple', 'none') for x in bv):
        # No tuple on the other side has elements this one can have.
        continue
      elif k == 'any' and op == '==' and bc is not None and not other:
        out |= bv
      else:
        out.add(t)
    return V.normalise(out)

  def split_in(self, ln, lv, rn, rv, st, node):
    keys = V.BOTTOM
    exact = True
    for t in rv:
      k = t[0]
      if k == 'tuple':
        keys = V.join(keys, V.join_all(t[1]))
      elif k == 'dict':
        h = self.heap_of(t)
        if h.open or h.mutated:
          exact = False
        keys = V.join(keys, h.key)
      elif k in ('list', 'set'):
        h = self.heap_of(t)
        if h.mutated or (k == 'list' and h.seq is None and h.elem):
          exact = False
        keys = V.join(keys, h.elem)
      elif k == 'vtuple':
        exact = False
        keys = V.join(keys, t[1])
      elif k == 'none' and t[1] not in models.QUIET_NONE:
        self.event('type', node, "'in' on None")
        self.emit('TypeError', node, st, "'in' on None")
      elif k in ('int', 'float', 'bool'):
        self.event('type', node, "'in' on %s" % V.show(frozenset([t])))
        self.emit('TypeError', node, st, "'in'")
      else:
        return self.in_facts(ln, rn, st.copy()), st.copy()
    t = self.in_facts(ln, rn, st.copy())
    f = st.copy()
    yes = self.restrict(lv, '==', keys) if keys else V.BOTTOM
    no = lv
    cs = V.consts(keys) if keys else set()
    if exact and cs is not None:
      out = set()
      for a in lv:
        if a[0] == 'int' and a[3] is not None:
          out |= set(V.int_set(a[3] - cs))
        elif a[0] == 'int' and len(cs) < 50:
          cur = {a}
          for c in sorted(x for x in cs if isinstance(x, int)):
            cur = {y for x in cur for y in V.int_restrict(x, '!=', c)}
          for c in sorted((x for x in cs if isinstance(x, int)), reverse=True):
            cur = {y for x in cur for y in V.int_restrict(x, '!=', c)}
          out |= cur
        elif a[0] == 'str' and a[1] is not None:
          out |= V.str_set(a[1] - cs)
        elif a[0] == 'none' and None in cs:
          pass
        else:
          out.add(a)
      no = V.normalise(out)
    if not yes:
      t = None
    elif _is_path(ln):
      self.refine(ln, yes, t)
      if t.dead:
        t = None
    if not no:
      f = None
    elif _is_path(ln):
      self.refine(ln, no, f)
    return t, f

  def in_facts(self, ln, rn, st):
    if _is_path(ln) and _is_path(rn):
      a, b = ast.unparse(ln), ast.unparse(rn)
      st.facts |= frozenset([(a, 'in', b, _names(a) | _names(b))])
    return st

  # -- expressions ----------------------------------------------------------

  def ev_quiet(self, node, st):
    self.quiet += 1
    saved = self.dbg_seen, self.last_posts
    try:
      c = State(dict(st.env), st.facts, dict(st.alias), dict(st.dbgdef))
      return self.ev(node, c)
    finally:
      self.quiet -= 1
      self.dbg_seen, self.last_posts = saved

  def ev(self, node, st):
    m = getattr(self, 'ex_' + type(node).__name__, None)
    v = m(node, st) if m else V.ANY
    if self.final and not self.quiet:
      k = id(node)
      old = self.node_values.get(k)
      self.node_values[k] = v if old is None else V.join(old, v)
    return v

  def ex_Constant(self, node, st):
    if node.value is Ellipsis:
      return V.ANY
    return V.const(node.value)

  def ex_Name(self, node, st):
    n = node.id
    v = st.env.get(n)
    if v is not None:
      if any(t[0] == 'bool' and t[2] for t in v):
        self.dbg_seen = True
      if n in st.dbgdef and self.frame.debug == 0:
        self.event('debug-def', node, n, line=st.dbgdef[n])
      if self.frame.debug and n not in st.dbgdef and any(
          t[0] == 'gen' for t in v):
        st.dbgdef[n] = self.frame.debug    # it is consumed
      if ('unbound',) in v:
        self.event('unbound', node, n)
        self.emit('UnboundLocalError', node, st, 'name %s' % n)
        v = V.drop(v, 'unbound')
        st.env[n] = v
        if not v:
          st.dead = True
      return v
    f = self.frame.func
    if n in f.locals:
      self.event('unbound', node, n)
      self.emit('UnboundLocalError', node, st, 'name %s' % n)
      st.dead = True
      return V.BOTTOM
    env = self.module_env(f.module.name)
    v = env.get(n)
    self.dep(('mod', f.module.name, n))
    if v is not None:
      return V.drop(v, 'unbound')
    if hasattr(builtins, n):
      return V.atom('ext', 'builtins.' + n)
    if n in ('__file__', '__name__'):
      return V.NSTR
    self.event('undefined', node, n)
    self.emit('NameError', node, st, 'name %s' % n)
    return V.BOTTOM

  def ex_Attribute(self, node, st):
    if (self.final and not self.quiet and not self.frame.debug and
        not getattr(node, '_aug', False)):
      self.live_reads.setdefault(node.attr, set()).add(self.frame.func.q)
    pth = _path(node)
    if pth is not None and pth in st.env:
      v = st.env[pth]
      if any(t[0] == 'bool' and t[2] for t in v):
        self.dbg_seen = True
      # The base is evaluated for its events.
      if self.final and not self.quiet:
        b = self.ev(node.value, st)
        self.field_events(b, node, st)
      return v
    b = self.ev(node.value, st)
    if not b:
      return V.BOTTOM
    return self.get_attr(b, node.attr, node, st)

  def field_events(self, b, node, st):
    for t in b:
      if t[0] == 'struct':
        self.event('field', node, '%s.%s' % (t[2], node.attr), struct=t[1])

  def get_attr(self, b, name, node, st, default=None):
    """Reads an attribute of a value."""
    out = V.BOTTOM
    for t in b:
      v = self.atom_attr(t, name, node, st, default)
      out = V.join(out, v)
    return out

  def missing(self, t, name, node, st, default, kind='attribute'):
    if default is not None:
      self.event('getattr-default', node, name, recv=t)
      return default
    self.event(kind, node, '%s has no attribute %s' % (
        V.show(frozenset([t])), name), recv=t, name=name)
    self.emit('AttributeError', node, st, 'attribute %s' % name)
    return V.BOTTOM

  def atom_attr(self, t, name, node, st, default=None):
    k = t[0]
    if k == 'any':
      # The size of a file or file entry of another library.
      if name in ('size', 'st_size'):
        return V.int_range(0, models.MAX_FILE)
      return V.ANY
    if k == 'unbound':
      return V.BOTTOM
    if k == 'struct':
      return self.struct_attr(t, name, node, st, default)
    if k == 'inst':
      return self.inst_attr(t, name, node, st, default)
    if k == 'none':
      if name in ('__class__',):
        return V.ANY
      if default is not None:
        return default
      if t[1] not in models.QUIET_NONE:
        self.event('none', node, 'attribute %s of None' % name, tag=t[1])
        self.emit('AttributeError', node, st, 'attribute %s of None' % name)
      return V.BOTTOM
    if k == 'cls':
      r = self.class_attr(t[1], name)
      if r is None:
        if name == '__name__':
          return V.NSTR
        if self.p.ext_bases(t[1]):
          return V.ANY
        return self.missing(t, name, node, st, default)
      if r[0] == 'method':
        f = r[1]
        if f.kind == 'class':
          return V.atom('bound', f.q, t)
        return V.atom('func', f.q)
      return r[1]
    if k == 'mod':
      env = self.module_env(t[1])
      self.dep(('mod', t[1], name))
      v = env.get(name)
      if v is not None:
        return V.drop(v, 'unbound')
      sub = t[1] + '.' + name
      if sub in self.p.modules:
        return V.atom('mod', sub)
      if name.startswith('__'):
        return V.NSTR
      if t[1] not in self.p.modules:
        return V.ANY
      return self.missing(t, name, node, st, default)
    if k == 'ext':
      return models.ext_attr(self, t[1], name, node, st)
    return models.builtin_attr(self, t, name, node, st, default)

  def struct_attr(self, t, name, node, st, default=None):
    fab = self.p.fabrics[t[1]]
    self.event('field', node, '%s.%s' % (t[2], name), struct=t[1])
    for n, v in t[3]:
      if n == name:
        return v
    v = fab.field_type(t[2], name)
    key = (t[1], t[2], name)
    self.dep(('sattr',) + key)
    d = self.struct_attrs.get(key)
    if v is None and d is None:
      if ('struct', t[1], t[2]) in self.dynamic:
        return V.ANY
      return self.missing(t, name, node, st, default, kind='no-field')
    return V.join(v or V.BOTTOM, V.retag_none(d, 'attr') if d else V.BOTTOM)

  def inst_attr(self, t, name, node, st, default=None):
    cls = t[1]
    if name == DEBUG_ATTR:
      self.dbg_seen = True
      return V.atom('bool', self.mode, 'dbg')
    v = self.attr_get(cls, name)
    r = self.class_attr(cls, name)
    if v is None and r is None:
      if name == '__class__':
        return V.atom('cls', cls)
      if name == '__dict__':
        return V.ANY
      if self.p.ext_bases(cls) and [
          b for b in self.p.ext_bases(cls) if b not in (
              'abc.ABC', 'object', 'Exception')]:
        return V.ANY
      if ('inst', cls) in self.dynamic:
        return V.ANY
      if not self.final:
        self.dep(('attr', cls, name))
        if default is not None:
          return default
        return V.BOTTOM
      return self.missing(t, name, node, st, default)
    out = V.BOTTOM
    if v is not None:
      out = V.retag_none(v, 'attr')
    if r is not None:
      if r[0] == 'method':
        f = r[1]
        if f.is_property:
          w = self.call_func(f, t, [], {}, node, st)
          return V.join(out, V.retag_none(w, 'attr'))
        if v is None:
          if f.kind == 'static':
            return V.atom('func', f.q)
          return V.atom('bound', f.q, t if f.kind == 'method' else
                        ('cls', cls))
      else:
        w = r[1]
        if v is not None:
          w = V.retag_none(w, 'attr')
        out = V.join(out, w)
    if any(x[0] == 'bool' and x[2] for x in out):
      self.dbg_seen = True
    return out

  def ex_Call(self, node, st):
    # super() calls.
    fn = node.func
    self.last_posts = None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and (
        isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super'):
      return self.call_super(node, fn.attr, st)
    if isinstance(fn, ast.Name) and fn.id == 'super':
      return V.ANY
    fv = self.ev(fn, st)
    args, argnodes, kwargs, kwnodes = [], [], {}, {}
    for a in node.args:
      if isinstance(a, ast.Starred):
        x = self.ev(a.value, st)
        its = self.known_items(x)
        if its is not None:
          args.extend(its)
          argnodes.extend([None] * len(its))
        else:
          args.append(self.iterate(x, a.value, st) or V.ANY)
          argnodes.append(a)
      else:
        x = self.ev(a, st)
        if not x:
          return V.BOTTOM
        args.append(x)
        argnodes.append(a)
    for k in node.keywords:
      x = self.ev(k.value, st)
      if not x:
        return V.BOTTOM
      kwargs[k.arg] = x
      kwnodes[k.arg] = k.value
    if not fv:
      return V.BOTTOM
    return self.call(fv, args, kwargs, node, st, argnodes, kwnodes)

  def call_super(self, node, name, st):
    fr = self.frame
    args = [self.ev(a, st) for a in node.args]
    kwargs = {k.arg: self.ev(k.value, st) for k in node.keywords}
    if any(not a for a in args) or any(not a for a in kwargs.values()):
      return V.BOTTOM
    sa = fr.selfatom
    if not sa or not fr.func.cls:
      return V.ANY
    f = self.p.find_method(sa[1], name, after=fr.func.cls.q)
    if f is None:
      eb = self.p.ext_bases(sa[1])
      if name == '__init__' and not [
          b for b in eb if b not in ('abc.ABC', 'object')]:
        if args or kwargs:
          self.event('arity', node, 'object.__init__ takes no arguments')
          self.emit('TypeError', node, st, 'super().__init__')
        return V.none()
      return V.ANY
    return self.call_func(
        f, sa, args, kwargs, node, st, list(node.args),
        {k.arg: k.value for k in node.keywords})

  def call(self, fv, args, kwargs, node, st, argnodes=None, kwnodes=None):
    out = V.BOTTOM
    posts = None
    st0 = st
    for t in sorted(fv, key=repr):
      k = t[0]
      if k == 'func':
        f = self.p.functions[t[1]]
        if f.cls is not None and f.kind == 'method':
          # Unbound method: the first argument is self.
          if args:
            sa = next((x for x in args[0] if x[0] == 'inst'), None)
            v = self.call_func(f, sa, args[1:], kwargs, node, st,
                               (argnodes or [])[1:], kwnodes)
          else:
            v = V.ANY
        else:
          v = self.call_func(f, None, args, kwargs, node, st, argnodes,
                             kwnodes)
      elif k == 'bound':
        f = self.p.functions[t[1]]
        v = models.intrinsic(self, f, t[2], args, kwargs, node, st)
        if v is None:
          v = self.call_func(f, t[2], args, kwargs, node, st, argnodes,
                             kwnodes)
      elif k == 'cls':
        v = self.instantiate(t[1], args, kwargs, node, st, argnodes, kwnodes)
      elif k == 'ext':
        v = models.call_ext(self, t[1], args, kwargs, node, st)
      elif k == 'meth':
        v = models.call_method(self, t[1], t[2], args, kwargs, node, st)
      elif k == 'none':
        if t[1] not in models.QUIET_NONE:
          self.event('none', node, 'None is called')
          self.emit('TypeError', node, st, 'None is called')
        v = V.BOTTOM
      elif k in ('int', 'str', 'bytes', 'bool', 'float', 'tuple', 'list',
                 'dict', 'struct', 'vtuple'):
        self.event('type', node, '%s is called' % V.show(frozenset([t])))
        self.emit('TypeError', node, st, 'not callable')
        v = V.BOTTOM
      elif k == 'lambda':
        v = self.call_lambda(t, args, kwargs, node, st)
      elif k == 'inst':
        f = self.p.find_method(t[1], '__call__')
        v = self.call_func(f, t, args, kwargs, node, st) if f else V.ANY
      else:
        v = models.call_unknown(self, t, args, kwargs, node, st)
      out = V.join(out, v)
    if len(fv) != 1:
      self.last_posts = None
    return out

  def helper_event(self, f, clsq, args, kwargs, node):
    """Records whether a new object is given the file system helper."""
    names = [x.arg for x in f.node.args.args][1:] + [
        x.arg for x in f.node.args.kwonlyargs]
    if 'file_system_helper' not in names:
      return
    v = kwargs.get('file_system_helper')
    i = names.index('file_system_helper')
    if v is None and i < len(args):
      v = args[i]
    if v is None or not isinstance(v, frozenset):
      kind = 'missing'
    elif V.ANY == v or any(t[0] == 'inst' and 'Native' not in t[1]
                           for t in v):
      kind = 'given'
    elif any(t[0] == 'inst' for t in v):
      kind = 'local'
    else:
      kind = 'missing'
    self.event('helper', node, '%s %s' % (clsq, kind), helper=kind,
               made=clsq)

  def instantiate(self, clsq, args, kwargs, node, st, argnodes, kwnodes):
    t = ('inst', clsq)
    ab = self.p.abstract_methods(clsq)
    self.event('new', node, clsq, args=args, kwargs=kwargs,
               argnodes=argnodes, kwnodes=kwnodes)
    f = self.p.find_method(clsq, '__init__')
    if f is not None:
      self.helper_event(f, clsq, args, kwargs, node)
      self.call_func(f, t, args, kwargs, node, st, argnodes, kwnodes)
      key = None
    elif (args or kwargs) and not self.p.ext_bases(clsq):
      self.event('arity', node, '%s takes no arguments' % clsq)
      self.emit('TypeError', node, st, 'arguments of %s' % clsq)
    self.last_posts = None
    return frozenset([t])

  def call_lambda(self, t, args, kwargs, node, st):
    return V.ANY

  def ex_Lambda(self, node, st):
    e = st.copy()
    for a in node.args.args:
      e.env[a.arg] = V.ANY
    self.quiet += 1
    self.ev(node.body, e)
    self.quiet -= 1
    return V.ANY

  def ex_BoolOp(self, node, st):
    out = V.BOTTOM
    cur = st
    isand = isinstance(node.op, ast.And)
    for i, x in enumerate(node.values):
      if cur is None:
        break
      v = self.ev(x, cur)
      if not v:
        break
      if i == len(node.values) - 1:
        out = V.join(out, v)
        break
      out = V.join(out, V.assume(v, not isand))
      self.quiet += 1
      t, f = self.split(x, cur.copy())
      self.quiet -= 1
      cur = t if isand else f
    return out

  def ex_UnaryOp(self, node, st):
    v = self.ev(node.operand, st)
    if isinstance(node.op, ast.Not):
      if not v:
        return V.BOTTOM
      mt, mf = V.truthiness(v)
      fl = 'dbg' if any(t[0] == 'bool' and t[2] for t in v) else ''
      r = None if mt and mf else mf
      return V.atom('bool', r, fl)
    return models.unary(self, node.op, v, node, st)

  def ex_Compare(self, node, st):
    lv = self.ev(node.left, st)
    ok = bool(lv)
    ln = node.left
    for op, rn in zip(node.ops, node.comparators):
      rv = self.ev(rn, st)
      if not rv or not ok:
        return V.BOTTOM
      o = self._OPS.get(type(op))
      if o:
        self.check_compare(node, o, lv, rv, st)
      lv = rv
    self.quiet += 1
    t, f = self.split(node, st.copy())
    self.quiet -= 1
    if t is None and f is None:
      return V.BOOL
    return V.atom('bool', None if t is not None and f is not None else
                  t is not None, '')

  def ex_BinOp(self, node, st):
    a = self.ev(node.left, st)
    b = self.ev(node.right, st)
    if not a or not b:
      return V.BOTTOM
    return self.binop(node.op, a, b, node, st, node.left, node.right)

  def binop(self, op, a, b, node, st, ln, rn):
    return models.binop(self, op, a, b, node, st, ln, rn)

  def ex_IfExp(self, node, st):
    saved = self.dbg_seen
    self.dbg_seen = False
    t, f = self.split(node.test, st.copy())
    if self.dbg_seen and not self.frame.debug:
      self.event('debug-control', node, 'conditional value')
    self.dbg_seen = saved
    out = V.BOTTOM
    if t is not None:
      out = V.join(out, self.ev(node.body, t))
    if f is not None:
      out = V.join(out, self.ev(node.orelse, f))
    return out

  def ex_NamedExpr(self, node, st):
    v = self.ev(node.value, st)
    if v:
      self.assign(node.target, v, st, node.value)
    return v

  def ex_Tuple(self, node, st):
    vs = []
    for e in node.elts:
      if isinstance(e, ast.Starred):
        self.ev(e.value, st)
        return V.vtuple(V.ANY)
      v = self.ev(e, st)
      if not v:
        return V.BOTTOM
      vs.append(v)
    return V.tup(*vs)

  def ex_List(self, node, st):
    return self.seq_literal('list', node, st)

  def ex_Set(self, node, st):
    return self.seq_literal('set', node, st)

  def seq_literal(self, kind, node, st):
    vs = []
    known = True
    for e in node.elts:
      if isinstance(e, ast.Starred):
        known = False
        x = self.ev(e.value, st)
        vs.append(self.iterate(x, e.value, st) or V.ANY)
        continue
      v = self.ev(e, st)
      if not v:
        return V.BOTTOM
      vs.append(v)
    s, h = self.new_heap(kind, node)
    old = h.seq
    h.size = sum(1 for e in node.elts if not isinstance(e, ast.Starred))
    if known and not h.mutated:
      if old is not None and len(old) == len(vs):
        h.seq = [V.join(x, y) for x, y in zip(old, vs)]
      else:
        h.seq = list(vs)
      if h.seq != old:
        self.touch(('heap', s))
    self.heap_add((kind, s), elem=V.join_all(vs), mutate=False)
    return V.atom(kind, s)

  def ex_Dict(self, node, st):
    s, h = self.new_heap('dict', node)
    t = ('dict', s)
    for k, v in zip(node.keys, node.values):
      if k is None:
        h.open = True
        self.ev(v, st)
        self.heap_add(t, elem=V.ANY, key=V.ANY, mutate=False)
        continue
      kv = self.ev(k, st)
      vv = self.ev(v, st)
      if not kv or not vv:
        return V.BOTTOM
      self.dict_set(t, kv, vv, mutate=False)
    return V.atom('dict', s)

  def ex_JoinedStr(self, node, st):
    texts = {''}
    nonempty = False
    for p in node.values:
      if isinstance(p, ast.Constant):
        nonempty = nonempty or bool(p.value)
        if texts is not None:
          texts = {t + str(p.value) for t in texts}
        continue
      v = self.ev(p.value, st)
      if not v:
        return V.BOTTOM
      spec = ''
      if p.format_spec is not None:
        for q in p.format_spec.values:
          if isinstance(q, ast.Constant):
            spec += q.value
          else:
            self.ev(q.value, st)
            spec = None
            break
      models.check_format(
          self, v, p.conversion, spec if p.format_spec is not None else None,
          p, st)
      if texts is None:
        continue
      c = V.consts(v)
      if c is None and all(t[0] == 'int' for t in v):
        bb = V.bounds(v)
        if bb and None not in bb and bb[1] - bb[0] < 16:
          c = set(range(bb[0], bb[1] + 1))
      if c is None or spec is None or p.conversion not in (-1, 115) or (
          len(c) * len(texts) > 64):
        texts = None
        continue
      new = set()
      for x in c:
        try:
          new |= {t + format(str(x) if p.conversion == 115 else x, spec)
                  for t in texts}
        except (TypeError, ValueError):
          pass
      texts = new or None
    if texts:
      return V.str_set(texts)
    return V.NSTR if nonempty else V.STR

  def ex_FormattedValue(self, node, st):
    return V.STR

  def ex_Subscript(self, node, st):
    b = self.ev(node.value, st)
    if isinstance(node.slice, ast.Slice):
      parts = []
      for x in (node.slice.lower, node.slice.upper, node.slice.step):
        v = self.ev(x, st) if x is not None else None
        if v is not None and not v:
          return V.BOTTOM
        parts.append(v)
      if not b:
        return V.BOTTOM
      return models.slice_value(self, b, parts, node, st)
    i = self.ev(node.slice, st)
    if not b or not i:
      return V.BOTTOM
    pth = _path(node)
    v = models.index_value(self, b, i, node, st)
    if pth is not None and pth in st.env:
      return st.env[pth]
    return v

  def ex_Starred(self, node, st):
    return self.ev(node.value, st)

  def ex_ListComp(self, node, st):
    return self.comp(node, st, 'list')

  def ex_SetComp(self, node, st):
    return self.comp(node, st, 'set')

  def ex_GeneratorExp(self, node, st):
    v = self.comp(node, st, 'list')
    out = V.BOTTOM
    for t in v:
      out = V.join(out, self.heap_of(t).elem)
    return V.atom('iter', out)

  def ex_DictComp(self, node, st):
    return self.comp(node, st, 'dict')

  def comp(self, node, st, kind):
    inner = st.copy()
    alive = True
    ordered = True
    for g in node.generators:
      it = self.ev(g.iter, inner)
      if not it:
        return V.BOTTOM
      self.order_check(it, g.iter, 'comp-' + kind)
      elem = self.iterate(it, g.iter, inner)
      if not elem:
        alive = False
        break
      for n in ast.walk(g.target):
        if isinstance(n, ast.Name):
          inner.env.pop(n.id, None)
      saved = self.frame.assigned
      self.frame.assigned = set()
      self.assign(g.target, elem, inner, None)
      self.frame.assigned = saved
      for c in g.ifs:
        t, _ = self.split(c, inner)
        if t is None:
          alive = False
          break
        inner = t
      if not alive:
        break
    s, h = self.new_heap(kind, node)
    if alive:
      if kind == 'dict':
        k = self.ev(node.key, inner)
        v = self.ev(node.value, inner)
        h.open = True
        self.heap_add((kind, s), elem=v, key=k, mutate=False)
      else:
        v = self.ev(node.elt, inner)
        self.heap_add((kind, s), elem=v, mutate=False)
    if kind == 'list':
      n = 0
      if len(node.generators) == 1 and not node.generators[0].ifs and it:
        n = min(len(t[1]) if t[0] == 'tuple' else t[2] if t[0] == 'vtuple'
                else 0 for t in it)
      self.minlen[s] = min(self.minlen.get(s, n), n)
    return V.atom(kind, s)

  def order_check(self, it, node, how):
    if self.final and not self.quiet:
      self.iteration_sites.add((self.frame.func.q, getattr(node, 'lineno', 0),
                           getattr(node, 'col_offset', 0)))
    for t in it:
      if t[0] == 'set':
        self.event('set-order', node, how, site=t[1])
      elif t[0] == 'list':
        h = self.heap[t[1]]
        if h.where and h.where[5] == 'listdir' and not h.sorted:
          self.event('fs-order', node, how, site=t[1])
      elif t[0] == 'iter' and len(t) > 2 and t[2] == 'unordered':
        self.event('set-order', node, how)

  def iterate(self, v, node, st):
    """Value of the elements of an iterable."""
    out = V.BOTTOM
    for t in v:
      k = t[0]
      if k == 'tuple':
        out = V.join(out, V.join_all(t[1]))
      elif k == 'vtuple':
        out = V.join(out, t[1])
      elif k in ('list', 'set'):
        out = V.join(out, V.retag_none(self.heap_of(t).elem, 'attr'))
      elif k == 'dict':
        out = V.join(out, self.heap_of(t).key)
      elif k == 'gen':
        s = self.summaries.get(t[1])
        self.dep(('sum', t[1]))
        if s is not None:
          self.apply_summary(s, node, st)
          self.kill_mods(st, s.mods)
          if st is not None and s.mark_out | s.yield_mark:
            st.mark = after(st.mark, s.mark_out | s.yield_mark)
          out = V.join(out, s.yields)
      elif k == 'iter':
        out = V.join(out, t[1])
      elif k == 'bytes':
        out = V.join(out, V.int_range(0, 255))
      elif k == 'str':
        out = V.join(out, V.NSTR)
      elif k == 'inst':
        f = self.p.find_method(t[1], '__iter__')
        if f is not None:
          w = self.call_func(f, t, [], {}, node, st)
          out = V.join(out, self.iterate(w, node, st))
        else:
          out = V.join(out, V.ANY)
      elif k == 'none':
        if t[1] not in models.QUIET_NONE:
          self.event('none', node, 'None is iterated')
          self.emit('TypeError', node, st, 'None is iterated')
      elif k in ('int', 'float', 'bool', 'struct', 'map', 'func'):
        self.event('type', node, '%s is iterated' % V.show(frozenset([t])))
        self.emit('TypeError', node, st, 'not iterable')
      elif k == 'unbound':
        pass
      else:
        out = V.join(out, V.ANY)
    return out

  def ex_Yield(self, node, st):
    self.frame.yield_mark |= st.mark
    v = V.none() if node.value is None else self.ev(node.value, st)
    self.frame.yields = V.join(self.frame.yields, V.drop(v, 'unbound'))
    if self.frame.debug:
      self.event('debug-control', node, 'yield')
    return V.none('attr')

  def ex_YieldFrom(self, node, st):
    v = self.ev(node.value, st)
    self.frame.yields = V.join(
        self.frame.yields, self.iterate(v, node.value, st))
    self.frame.yield_mark |= st.mark
    self.order_check(v, node.value, 'yield from')
    if self.frame.debug:
      self.event('debug-control', node, 'yield')
    return V.none('attr')


class _ModuleFunc:
  """Stands for the body of a module or class."""

  def __init__(self, module, cls=None):
    self.module = module
    self.classobj = cls
    self.cls = None
    self.q = module.name + ':' + (cls.name if cls else '<module>')
    self.name = '<module>'
    self.locals = ()
    self.node = None


def _is_path(n):
  if isinstance(n, ast.Name):
    return True
  if isinstance(n, ast.Attribute):
    return _is_path(n.value)
  if isinstance(n, ast.Subscript):
    return isinstance(n.slice, ast.Constant) and _is_path(n.value)
  return False


def _path(n):
  """Text of an attribute or constant item path."""
  if isinstance(n, (ast.Attribute, ast.Subscript)) and _is_path(n):
    return ast.unparse(n)
  return None


def _as_load(n):
  if isinstance(n, ast.Name):
    m = ast.Name(id=n.id, ctx=ast.Load())
  elif isinstance(n, ast.Attribute):
    m = ast.Attribute(value=n.value, attr=n.attr, ctx=ast.Load())
  elif isinstance(n, ast.Subscript):
    m = ast.Subscript(value=n.value, slice=n.slice, ctx=ast.Load())
  else:
    return n
  return ast.copy_location(m, n)


_name_cache = {}


def _names(text):
  """Root names in the text of a simple expression."""
  r = _name_cache.get(text)
  if r is None:
    try:
      tree = ast.parse(text, mode='eval')
      r = frozenset(
          n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and
          n.id != 'len')
    except SyntaxError:
      r = frozenset()
    _name_cache[text] = r
  return r


class _Subst(ast.NodeTransformer):
  def __init__(self, origin):
    self.origin = origin

  def visit_Name(self, n):
    if n.id == 'len' or n.id == 'self':
      return n
    a = self.origin.get(n.id)
    if a is None:
      raise ValueError(n.id)
    return a


def _substitute(text, origin):
  if not text:
    return text, frozenset()
  tree = ast.parse(text, mode='eval')
  if 'self' in _names(text) and 'self' not in origin:
    raise ValueError('self')
  new = ast.unparse(_Subst(origin).visit(tree).body)
  return new, _names(new)
