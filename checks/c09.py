"""C09: results depend on the input alone."""

import ast
import re

from checks import common
from sa import both

# Calls whose result is not a function of their arguments (and of the input).
AMBIENT = re.compile(
    r'^(time\.|random\.|secrets\.|socket\.|platform\.|locale\.|getpass\.|'
    r'tempfile\.|uuid\.(uuid1|uuid4|getnode)|os\.(getenv|environ|getcwd|'
    r'getpid|getppid|getlogin|getuid|geteuid|urandom|times|uname|cpu_count|'
    r'getloadavg)|datetime\.(datetime|date)\.(now|utcnow|today|'
    r'fromtimestamp)|datetime\.datetime\.(timestamp|astimezone)|'
    r'builtins\.(hash|id|input)|numpy\.random|pathlib\.Path\.(cwd|home)|'
    r'os\.path\.(expanduser|expandvars)|sys\.getdefaultencoding|'
    r'sys\.getfilesystemencoding|threading\.|dfdatetime\.semantic_time\.|'
    r'dfdatetime\.fake_time\.)')
# Parts of the above that only depend on their arguments.
PURE = re.compile(r'^(time\.(gmtime|strptime|struct_time)|'
                  r'datetime\.datetime\.fromtimestamp\(tz\)|'
                  r'socket\.(inet_\w+|ntoh\w|hton\w|AF_\w+)|'
                  r'threading\.(Lock|RLock))$')


def same_objects(func):
  """Lines where id() is only used to recognise an object.

  Whether two living objects have the same address says whether they are the
  same object, whatever the addresses are.
  """
  parents = {c: n for n in ast.walk(func) for c in ast.iter_child_nodes(n)}

  def recognises(n):
    p = parents.get(n)
    if isinstance(p, (ast.Tuple, ast.NamedExpr)) and not isinstance(
        getattr(p, 'ctx', None), ast.Store):
      return recognises(p)
    if isinstance(p, ast.Compare):
      return all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is,
                                ast.IsNot)) for o in p.ops)
    if isinstance(p, ast.Call) and n in p.args:
      return isinstance(p.func, ast.Attribute) and p.func.attr in (
          'add', 'discard', 'remove')
    if isinstance(p, ast.Set) or isinstance(p, ast.SetComp) and n is p.elt:
      return True
    if isinstance(p, ast.BinOp) and isinstance(p.op, (ast.BitOr, ast.Sub)):
      return isinstance(n, (ast.Set, ast.SetComp)) and recognises(p)
    if isinstance(p, ast.Subscript):
      return n is p.slice
    if isinstance(p, (ast.Assign, ast.AnnAssign)):
      ts = p.targets if isinstance(p, ast.Assign) else [p.target]
      names = {t.id for t in ts if isinstance(t, ast.Name)}
      return len(names) == len(ts) and all(
          isinstance(x.ctx, ast.Store) or recognises(x)
          for x in ast.walk(func)
          if isinstance(x, ast.Name) and x.id in names)
    return False

  good, bad = set(), set()
  for n in ast.walk(func):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and (
        n.func.id == 'id'):
      (good if recognises(n) else bad).add(n.lineno)
  return good - bad


def extract(it):
  recognised = {}
  for f in common.analysed(it).values():
    for line in same_objects(f.node):
      recognised.setdefault(f.module.rel, set()).add(line)
  ev = common.events(it, ('ambient', 'set-order', 'fs-order', 'address',
                          'ext-call', 'open', 'print'))
  for e in ev:
    if e['kind'] == 'ext-call' and e['text'].endswith('.fromtimestamp'):
      x = [y for y in it.events.values() if y.kind == 'ext-call' and
           y.line == e['line'] and y.rel == e['rel'] and y.text == e['text']]
      if x and (len(x[0].data['args']) > 1 or 'tz' in x[0].data['kwargs']):
        e['text'] += '(tz)'
  ev = [e for e in ev if e['text'] not in ('builtins.id', 'id()') or
        e['line'] not in recognised.get(e['rel'], ())]
  ret = []
  for f, sa_, env in it.roots:
    s = it.summaries.get((f.q, sa_, tuple(sorted(env.items()))))
    for t in (s.ret if s else ()) or ():
      if t[0] == 'list' and t[1] in it.heap:
        h = it.heap[t[1]]
        if h.where and h.where[5] == 'listdir' and not h.sorted:
          ret.append((f.module.rel, f.q.split(':')[-1]))
  return {'stats': common.stats(it), 'events': ev, 'ret': ret,
          'iterations': sorted(it.iteration_sites)}


def check(rep):
  rep.rule(
      'No reachable operation reads the clock, randomness, the environment, '
      'the locale, the working directory, the local time zone, a process '
      'dependent hash or an address; no iteration, conversion or output takes '
      'the elements of a set, or of an unsorted directory listing, in their '
      'order; no object without a text form of its own becomes text; text '
      'files are opened with an encoding.')
  rep.assume('The third party libraries are deterministic.')
  rep.assume('Absolute paths are only used to find neighbouring files.')
  results = both.run(extract)
  common.add_stats(rep, results)
  calls = set()
  loops = set()
  for r in results:
    loops |= set(r['iterations'])
    for rel, func in r['ret']:
      rep.add('order of a directory', '%s:%s' % (rel, func), 'return',
              'returns a directory listing in the order of the file system')
    for e in r['events']:
      w = common.where(e)
      if e['kind'] == 'ext-call':
        calls.add((w, e['line'], e['text']))
        if AMBIENT.match(e['text']) and not PURE.match(e['text']):
          rep.add('ambient value', w, e['text'], 'depends on more than the '
                  'input: %s' % e['text'], e['line'])
      elif e['kind'] == 'ambient':
        rep.add('ambient value', w, e['text'], 'depends on more than the '
                'input: %s' % e['text'], e['line'])
      elif e['kind'] == 'set-order':
        rep.add('order of a set', w, e['text'], 'the elements of a set are '
                'taken in their order (%s)' % e['text'], e['line'])
      elif e['kind'] == 'fs-order':
        rep.add('order of a directory', w, e['text'], 'the entries of a '
                'directory are taken in the order of the file system (%s)' %
                e['text'], e['line'])
      elif e['kind'] == 'address':
        rep.add('address in text', w, e['text'], 'text of an object without '
                'a text form (%s) contains its address' % e['text'],
                e['line'])
      elif e['kind'] == 'open':
        rep.count('ob:opens')
        if not e['encoding'] and any(
            'b' not in str(m) for m in e['modes'] or ('r',)):
          rep.add('text file without an encoding', w, 'open', 'the encoding '
                  'depends on the locale', e['line'])
  rep.count('ob:calls of library functions', len(calls))
  rep.count('ob:iterations and text forms', len(loops))
  rep.need('ob:calls of library functions', 400)
  rep.need('ob:iterations and text forms', 150)
