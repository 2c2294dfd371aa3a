"""C08: evidence is only ever read."""

import ast
import builtins

from checks import common
from sa import both
from sa import project as P

# Modules without effects outside the process (everything they define).
PURE = {
    'abc', 'argparse', 'array', 'base64', 'binascii', 'bisect', 'calendar',
    'codecs', 'collections', 'contextlib', 'copy', 'dataclasses', 'datetime',
    'decimal', 'difflib', 'dfdatetime', 'dtfabric', 'dtformats', 'enum',
    'errno', 'fnmatch', 'fractions', 'functools', 'glob', 'hashlib', 'heapq',
    'hmac', 'html', 'io', 'ipaddress', 'itertools', 'json', 'locale',
    'logging', 'lz4', 'math', 'numbers', 'operator', 'platform', 'pprint',
    'pyfwps', 'pyfwsi', 'pygzipf', 'pylnk', 'pyolecf', 'pyregf', 'random',
    're', 'snappy', 'stat', 'statistics', 'string', 'struct', 'sys',
    'textwrap', 'time', 'traceback', 'types', 'typing', 'unicodedata', 'uuid',
    'warnings', 'zlib', 'zoneinfo', 'zstd', 'pathlib', 'dfvfs', 'bz2', 'gzip',
    'lzma', 'plistlib', 'yaml', 'os', 'posixpath', 'ntpath', 'builtins',
    '__future__', 'csv', 'tzlocal', 'pytz', 'queue', 'threading', 'weakref',
    'inspect', 'gc', 'lz4.block', 'xml', 'zipfile', 'tarfile', 'mmap',
    'backports', 'secrets', 'keyword', 'reprlib', 'graphlib', 'stringprep'}

# What is refused although its module is listed above.
DENY_PREFIX = (
    'os.system', 'os.popen', 'os.exec', 'os.spawn', 'os.posix_spawn',
    'os.fork', 'os.remove', 'os.unlink', 'os.rename', 'os.replace',
    'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs', 'os.renames',
    'os.chmod', 'os.lchmod', 'os.fchmod', 'os.chown', 'os.lchown',
    'os.fchown', 'os.utime', 'os.link', 'os.symlink', 'os.truncate',
    'os.ftruncate', 'os.open', 'os.write', 'os.pwrite', 'os.mkfifo',
    'os.mknod', 'os.kill', 'os.putenv', 'os.unsetenv', 'os.environ',
    'os.chdir', 'os.fchdir', 'os.chroot', 'os.startfile', 'os.setxattr',
    'os.removexattr', 'os.sendfile', 'os.copy_file_range', 'os.umask',
    'os.set', 'os.posix_fallocate', 'os.memfd_create', 'os.fdopen',
    'yaml.load', 'yaml.load_all', 'yaml.unsafe_load', 'yaml.full_load',
    'yaml.Loader', 'yaml.UnsafeLoader', 'yaml.FullLoader', 'yaml.CLoader',
    'plistlib.dump', 'builtins.eval', 'builtins.exec', 'builtins.compile',
    'builtins.__import__', 'logging.FileHandler', 'logging.handlers',
    'zipfile.', 'tarfile.', 'mmap.', 'sys.settrace', 'sys.setprofile',
    'io.FileIO')
DENY_EXACT_OK = {
    'plistlib.dumps', 'os.environ.get', 'os.getenv', 'os.openpty'}

DENY_METHODS = {
    'write_text', 'write_bytes', 'unlink', 'rmdir', 'mkdir', 'touch',
    'chmod', 'lchmod', 'symlink_to', 'hardlink_to', 'rename', 'rmtree',
    'removedirs', 'makedirs', 'truncate', 'writelines', 'extractall',
    'system', 'popen', 'Popen', 'check_output', 'check_call'}

OPENERS = {'builtins.open': 1, 'io.open': 1, 'codecs.open': 1,
           'gzip.open': 1, 'gzip.GzipFile': 1, 'bz2.open': 1,
           'bz2.BZ2File': 1, 'lzma.open': 1, 'lzma.LZMAFile': 1}
READ_MODES = {'r', 'rb', 'rt', 'br', 'tr', 'U', 'rU'}


def verdict(name):
  """Why a name may not be used, or None."""
  if name in DENY_EXACT_OK:
    return None
  for d in DENY_PREFIX:
    if name == d or name.startswith(d + '.') or (
        d.endswith('.') and name.startswith(d)) or (
            d in ('os.exec', 'os.spawn', 'os.set', 'os.popen') and
            name.startswith(d)):
      return 'can change files, start processes or execute input'
  if name.split('.')[0] not in PURE:
    return 'is not known to be free of effects outside the process'
  return None


class Names:
  """Resolves names to what they import, per module."""

  def __init__(self, m, proj):
    self.proj = proj
    self.m = m
    self.imports = {}
    self.assigned = set()
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Import):
        for a in n.names:
          if a.asname:
            self.imports[a.asname] = a.name
          else:
            h = a.name.split('.')[0]
            self.imports[h] = h
      elif isinstance(n, ast.ImportFrom):
        for a in n.names:
          self.imports[a.asname or a.name] = (n.module or '') + '.' + a.name
      elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        self.assigned.add(n.id)
      elif isinstance(n, ast.arg):
        self.assigned.add(n.arg)
      elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        self.assigned.add(n.name)

  def full(self, node):
    parts = []
    while isinstance(node, ast.Attribute):
      parts.append(node.attr)
      node = node.value
    if not isinstance(node, ast.Name):
      return None
    parts.append(node.id)
    parts.reverse()
    h = parts[0]
    if h in self.imports:
      return '.'.join([self.imports[h]] + parts[1:])
    if h not in self.assigned and hasattr(builtins, h):
      return '.'.join(['builtins'] + parts)
    return None


def mode_of(call, pos):
  node = call.args[pos] if len(call.args) > pos else None
  for k in call.keywords:
    if k.arg == 'mode':
      node = k.value
  return node


def extract(it):
  return {'stats': common.stats(it),
          'events': common.events(
              it, ('ext-call', 'open', 'write', 'exec'))}


def check(rep):
  rep.rule(
      'Every reference to something outside the project resolves to a '
      'library that cannot change files, start processes, use the network or '
      'execute input; every open has a constant read mode; nothing is '
      'written to a file object. Decided per reference over all modules and '
      'again over the resolved calls of the abstract interpretation in both '
      'debug modes.')
  rep.assume('Third party libraries on the list (dtfabric, dfdatetime, dfvfs, '
             'pyolecf, pylnk, lz4, ...) only read what they are given.')
  proj = P.Project()
  for m in proj.modules.values():
    names = Names(m, proj)
    fn = common.qualname_of(m.tree)
    parents = {c: p for p in ast.walk(m.tree)
               for c in ast.iter_child_nodes(p)}
    for n in ast.walk(m.tree):
      if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(
          n.ctx, ast.Load) and not (
              isinstance(parents.get(n), ast.Attribute)):
        full = names.full(n)
        if full is None:
          continue
        if full.startswith('dtformats') or full.split('.')[0] == '':
          continue
        rep.count('ob:external references')
        why = verdict(full)
        if why:
          rep.add('external reference', '%s:%s' % (m.rel, fn.get(n)), full,
                  '%s %s' % (full, why), n.lineno)
      if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and (
            n.func.attr in DENY_METHODS):
          rep.add('method', '%s:%s' % (m.rel, fn.get(n)), n.func.attr,
                  'call of .%s()' % n.func.attr, n.lineno)
        full = names.full(n.func)
        if full in OPENERS:
          rep.count('ob:file opens')
          md = mode_of(n, OPENERS[full])
          if isinstance(md, ast.Constant) and md.value not in READ_MODES:
            rep.add('open mode', '%s:%s' % (m.rel, fn.get(n)), full,
                    'opened with mode %r' % (md.value,), n.lineno)
  results = both.run(extract)
  common.add_stats(rep, results)
  for r in results:
    for e in r['events']:
      if e['kind'] == 'ext-call':
        rep.count('ob:resolved external calls')
        why = verdict(e['text'])
        if why:
          rep.add('external reference', common.where(e), e['text'],
                  '%s %s' % (e['text'], why), e['line'])
      elif e['kind'] == 'open':
        modes = e.get('modes')
        if modes is None or not set(modes) <= READ_MODES:
          rep.add('open mode', common.where(e), 'open',
                  'the mode can be %s' % (
                      sorted(modes, key=str) if modes else 'anything'),
                  e['line'])
      elif e['kind'] == 'write':
        rep.add('write', common.where(e), e['text'],
                'a file object is written to', e['line'])
      elif e['kind'] == 'exec':
        rep.add('exec', common.where(e), e['text'],
                'input can be executed', e['line'])
  rep.need('ob:external references', 300)
  rep.need('ob:file opens', 4)
