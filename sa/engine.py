"""Runs the interpreter over the whole program, once per debug mode."""

import sys
import threading
import time

from sa import interp
from sa import project as P
from sa import roots as R


def big_stack(fn):
  """Runs fn in a thread with a large stack."""
  box = {}

  def target():
    try:
      box['r'] = fn()
    except BaseException as e:  # pylint: disable=broad-except
      box['e'] = e
  threading.stack_size(1 << 30)
  t = threading.Thread(target=target)
  t.start()
  t.join()
  if 'e' in box:
    raise box['e']
  return box.get('r')


def analyse(proj, mode, select=None, keep=None):
  it = interp.Interp(proj, mode)
  it.keep = frozenset(keep or ())
  it.precise = keep is not None
  r = R.Roots(proj)
  for f, sa, env in r.public():
    if select is None or select(f, sa):
      it.add_root(f, sa, env)
  it.root_info = r
  it.t0 = time.time()
  it.run()
  it.wall = time.time() - it.t0
  return it
