"""Runs the interpreter in both debug modes in parallel."""

import multiprocessing
import traceback

from sa import engine
from sa import project as P


def _child(args):
  mode, extract, repo = args
  try:
    def go():
      it = engine.analyse(P.Project(repo), mode)
      return extract(it)
    return ('ok', engine.big_stack(go))
  except Exception as e:  # pylint: disable=broad-except
    return ('error', '%s\n%s' % (e, traceback.format_exc()))


def run(extract, modes=(False, True), repo=None):
  """[extract(interpreter)] per mode; extract returns plain data."""
  repo = repo or P.REPO
  ctx = multiprocessing.get_context('fork')
  with ctx.Pool(len(modes)) as pool:
    out = pool.map(_child, [(m, extract, repo) for m in modes])
  res = []
  for kind, x in out:
    if kind != 'ok':
      raise RuntimeError(x)
    res.append(x)
  return res
