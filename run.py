#!/opt/venv/bin/python
"""Decides one property: run.py <property> [quick|thorough]."""

import importlib
import os
import sys
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
  os.environ['PYTHONHASHSEED'] = '0'
  os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa import project as P  # noqa: E402
from sa import report as R  # noqa: E402


def main():
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
      'VERIF_TIER', 'quick')
  mod = importlib.import_module('checks.' + pid.lower())
  rep = R.Report(pid, tier)
  try:
    mod.check(rep)
    return rep.finish()
  except (R.Broken, P.AnalysisBroken) as e:
    print('%s: no verdict: %s' % (pid, e))
    return 3
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    return 4


if __name__ == '__main__':
  sys.exit(main())
