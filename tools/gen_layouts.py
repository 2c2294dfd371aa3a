#!/usr/bin/env python3
"""Writes spec/layouts.json: the reviewed layout of every definition."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import c13
from sa import both

REPO = os.environ.get('DTF_REPO', '/repo')


def main():
  fabs = c13.fabrics(REPO)
  lines = []
  for fn, fab in sorted(fabs.items()):
    for name, leaves in sorted(c13.forms(fab).items()):
      lines.append('%s: %s' % (
          json.dumps('%s:%s' % (fn, name)),
          json.dumps([['.'.join(p), x] for p, x in leaves])))
  requested = {}
  for r in both.run(c13.extract, (True, False)):
    for m, forms in r['requested'].items():
      requested.setdefault(m, set()).update(forms)
  with open(os.path.join(HERE, 'spec', 'layouts.json'), 'w') as f:
    f.write('{\n' + ',\n'.join(lines) + '\n}\n')
  with open(os.path.join(HERE, 'spec', 'requested.json'), 'w') as f:
    json.dump({m: sorted(v) for m, v in sorted(requested.items())}, f,
              indent=1)
    f.write('\n')
  print(len(lines), sum(len(v) for v in requested.values()))


if __name__ == '__main__':
  main()
