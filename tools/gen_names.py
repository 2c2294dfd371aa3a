"""Writes the reviewed names to spec/names.json."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import renames
import ast, glob
trees = {}
repo = os.environ.get('DTF_REPO', '/repo')
for d in ('dtformats', 'scripts'):
  for p in sorted(glob.glob(os.path.join(repo, d, '*.py'))):
    b = os.path.splitext(os.path.basename(p))[0]
    with open(p, encoding='utf8') as f:
      trees[d if b == '__init__' else d + '.' + b] = ast.parse(f.read())
with open(renames.SPEC, 'w', encoding='utf8') as f:
  json.dump(renames.describe(trees), f, indent=0, sort_keys=True)
  f.write('\n')
