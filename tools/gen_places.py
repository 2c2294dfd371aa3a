"""Writes the places of the reviewed tree to spec/places.json."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import places
from sa import project
o, n, w, t = places.collect(project.Project())
with open(os.path.join(os.path.dirname(__file__), '..', 'spec',
                       'places.json'), 'w', encoding='utf8') as f:
  json.dump({k: sorted(v) for k, v in sorted(o.items())}, f, indent=0)
  f.write('\n')
with open(os.path.join(os.path.dirname(__file__), '..', 'spec',
                       'decisions.json'), 'w', encoding='utf8') as f:
  json.dump({k: sorted(v) for k, v in sorted(t.items())}, f, indent=0)
  f.write('\n')
