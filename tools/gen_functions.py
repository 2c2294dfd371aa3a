"""Writes the names of the reviewed functions to spec/functions.json."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import project
p = project.Project()
with open(os.path.join(os.path.dirname(__file__), '..', 'spec',
                       'functions.json'), 'w', encoding='utf8') as f:
  json.dump(sorted({q.replace('@setter', '') for q in p.functions}), f,
            indent=0)
  f.write('\n')
