"""C14: values are used as what they are on every path."""

from checks import common
from sa import both

RULES = {
    'type': 'operation and type',
    'none': 'use of None',
    'format': 'format and type',
    'compare': 'comparison of types',
    'attribute': 'missing attribute',
    'arity': 'call and signature',
    'unpack': 'unpacked shape',
    'unbound': 'name not bound on a path',
    'undefined': 'undefined name',
    'index': 'index of a fixed shape',
    'value': 'invalid constant',
}


def extract(it):
  return {'stats': common.stats(it), 'events': common.events(it, RULES),
          'nodes': common.node_counts(it)}


def check(rep):
  rep.rule(
      'Types, shapes and constants are inferred for every expression of every '
      'function, per calling context and in both debug modes: each name is '
      'bound on all paths to its use; each call fits the signature of what it '
      'can call; each unpacking fits the shapes; each operator, comparison, '
      'subscript, attribute read and format specification is defined for '
      'every type its operands can have, None included.')
  rep.assume('Arguments of public methods have the types that their '
             'documentation gives.')
  rep.assume('Values of third party libraries that have no model are used '
             'correctly.')
  results = both.run(extract)
  common.add_stats(rep, results)
  for k in results[0]['nodes']:
    rep.count('ob:' + k, max(r['nodes'][k] for r in results))
  for r in results:
    for e in r['events']:
      rep.add(RULES[e['kind']], common.where(e), e['text'], e['text'],
              e['line'])
  rep.need('ob:calls', 3000)
  rep.need('ob:attribute reads', 5000)
