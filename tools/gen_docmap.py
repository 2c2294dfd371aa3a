#!/usr/bin/env python3
"""Writes spec/docmap.json: which documented tables describe a structure.

The assignment was made by name and layout and was reviewed by hand; the pairs
record up to where the structure and its table agree.
"""
import collections
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import docmap
from sa import docs
from sa import layouts

REPO = os.environ.get('DTF_REPO', '/repo')

DLS = 'MacOS File System Events Disk Log Stream format'
JOURNAL = 'Systemd journal file format'
BOOKMARK = 'Mac OS background item bookmark data format'
MANUAL = {
    'fseventsd.yaml:dls_record_v1': [DLS + '#Event record version 1#0'],
    'fseventsd.yaml:dls_record_v2': [DLS + '#Record version 2#0'],
    'systemd.yaml:systemd_journal_data_object': [
        JOURNAL + '#Object header#0', JOURNAL + '#Data object values#0'],
    'systemd.yaml:systemd_journal_entry_object': [
        JOURNAL + '#Object header#0', JOURNAL + '#Entry object values#0'],
    'systemd.yaml:systemd_journal_entry_array_object': [
        JOURNAL + '#Object header#0',
        JOURNAL + '#Entry array object values#0'],
}
NOT = {
    'aul_tracev3.yaml:tracev3_firehose_tracepoint',
    'alias_data.yaml:alias_data_tagged_value_with_utf16_string',
    'bsm.yaml:bsm_token_socket_ex',
    'bsm.yaml:bsm_token_data',
    'detection_history.yaml:threat_tracking_value_5bytes',
    'detection_history.yaml:threat_tracking_value_64bit',
    'vhdx.yaml:header', 'vhdx.yaml:file_information',
    'wmi_repository.yaml:cim_page_body',
    'firefox_cache2.yaml:firefox_cache2_file_metadata_header',
}


# Network byte order by RFC 1035, in a document of another byte order.
ORDER = {'macos_mdns.yaml:mdsn_dns_header': 'big-endian'}


def words(text):
  return set(re.findall('[a-z0-9]+', text.lower()))


def score(fab, lay, table):
  a, off = {}, 0
  for n, s in docmap.members(fab, lay):
    if s is None:
      break
    a[(off, s)] = n
    off += s
  b = {(r.offset, r.size): r.name for r in table.rows
       if r.offset is not None and r.size is not None}
  if not a or not b:
    return 0
  c = set(a) & set(b)
  names = 0
  for k in c:
    w, d = set(a[k].lower().split('_')), words(b[k])
    names += len(w & d) / max(1, len(w | d))
  title = len(words(lay.name) & words(table.title)) / max(
      1, len(lay.name.split('_')))
  return len(c) / max(len(a), len(b)) * (
      0.3 + names / max(1, len(c))) + 0.2 * title


def main():
  tables, _ = docs.load(REPO)
  fabs, _ = layouts.load(os.path.join(REPO, 'dtformats'))
  by_key = {t.key: t for t in tables}
  best = {}
  home = collections.defaultdict(collections.Counter)
  for fn, fab in fabs.items():
    for lay in fab.order:
      if lay.type != 'structure':
        continue
      s, k = max((score(fab, lay, t), t.key) for t in tables)
      if s > 0.5:
        home[fn][by_key[k].doc] += 1
  out = {}
  for fn, fab in sorted(fabs.items()):
    for lay in fab.order:
      key = '%s:%s' % (fn, lay.name)
      if lay.type != 'structure' or key in NOT:
        continue
      options = []
      if key in MANUAL:
        options = [(1, MANUAL[key])]
      elif home[fn]:
        doc = home[fn].most_common(1)[0][0]
        options = sorted(((score(fab, lay, t), [t.key]) for t in tables
                          if t.doc == doc), reverse=True)[:2]
        options = [x for x in options if x[0] > 0.5]
      choice = None
      for s, keys in options:
        t = docs.Table(by_key[keys[0]].doc, keys[0], 0, sum(
            [by_key[k].rows for k in keys], []), 0)
        shifts, acc = [0], 0
        for r in t.rows[:8]:
          if not r.size:
            break
          acc += r.size
          shifts.append(acc)
        for shift in shifts:
          pairs, bad = docmap.compare(fab, lay, t, shift)
          rank = (bad is None, len(pairs) - (2 if shift else 0), s)
          if pairs and (choice is None or rank > choice[0]):
            choice = rank, keys, shift, pairs
      if choice:
        out[key] = {'tables': choice[1], 'shift': choice[2], 'pairs': [
            [a, b] for a, b, _ in choice[3]]}
        if key in ORDER:
          out[key]['order'] = ORDER[key]
  os.makedirs(os.path.join(HERE, 'spec'), exist_ok=True)
  with open(os.path.join(HERE, 'spec', 'docmap.json'), 'w') as f:
    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v))
                               for k, v in sorted(out.items())) + '\n}\n')
  print(len(out), sum(len(v['pairs']) for v in out.values()))


if __name__ == '__main__':
  main()
