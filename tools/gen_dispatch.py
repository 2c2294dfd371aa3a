#!/usr/bin/env python3
"""Writes spec/dispatch.json: what is used for each supported value."""
import json
import multiprocessing
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import dispatch

REPO = os.environ.get('DTF_REPO', '/repo')
FIELDS = [
    ('alias_data', 'alias_data_record_header', 'format_version', [2, 3]),
    ('aul_dsc', 'dsc_file_header', 'major_format_version', [1, 2]),
    ('aul_tracev3', 'tracev3_chunk_header', 'chunk_tag',
     [0x1000, 0x600b, [0x600d], [0x600d, 0x6001], [0x600d, 0x6002],
      [0x600d, 0x6003], [0x600d, 0x6004]]),
    ('aul_tracev3', 'tracev3_firehose_tracepoint', 'record_type',
     [0, 2, 3, 4, 6, 7]),
    ('aul_tracev3', 'tracev3_lz4_block_header', 'signature',
     ['bv41', 'bv4-']),
    ('bookmark_data', 'bookmark_data_tagged_value', 'value_tag',
     [0x1003, 0x1004, 0x1005, 0x1010, 0x2020]),
    ('cups_ipp', 'cups_ipp_attribute', 'tag_value',
     [0x21, 0x22, 0x23, 0x31, 0x32, 0x33, 0x35, 0x36, 0x41, 0x42, 0x47]),
    ('fseventsd', 'dls_page_header', 'signature', ['1SLD', '2SLD']),
    ('jump_list', 'dest_list_header', 'format_version', [1, 2, 3, 4]),
    ('keychain', 'keychain_table_header', 'record_type', [0, 1, 2, 3, 4]),
    ('leveldb', 'leveldb_table_block_trailer', 'compression_type', [0, 1, 2]),
    ('leveldb', 'leveldb_log_block', 'record_type', [1, 2, 3, 4]),
    ('recycle_bin', 'recycle_bin_metadata_file_header', 'format_version',
     [1, 2]),
    ('rp_change_log', 'rp_change_log_record_header', 'record_type',
     [3, 4, 5, 9]),
    ('spotlight_storedb', 'spotlight_store_db_property_page_header',
     'property_table_type',
     [9, 0x11, 0x21, 0x41, 0x81, 0x1009, 0x4009, 0x5009]),
    ('spotlight_storedb', 'spotlight_store_db_lz4_block_header', 'signature',
     ['bv41', 'bv4-']),
    ('tzif', 'tzif_file_header', 'format_version', [0, 0x32, 0x33]),
    ('wmi_repository', 'cim_page_header', 'page_type', [0xaccc, 0xaddd]),
    ('wmi_repository', 'instance_block', 'dynamic_block_type', [1, 2]),
]


def main():
  cases = [{'fabric': f + '.yaml', 'layouts': [l], 'field': n, 'values': v}
           for f, l, n, v in FIELDS]
  jobs = [(REPO, c, x) for c in cases for x in c['values']]
  with multiprocessing.Pool(8) as p:
    res = iter(p.map(dispatch.job, jobs, chunksize=1))
  out = []
  for c in cases:
    rs = [next(res) for _ in c['values']]
    assert all(rs), c
    common = set.intersection(*[r['used'] for r in rs])
    varied = sorted(set.union(*[r['used'] for r in rs]) - common)
    shapes = {}
    for r in rs:
      shapes.update(r['shapes'])
    c['varied'] = [[v, shapes.get(v, v)] for v in varied]
    c['uses'] = [[i for i, v in enumerate(varied) if v in r['used']]
                 for r in rs]
    out.append(c)
    print(c['fabric'], c['layouts'], c['field'])
    for x, u in zip(c['values'], c['uses']):
      print('   ', x, [c['varied'][i][0] for i in u])
  with open(os.path.join(HERE, 'spec', 'dispatch.json'), 'w',
            encoding='utf8') as f:
    f.write('[\n' + ',\n'.join(json.dumps(c, sort_keys=True)
                               for c in out) + '\n]\n')


if __name__ == '__main__':
  main()
