"""Writes spec/signatures.json: the fields whose values readers have to check.

The supported values come from the format documentation and from what the
readers of the pinned version support.
"""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'spec', 'signatures.json')
CASES = []


def case(fabric, layouts, field, accepted, size=None, **more):
  if isinstance(layouts, str):
    layouts = [layouts]
  c = {'fabric': fabric + '.yaml', 'layouts': layouts, 'field': field}
  if isinstance(accepted[0], bytes):
    c['bytes'] = [x.decode('latin-1') for x in accepted]
  else:
    c['integers'] = list(accepted)
    c['size'] = size
  c.update(more)
  CASES.append(c)


case('alias_data', 'alias_data_record_header', 'format_version', (2, 3), 2)
case('asl', 'asl_file_header', 'signature', (b'ASL DB\0\0\0\0\0\0',))
case('aul_dsc', 'dsc_file_header', 'signature', (b'hcsd',))
case('aul_dsc', 'dsc_file_header', 'major_format_version', (1, 2), 2)
case('aul_dsc', 'dsc_file_header', 'minor_format_version', (0,), 2)
case('aul_timesync', 'timesync_boot_record', 'signature', (b'\xb0\xbb',))
case('aul_timesync', 'timesync_sync_record', 'signature', (b'Ts',))
case('aul_tracev3', 'tracev3_lz4_block_header', 'signature',
     (b'bv41', b'bv4-'))
case('aul_uuidtext', 'uuidtext_file_header', 'signature', (b'\x99\x88\x77\x66',))
case('aul_uuidtext', 'uuidtext_file_header', 'major_format_version', (2,), 4)
case('aul_uuidtext', 'uuidtext_file_header', 'minor_format_version', (1,), 4)
case('bookmark_data', 'bookmark_data_header', 'signature', (b'book', b'alis'))
case('bookmark_data', 'bookmark_data_toc', 'unknown1', (0xfffffffe,), 4)
HEADERS = ['bsm_token_header32', 'bsm_token_header32_ex',
           'bsm_token_header64', 'bsm_token_header64_ex']
case('bsm', HEADERS, 'format_version', (11,), 1,
     group=['bsm_token', 'only', HEADERS + ['bsm_token_trailer']])
case('bsm', HEADERS, 'token_type', (0x14, 0x15, 0x74, 0x79), 1,
     group=['bsm_token', 'except', HEADERS], members=True)
case('chrome_cache', 'chrome_cache_index_file_header', 'signature',
     (0xc103cac3,), 4)
case('chrome_cache', 'chrome_cache_data_block_file_header', 'signature',
     (0xc104cac3,), 4)
UNSUPPORTED = [[0, 0], [0, 1], [1, 0], [1, 1], [1, 2], [2, 2], [2, 3], [2, 9],
               [2, 10], [2, 11], [2, 20], [2, 21], [2, 65535], [3, 0], [3, 1],
               [3, 2], [12, 0], [12, 1], [20, 0], [22, 1], [65535, 65535]]
for name in ('index', 'data_block'):
  case('chrome_cache', 'chrome_cache_%s_file_header' % name,
       'major_format_version', (2,), 2, pairs=UNSUPPORTED,
       second='minor_format_version')
case('cpio', ['cpio_portable_ascii_file_entry', 'cpio_new_ascii_file_entry'],
     'signature', (b'070707', b'070701', b'070702'))
case('cpio', ['cpio_binary_big_endian_file_entry',
              'cpio_binary_little_endian_file_entry'],
     'signature', (0x71c7,), 2)
case('emf', 'emf_file_header', 'signature', (0x464d4520,), 4)
case('firefox_cache1', 'firefox_cache1_map_header', 'major_format_version',
     (1,), 2)
case('fseventsd', 'dls_page_header', 'signature', (b'1SLD', b'2SLD'))
case('gzipfile', 'gzip_member_header', 'signature', (0x8b1f,), 2)
case('gzipfile', 'gzip_member_header', 'compression_method', (8,), 1)
case('jump_list', 'dest_list_header', 'format_version', (1, 2, 3, 4), 4)
case('jump_list', 'custom_file_header', 'format_version', (2,), 4)
case('jump_list', 'custom_category_header', 'category_type', (0, 1, 2), 4)
case('jump_list', 'custom_category_footer', 'signature',
     (b'\xab\xfb\xbf\xba',))
case('keychain', 'keychain_file_header', 'signature', (b'kych',))
case('leveldb', 'leveldb_table_footer', 'signature',
     (b'\x57\xfb\x80\x8b\x24\x75\x47\xdb',))
case('leveldb', 'leveldb_table_block_trailer', 'compression_type', (0, 1, 2), 1)
case('recycle_bin', 'recycle_bin_metadata_file_header', 'format_version',
     (1, 2), 8)
case('rp_change_log', 'rp_change_log_file_header', 'signature',
     (0xabcdef12,), 4)
case('rp_change_log', 'rp_change_log_file_header', 'record_type', (0,), 4)
case('rp_change_log', 'rp_change_log_file_header', 'format_version', (2,), 4)
case('rp_change_log', 'rp_change_log_entry', 'signature', (0xabcdef12,), 4)
case('rp_change_log', 'rp_change_log_entry', 'record_type', (1,), 4)
case('rp_change_log', 'rp_change_log_volume_path_record', 'record_type',
     (2,), 4)
case('safari_cookies', 'binarycookies_file_header', 'signature', (b'cook',))
case('spotlight_storedb', 'spotlight_store_db_file_header', 'signature',
     (b'8tsd',))
case('spotlight_storedb', 'spotlight_store_db_map_page_header', 'signature',
     (b'1mbd', b'2mbd'))
case('spotlight_storedb', 'spotlight_store_db_property_page_header',
     'signature', (b'2pbd',))
case('spotlight_storedb', 'spotlight_store_db_property_page_header',
     'property_table_type',
     (9, 0x11, 0x21, 0x41, 0x81, 0x1009, 0x4009, 0x5009), 4)
case('spotlight_storedb', 'spotlight_store_db_property_page_header',
     'property_table_type', (9, 0x1009, 0x4009, 0x5009), 4,
     inside=['SpotlightStoreDatabaseFile._ReadRecordPage'])
case('spotlight_storedb', 'spotlight_store_db_property_page_header',
     'property_table_type', (0x11, 0x21, 0x41, 0x81), 4,
     inside=['SpotlightStoreDatabaseFile._ReadPropertyPage'])
case('spotlight_storedb', 'spotlight_store_db_lz4_block_header', 'signature',
     (b'bv41', b'bv4-'))
case('spotlight_storedb', 'spotlight_database_streams_map_header',
     'signature', (b'\0PataD\0\0',))
case('systemd', 'systemd_journal_file_header', 'signature', (b'LPKSHHRH',))
case('systemd', 'systemd_journal_data_object', 'object_type', (1,), 1)
case('systemd', 'systemd_journal_data_object', 'object_flags', (0, 1, 2, 4), 1)
case('systemd', 'systemd_journal_entry_object', 'object_type', (3,), 1)
case('systemd', 'systemd_journal_entry_array_object', 'object_type', (6,), 1)
case('systemd', 'systemd_journal_entry_object', 'object_flags', (0,), 1)
case('systemd', 'systemd_journal_entry_array_object', 'object_flags', (0,), 1)
case('systemd', 'systemd_journal_file_header', 'header_size',
     (208, 224, 240), 8)
case('tzif', 'tzif_file_header', 'signature', (b'TZif',))
case('tzif', 'tzif_file_header', 'format_version', (0, 0x32, 0x33), 1)
case('usn_journal', 'usn_record_v2', 'major_format_version', (2,), 2)
case('usn_journal', 'usn_record_v2', 'minor_format_version', (0,), 2)
case('utmp', 'macosx_utmpx_entry', 'type', (10,), 2, signed=True)
case('wmf', 'wmf_header', 'file_type', (1, 2), 2)
case('wmi_repository', 'cim_map_footer', 'signature', (0xdcba,), 4)
# Windows XP files can have other data after the first part, so the second
# header is not looked at on its own.
case('wmi_repository', ['cim_map_header_v1', 'cim_map_header_v2'],
     'signature', (0xabcd,), 4)
case('wmi_repository', 'cim_rep_child_objects_root_node', 'depth',
     (0, 1, 2), 4)

if __name__ == '__main__':
  with open(OUT, 'w', encoding='utf8') as f:
    f.write('[\n' + ',\n'.join(json.dumps(c, sort_keys=True)
                               for c in CASES) + '\n]\n')
  print(len(CASES))
