From bc642d78e59a836ca2491451d19040b21b4ffe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 01/43] fix: report seek, overflow and memory errors in
 _ReadData as parse errors

property=C05
---
 dtformats/data_format.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 0646983..c8b8169 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -607,26 +607,23 @@ class BinaryDataFormat:
         if not file_object:
             raise ValueError("Missing file-like object.")
 
-        file_object.seek(file_offset, os.SEEK_SET)
-
-        read_error = ""
-
         try:
-            data = file_object.read(data_size)
-            read_count = len(data)
+            file_object.seek(file_offset, os.SEEK_SET)
 
-            if read_count != data_size:
-                read_error = (
-                    f"missing data (read: {read_count:d}, requested: {data_size:d})"
-                )
+            data = file_object.read(data_size)
 
-        except OSError as exception:
-            read_error = f"{exception!s}"
+        except (MemoryError, OSError, OverflowError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to read {description:s} data at offset: {file_offset:d} "
+                f"(0x{file_offset:08x}) with error: {exception!s}"
+            )
 
-        if read_error:
+        read_count = len(data)
+        if read_count != data_size:
             raise errors.ParseError(
                 f"Unable to read {description:s} data at offset: {file_offset:d} "
-                f"(0x{file_offset:08x}) with error: {read_error:s}"
+                f"(0x{file_offset:08x}) with error: missing data "
+                f"(read: {read_count:d}, requested: {data_size:d})"
             )
 
         return data
-- 
2.43.0


From f4f71d75468be28d4b264efa2536b8a9c3e7b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 02/43] fix: report an empty byte stream as a parse error

property=C05
---
 dtformats/data_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index c8b8169..79d3cc8 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -648,7 +648,7 @@ class BinaryDataFormat:
           ParseError: if the structure cannot be read.
           ValueError: if file-like object or data type map is missing.
         """
-        if not byte_stream:
+        if byte_stream is None:
             raise ValueError("Missing byte stream.")
 
         if not data_type_map:
-- 
2.43.0


From b86a39246be4b31319540de0394b375b3692c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 03/43] fix: close the file when opening a binary data file
 fails

property=C11
---
 dtformats/data_format.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index 79d3cc8..b19c0d1 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -888,11 +888,19 @@ class BinaryDataFile(BinaryDataFormat):
             raise OSError("File already opened")
 
         self._file_size = self._file_system_helper.GetFileSizeByPath(path)
-        self._path = path
 
         file_object = self._file_system_helper.OpenFileByPath(path)
+        if not file_object:
+            raise OSError(f"Unable to open: {path:s}")
 
-        self.ReadFileObject(file_object)
+        self._path = path
+
+        try:
+            self.ReadFileObject(file_object)
+        except:
+            file_object.close()
+            self._path = None
+            raise
 
         self._file_object = file_object
         self._file_object_opened_in_object = True
-- 
2.43.0


From 59bfb7c8a95e4d94a790ad546c4d0c261464fcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:19 +0000
Subject: [PATCH 04/43] fix: report bookmark data records of an unexpected type
 as a parse error

property=C05
---
 dtformats/bookmark_data.py | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/dtformats/bookmark_data.py b/dtformats/bookmark_data.py
index 464db90..65f3dd2 100644
--- a/dtformats/bookmark_data.py
+++ b/dtformats/bookmark_data.py
@@ -50,6 +50,27 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
         )
         return f"{value:s}\n"
 
+    def _GetDataRecordValue(self, data_record, attribute_name):
+        """Retrieves a value of a data record.
+
+        Args:
+          data_record (bookmark_data_record): data record.
+          attribute_name (str): name of the attribute that contains the value.
+
+        Returns:
+          object: value.
+
+        Raises:
+          ParseError: if the type of the data record is not supported.
+        """
+        value = getattr(data_record, attribute_name, None)
+        if value is None:
+            raise errors.ParseError(
+                f"Unsupported data record type: 0x{data_record.data_type:08x}"
+            )
+
+        return value
+
     def _ReadDataRecord(self, file_object, file_offset):
         """Reads a data record.
 
@@ -120,7 +141,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            integers_array.append(data_record.integer)
+            integers_array.append(
+                self._GetDataRecordValue(data_record, "integer")
+            )
 
         return integers_array
 
@@ -143,7 +166,7 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                 file_object, data_area_offset + data_record_offset
             )
 
-            strings_array.append(data_record.string)
+            strings_array.append(self._GetDataRecordValue(data_record, "string"))
 
         return strings_array
 
@@ -235,8 +258,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                     self._DebugPrintText("\n")
 
             elif tagged_value.value_tag == 0x1004:
+                integers = self._GetDataRecordValue(data_record, "integers")
                 strings_array = self._ReadStringsArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object, header.data_area_offset, integers
                 )
 
                 if self._debug:
@@ -246,8 +270,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
                     self._DebugPrintText("\n")
 
             elif tagged_value.value_tag == 0x1005:
+                integers = self._GetDataRecordValue(data_record, "integers")
                 integers_array = self._ReadIntegersArray(
-                    file_object, header.data_area_offset, data_record.integers
+                    file_object, header.data_area_offset, integers
                 )
 
                 if self._debug:
@@ -260,8 +285,9 @@ class MacOSBackgroundItemBookmarkData(data_format.BinaryDataFile):
 
             elif tagged_value.value_tag in (0x1010, 0x2020):
                 data_type_map = self._GetDataTypeMap("bookmark_data_property_flags")
+                data = self._GetDataRecordValue(data_record, "data")
                 property_flags = self._ReadStructureFromByteStream(
-                    data_record.data, 0, data_type_map, "Property flags"
+                    data, 0, data_type_map, "Property flags"
                 )
 
                 if self._debug:
-- 
2.43.0


From 89424d69f6cef9e589125e81ff33d3e75bdeba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:25 +0000
Subject: [PATCH 05/43] fix: do not fail on unexpected AMCache value types when
 printing debug output

property=C04
---
 dtformats/amcache.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index c7b3c00..bae2a5b 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -146,10 +146,14 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
           file_reference_key (pyregf_key): file reference key.
         """
         if self._debug:
-            if "0000" in file_reference_key.name:
-                sequence_number, mft_entry = file_reference_key.name.split("0000")
+            sequence_number, _, mft_entry = file_reference_key.name.partition("0000")
+            try:
                 mft_entry = int(mft_entry, 16)
                 sequence_number = int(sequence_number, 16)
+            except ValueError:
+                mft_entry = None
+
+            if mft_entry is not None:
                 self._DebugPrintText(
                     (
                         f"File: {file_reference_key.name:s} "
@@ -166,14 +170,16 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name == "d":
+                if value.name == "d" and isinstance(value_data, int):
                     major_version = value_data >> 16
                     minor_version = value_data & 0xFFFF
                     value_data = f"{major_version:d}.{minor_version:d}"
 
-                if value.name == "f":
+                if value.name == "f" and isinstance(value_data, int):
                     self._DebugPrintPosixTimeValue(description, value_data)
-                elif value.name in ("11", "12", "17"):
+                elif value.name in ("11", "12", "17") and isinstance(
+                    value_data, int
+                ):
                     self._DebugPrintFiletimeValue(description, value_data)
                 else:
                     self._DebugPrintValue(description, value_data)
@@ -213,11 +219,13 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             value_data = self._GetValueDataAsObject(value)
 
             if self._debug:
-                if value.name in ("7", "d", "Files"):
+                if value.name in ("7", "d", "Files") and isinstance(
+                    value_data, list
+                ):
                     for string_value in value_data:
                         self._DebugPrintValue(description, string_value)
                         description = ""
-                elif value.name in ("a", "b"):
+                elif value.name in ("a", "b") and isinstance(value_data, int):
                     self._DebugPrintPosixTimeValue(description, value_data)
                 else:
                     self._DebugPrintValue(description, value_data)
-- 
2.43.0


From 85988572469937e3e158d020b103903d29440c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:45 +0000
Subject: [PATCH 06/43] fix: report a BSM record without a trailer as a parse
 error and describe all tokens in debug output

property=C02 C03 C04 C05
---
 dtformats/bsm.debug.yaml | 71 +++++++++++++++++++++++++++++++++++++---
 dtformats/bsm.py         | 26 +++++++++++++--
 2 files changed, 90 insertions(+), 7 deletions(-)

diff --git a/dtformats/bsm.debug.yaml b/dtformats/bsm.debug.yaml
index d40a6e5..81025b3 100644
--- a/dtformats/bsm.debug.yaml
+++ b/dtformats/bsm.debug.yaml
@@ -67,6 +67,19 @@ attributes:
   description: "Data"
   format: binary_data
 ---
+# AUT_EXEC_ARGS or AUT_EXEC_ENV token debug information.
+data_type_map: bsm_token_exec_args
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: number_of_strings
+  description: "Number of strings"
+  format: decimal
+- name: strings
+  description: "Strings"
+  format: custom:array_of_strings
+---
 # AUT_EXIT, AUT_RETURN32, AUT_RETURN64 token debug information.
 data_type_map: bsm_token_exit
 attributes:
@@ -80,6 +93,19 @@ attributes:
   description: "Return value"
   format: hexadecimal_8digits
 ---
+# AUT_GROUPS or AUT_NEWGROUPS token debug information.
+data_type_map: bsm_token_groups
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: number_of_groups
+  description: "Number of groups"
+  format: decimal
+- name: groups
+  description: "Groups"
+  format: custom:array_of_decimals
+---
 # AUT_HEADER32, AUT_HEADER64 token debug information.
 data_type_map: bsm_token_header
 attributes:
@@ -125,7 +151,7 @@ attributes:
   format: hexadecimal_4digits
 - name: net_type
   description: "Net type"
-  format: custom:net_type
+  format: decimal
 - name: ip_address
   description: "IP address"
   format: custom:ip_address
@@ -154,7 +180,7 @@ attributes:
   format: hexadecimal_2digits
 - name: net_type
   description: "Net type"
-  format: custom:net_type
+  format: decimal
 - name: ip_address
   description: "IP address"
   format: custom:ip_address
@@ -186,6 +212,43 @@ attributes:
   description: "Object identifier"
   format: hexadecimal_8digits
 ---
+# AUT_IPC_PERM token debug information.
+data_type_map: bsm_token_ipc_perm
+attributes:
+- name: token_type
+  description: "Token type"
+  format: hexadecimal_2digits
+- name: user_identifier
+  description: "User identifier (UID)"
+  format: decimal
+- name: group_identifier
+  description: "Group identifier (GID)"
+  format: decimal
+- name: creator_user_identifier
+  description: "Creator user identifier (UID)"
+  format: decimal
+- name: creator_group_identifier
+  description: "Creator group identifier (GID)"
+  format: decimal
+- name: unknown1
+  description: "Unknown1"
+  format: hexadecimal_4digits
+- name: access_mode
+  description: "Access mode"
+  format: hexadecimal_4digits
+- name: unknown2
+  description: "Unknown2"
+  format: hexadecimal_4digits
+- name: slot_sequence_number
+  description: "Slot sequence number"
+  format: decimal
+- name: unknown3
+  description: "Unknown3"
+  format: hexadecimal_4digits
+- name: key
+  description: "Key"
+  format: hexadecimal_4digits
+---
 # AUT_IPORT token debug information.
 data_type_map: bsm_token_iport
 attributes:
@@ -265,7 +328,7 @@ attributes:
   format: hexadecimal_4digits
 - name: net_type
   description: "Net type"
-  format: custom:net_type
+  format: decimal
 - name: local_port
   description: "Local port"
   format: decimal
@@ -392,7 +455,7 @@ attributes:
   format: decimal
 - name: net_type
   description: "Net type"
-  format: custom:net_type
+  format: decimal
 - name: ip_address
   description: "IP address"
   format: custom:ip_address
diff --git a/dtformats/bsm.py b/dtformats/bsm.py
index ce1e2f1..92edb01 100644
--- a/dtformats/bsm.py
+++ b/dtformats/bsm.py
@@ -15,10 +15,11 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         "bsm.debug.yaml",
         custom_format_callbacks={
             "event_type": "_FormatIntegerAsEventType",
+            "array_of_decimals": "_FormatArrayOfIntegersAsDecimals",
+            "array_of_strings": "_FormatArrayOfStrings",
             "ip_address": "_FormatArrayOfIntegersAsIPAddress",
             "ipv4_address": "_FormatArrayOfIntegersAsIPv4Address",
             "ipv6_address": "_FormatArrayOfIntegersAsIPv6Address",
-            "net_type": "_FormatIntegerAsNetType",
             "posix_time": "_FormatIntegerAsPosixTime",
         },
     )
@@ -828,6 +829,11 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
         0x2C: "bsm_token_iport",
         0x2D: "bsm_token_arg",
         0x2F: "bsm_token_seq",
+        0x32: "bsm_token_ipc_perm",
+        0x34: "bsm_token_groups",
+        0x3B: "bsm_token_groups",
+        0x3C: "bsm_token_exec_args",
+        0x3D: "bsm_token_exec_args",
         0x3E: "bsm_token_attr",
         0x52: "bsm_token_exit",
         0x60: "bsm_token_zonename",
@@ -869,6 +875,18 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
 
         return None, False
 
+    def _FormatArrayOfStrings(self, array_of_strings):
+        """Formats an array of strings.
+
+        Args:
+          array_of_strings (list[str]): array of strings.
+
+        Returns:
+          tuple[str, bool]: array of strings formatted as a string and False to
+              indicate there should be no new line after value description.
+        """
+        return ", ".join([f"{string!s}" for string in array_of_strings]), False
+
     def _FormatIntegerAsEventType(self, integer):
         """Formats an integer as an event type.
 
@@ -923,6 +941,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             )
 
         header_record_size = token.record_size
+        trailer_record_size = None
         record_end_offset = file_offset + header_record_size
         while file_offset < record_end_offset:
             token = self._ReadToken(file_object, file_offset)
@@ -933,9 +952,10 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
 
             if token.token_type == self._TRAILER_TOKEN_TYPE:
+                trailer_record_size = token.record_size
                 break
 
-        if token.record_size != header_record_size:
+        if trailer_record_size != header_record_size:
             raise errors.ParseError(
                 "Mismatch of event record size between header and trailer token."
             )
@@ -955,7 +975,7 @@ class BSMEventAuditingFile(data_format.BinaryDataFile):
           ParseError: if the record cannot be read.
         """
         token_type = self._ReadTokenType(file_object, file_offset)
-        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "")
+        description = self._DESCRIPTION_PER_TOKEN_TYPE.get(token_type, "token")
 
         data_type_map = self._GetDataTypeMap("bsm_token")
 
-- 
2.43.0


From 1add9054df42564e69ad24abd24c6f0080abbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:17 +0000
Subject: [PATCH 07/43] fix: repair reading of Chrome Cache directories and
 malformed Chrome Cache files

property=C03 C05 C11 C14 C17
---
 dtformats/chrome_cache.debug.yaml |   2 +-
 dtformats/chrome_cache.py         | 209 +++++++++++++++++++-----------
 scripts/chrome_cache.py           |   2 +-
 3 files changed, 136 insertions(+), 77 deletions(-)

diff --git a/dtformats/chrome_cache.debug.yaml b/dtformats/chrome_cache.debug.yaml
index a19a4b6..00668b1 100644
--- a/dtformats/chrome_cache.debug.yaml
+++ b/dtformats/chrome_cache.debug.yaml
@@ -39,7 +39,7 @@ attributes:
   description: "User"
   format: custom:array_of_decimals
 ---
-data_type_map: chrome_cache_data_block_file_header
+data_type_map: chrome_cache_entry
 attributes:
 - name: hash
   description: "Hash"
diff --git a/dtformats/chrome_cache.py b/dtformats/chrome_cache.py
index 6020080..a8bdc83 100644
--- a/dtformats/chrome_cache.py
+++ b/dtformats/chrome_cache.py
@@ -10,6 +10,26 @@ from dtformats import errors
 from dtformats import file_system
 
 
+def GetDateTimeString(timestamp):
+    """Retrieves a date and time string of a Chrome timestamp.
+
+    Args:
+      timestamp (int): number of microseconds since January 1, 1601, 00:00:00 UTC.
+
+    Returns:
+      str: date and time string or "Out of bounds" if the timestamp cannot be
+          represented.
+    """
+    try:
+        date_time = datetime.datetime(1601, 1, 1) + datetime.timedelta(
+            microseconds=timestamp
+        )
+    except OverflowError:
+        return "Out of bounds"
+
+    return f"{date_time!s}"
+
+
 def SuperFastHash(key):
     """Function to calculate the super fast hash.
 
@@ -159,6 +179,12 @@ class CacheAddress:
                 f"file type: {file_type_description:s}, filename: {self.filename:s})"
             )
 
+        if self.file_type not in self._BLOCK_DATA_FILE_TYPES:
+            return (
+                f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
+                f"file type: {file_type_description:s})"
+            )
+
         # TODO: print reserved bits.
         return (
             f"0x{self.value:08x} (initialized: {self.is_initialized!s}, "
@@ -216,14 +242,19 @@ class DataBlockFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC104CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a Chrome Cache data block file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self.block_size = None
         self.format_version = None
         self.number_of_entries = None
@@ -342,10 +373,8 @@ class DataBlockFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
-        return f"{date_string!s} (0x{integer:08x})"
+        date_string = GetDateTimeString(integer)
+        return f"{date_string:s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
         """Reads the file header.
@@ -458,14 +487,19 @@ class IndexFile(data_format.BinaryDataFile):
 
     SIGNATURE = 0xC103CAC3
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a Chrome Cache index file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self.creation_time = None
         self.format_version = None
         self.index_table = {}
@@ -521,10 +555,8 @@ class IndexFile(data_format.BinaryDataFile):
         Returns:
           str: integer formatted as a Chrome timestamp.
         """
-        date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-            microseconds=integer
-        )
-        return f"{date_string!s} (0x{integer:08x})"
+        date_string = GetDateTimeString(integer)
+        return f"{date_string:s} (0x{integer:08x})"
 
     def _ReadFileHeader(self, file_object):
         """Reads the file header.
@@ -656,6 +688,51 @@ class ChromeCacheParser:
         self._file_system_helper = file_system_helper
         self._output_writer = output_writer
 
+    def _ParseCacheEntries(self, data_block_files, cache_address):
+        """Parses a chain of cache entries.
+
+        Args:
+          data_block_files (dict[str, DataBlockFile]): data block files per filename.
+          cache_address (CacheAddress): cache address of the first cache entry.
+
+        Raises:
+          ParseError: if a cache entry cannot be read.
+        """
+        # TODO: read the cache entries from the data block files
+        cache_address_chain_length = 0
+        while cache_address.value != 0x00000000:
+            if cache_address_chain_length >= 64:
+                logging.error("Maximum allowed cache address chain length reached.")
+                break
+
+            data_file = data_block_files.get(cache_address.filename)
+            if not data_file:
+                logging.warning(
+                    f"Cache address: 0x{cache_address.value:08x} missing filename."
+                )
+                break
+
+            if cache_address.block_offset is None:
+                raise errors.ParseError(
+                    f"Unsupported cache address: 0x{cache_address.value:08x}"
+                )
+
+            # cache_address_string = cache_address.GetDebugString()
+            # print(f'Cache address\t: {cache_address_string:s}')
+            cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
+
+            # TODO: print(f'Url\t\t: {cache_entry.key:s}')
+
+            date_string = GetDateTimeString(cache_entry.creation_time)
+            # print(f"Creation time\t: {date_string!s}")
+
+            # print("")
+
+            print(f"{date_string:s}\t{cache_entry.key:s}")
+
+            cache_address = cache_entry.next
+            cache_address_chain_length += 1
+
     def ParseDirectory(self, path):
         """Parses a Chrome Cache directory.
 
@@ -665,19 +742,30 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the directory cannot be read.
         """
-        index_file_path = self._file_system_helper.JoinPath(path, "index")
+        path_segments = self._file_system_helper.SplitPath(path)
+
+        index_file_path = self._file_system_helper.JoinPath(path_segments + ["index"])
         if not self._file_system_helper.CheckFileExistsByPath(index_file_path):
             raise errors.ParseError(f"Missing index file: {index_file_path:s}")
 
-        index_file = IndexFile(debug=self._debug, output_writer=self._output_writer)
+        index_file = IndexFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
         index_file.Open(index_file_path)
 
         data_block_files = {}
         have_all_data_block_files = True
-        for cache_address in index_file.index_table.values():
-            if cache_address.filename not in data_block_files:
+
+        try:
+            for cache_address in index_file.index_table.values():
+                filename = cache_address.filename
+                if not filename or filename in data_block_files:
+                    continue
+
                 data_block_file_path = self._file_system_helper.JoinPath(
-                    path, cache_address.filename
+                    path_segments + [filename]
                 )
                 if not self._file_system_helper.CheckFileExistsByPath(
                     data_block_file_path
@@ -687,66 +775,23 @@ class ChromeCacheParser:
 
                 else:
                     data_block_file = DataBlockFile(
-                        debug=self._debug, output_writer=self._output_writer
+                        debug=self._debug,
+                        file_system_helper=self._file_system_helper,
+                        output_writer=self._output_writer,
                     )
                     data_block_file.Open(data_block_file_path)
 
-                    data_block_files[cache_address.filename] = data_block_file
+                    data_block_files[filename] = data_block_file
 
-        if have_all_data_block_files:
-            # TODO: read the cache entries from the data block files
-            for cache_address in index_file.index_table.values():
-                cache_address_chain_length = 0
-                while cache_address.value != 0x00000000:
-                    if cache_address_chain_length >= 64:
-                        logging.error(
-                            "Maximum allowed cache address chain length reached."
-                        )
-                        break
-
-                    data_file = data_block_files.get(cache_address.filename)
-                    if not data_file:
-                        logging.warning(
-                            f"Cache address: 0x{cache_address.value:08x} missing "
-                            f"filename."
-                        )
-                        break
-
-                    # cache_address_string = cache_address.GetDebugString()
-                    # print(f'Cache address\t: {cache_address_string:s}')
-                    cache_entry = data_file.ReadCacheEntry(cache_address.block_offset)
-
-                    try:
-                        cache_entry_key = cache_entry.key.decode("ascii")
-                    except UnicodeDecodeError:
-                        logging.warning(
-                            f"Unable to decode cache entry key at cache address: "
-                            f"0x{cache_address.value:08x}. Characters that cannot be "
-                            f'decoded will be replaced with "?" or "\\ufffd".'
-                        )
-                        cache_entry_key = cache_entry.key.decode(
-                            "ascii", errors="replace"
-                        )
-
-                    # TODO: print(f'Url\t\t: {cache_entry_key:s}')
-                    _ = cache_entry_key
-
-                    date_string = datetime.datetime(1601, 1, 1) + datetime.timedelta(
-                        microseconds=cache_entry.creation_time
-                    )
-                    # print(f"Creation time\t: {date_string!s}")
-
-                    # print("")
-
-                    print(f"{date_string!s}\t{cache_entry.key:s}")
-
-                    cache_address = cache_entry.next
-                    cache_address_chain_length += 1
+            if have_all_data_block_files:
+                for cache_address in index_file.index_table.values():
+                    self._ParseCacheEntries(data_block_files, cache_address)
 
-        for data_block_file in data_block_files.values():
-            data_block_file.Close()
+        finally:
+            for data_block_file in data_block_files.values():
+                data_block_file.Close()
 
-        index_file.Close()
+            index_file.Close()
 
         if not have_all_data_block_files:
             raise errors.ParseError("Missing data block files.")
@@ -760,25 +805,39 @@ class ChromeCacheParser:
         Raises:
           ParseError: if the file cannot be read.
         """
-        with open(path, "rb") as file_object:
+        file_object = self._file_system_helper.OpenFileByPath(path)
+        if not file_object:
+            raise errors.ParseError(f"Unable to open: {path:s}")
+
+        try:
             signature_data = file_object.read(4)
 
             try:
                 signature = self._UINT32LE.MapByteStream(signature_data)
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to signature with error: {exception!s}"
                 )
 
             if signature == DataBlockFile.SIGNATURE:
                 chrome_cache_file = DataBlockFile(
-                    debug=self._debug, output_writer=self._output_writer
+                    debug=self._debug,
+                    file_system_helper=self._file_system_helper,
+                    output_writer=self._output_writer,
                 )
             elif signature == IndexFile.SIGNATURE:
                 chrome_cache_file = IndexFile(
-                    debug=self._debug, output_writer=self._output_writer
+                    debug=self._debug,
+                    file_system_helper=self._file_system_helper,
+                    output_writer=self._output_writer,
                 )
             else:
                 raise errors.ParseError(f"Unsupported signature: 0x{signature:08x}")
 
             chrome_cache_file.ReadFileObject(file_object)
+
+        finally:
+            file_object.close()
diff --git a/scripts/chrome_cache.py b/scripts/chrome_cache.py
index b92bffd..7aeaed9 100755
--- a/scripts/chrome_cache.py
+++ b/scripts/chrome_cache.py
@@ -63,7 +63,7 @@ def Main():
     )
 
     if os.path.isdir(options.source):
-        parser.ParseDirectory(options.source)
+        parser.ParseDirectory(os.path.abspath(options.source))
 
     else:
         parser.ParseFile(options.source)
-- 
2.43.0


From 305be4f12a46270acb85262376648fd3451a8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 08/43] fix: report malformed CPIO archive entries as parse
 errors

property=C05 C06 C07
---
 dtformats/cpio.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index c11c9b7..ade5a39 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -189,7 +189,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         elif self.file_format in ("crc", "newc"):
             data_type_map = self._GetDataTypeMap("cpio_new_ascii_file_entry")
         else:
-            data_type_map = None
+            raise errors.ParseError("Unsupported CPIO format.")
 
         file_entry, file_entry_data_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "file entry"
@@ -212,6 +212,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 try:
                     value = int(value, 8)
                 except ValueError:
+                    value = -1
+
+                if value < 0:
                     raise errors.ParseError(
                         (
                             f"Unable to convert attribute: {attribute_name:s} into an "
@@ -227,6 +230,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 try:
                     value = int(value, 16)
                 except ValueError:
+                    value = -1
+
+                if value < 0:
                     raise errors.ParseError(
                         (
                             f"Unable to convert attribute: {attribute_name:s} into an "
@@ -239,7 +245,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileEntry(file_entry)
 
-        path_data = file_object.read(file_entry.path_size)
+        path_data = self._ReadData(
+            file_object, file_offset, file_entry.path_size, "path"
+        )
 
         if self._debug:
             self._DebugPrintData("Path data", path_data)
@@ -247,7 +255,13 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         file_offset += file_entry.path_size
 
         # TODO: should this be ASCII?
-        path = path_data.decode("ascii")
+        try:
+            path = path_data.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode path with error: {exception!s}"
+            )
+
         path, _, _ = path.partition("\x00")
 
         if self._debug:
@@ -267,6 +281,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 padding_size = 4 - padding_size
 
         if self._debug:
+            file_object.seek(file_offset, os.SEEK_SET)
             padding_data = file_object.read(padding_size)
             self._DebugPrintData("Path alignment padding", padding_data)
 
@@ -384,7 +399,7 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
           CPIOArchiveFileEntry: CPIO archive file entry or None.
         """
         if not self._file_entries:
-            return False
+            return None
 
         return self._file_entries.get(path)
 
-- 
2.43.0


From 34666c19d6aafd3b05f69f07e7ad8bdfd4ef7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:54 +0000
Subject: [PATCH 09/43] fix: report malformed CUPS IPP values as parse errors

property=C05
---
 dtformats/cups_ipp.py | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/dtformats/cups_ipp.py b/dtformats/cups_ipp.py
index 3af6999..6f7d307 100644
--- a/dtformats/cups_ipp.py
+++ b/dtformats/cups_ipp.py
@@ -165,13 +165,15 @@ class CupsIppFile(data_format.BinaryDataFile):
             pass
 
         elif attribute.tag_value in self._STRING_WITHOUT_LANGUAGE_VALUES:
-            value = attribute.value_data.decode(self._last_charset_attribute)
+            value = self._ReadStringValue(
+                attribute.value_data, self._last_charset_attribute
+            )
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
 
         elif attribute.tag_value in self._ASCII_STRING_VALUES:
-            value = attribute.value_data.decode("ascii")
+            value = self._ReadStringValue(attribute.value_data, "ascii")
 
             if self._debug:
                 self._DebugPrintValue("Value", value)
@@ -275,9 +277,14 @@ class CupsIppFile(data_format.BinaryDataFile):
             value.hours_from_utc,
             value.minutes_from_utc,
         )
-        return dfdatetime_rfc2579_date_time.RFC2579DateTime(
-            rfc2579_date_time_tuple=rfc2579_date_time_tuple
-        )
+        try:
+            return dfdatetime_rfc2579_date_time.RFC2579DateTime(
+                rfc2579_date_time_tuple=rfc2579_date_time_tuple
+            )
+        except ValueError as exception:
+            raise errors.ParseError(
+                f"Unsupported date-time value with error: {exception!s}"
+            )
 
     def _ReadIntegerValue(self, byte_stream, file_offset):
         """Reads an integer value.
@@ -324,6 +331,26 @@ class CupsIppFile(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("cups_ipp_header")
             self._DebugPrintStructureObject(header, debug_info)
 
+    def _ReadStringValue(self, byte_stream, encoding):
+        """Reads a string value.
+
+        Args:
+          byte_stream (bytes): byte stream.
+          encoding (str): encoding of the string.
+
+        Returns:
+          str: string value.
+
+        Raises:
+          ParseError: when the string value cannot be read.
+        """
+        try:
+            return byte_stream.decode(encoding)
+        except (LookupError, UnicodeError, ValueError) as exception:
+            raise errors.ParseError(
+                f"Unable to decode string value with error: {exception!s}"
+            )
+
     def ReadFileObject(self, file_object):
         """Reads a CUPS Internet Printing Protocol (IPP) file-like object.
 
-- 
2.43.0


From 7bc1f29946923a923a2fb02ea6456554635b9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:01 +0000
Subject: [PATCH 10/43] fix: report corrupt gzip compressed data as a parse
 error

property=C05
---
 dtformats/gzipfile.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dtformats/gzipfile.py b/dtformats/gzipfile.py
index 422a310..3bd53a3 100644
--- a/dtformats/gzipfile.py
+++ b/dtformats/gzipfile.py
@@ -44,10 +44,19 @@ class GZipFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[bytes, bytes]: decompressed data and remaining data.
+
+        Raises:
+          ParseError: if the compressed data cannot be decompressed.
         """
         data_segments = []
         while compressed_data:
-            data = zlib_decompressor.decompress(compressed_data)
+            try:
+                data = zlib_decompressor.decompress(compressed_data)
+            except zlib.error as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress data with error: {exception!s}"
+                )
+
             if not data:
                 break
 
-- 
2.43.0


From f326dba6c4dc536ef11c3d9d4fbff89c5298908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:08 +0000
Subject: [PATCH 11/43] fix: read threat tracking data independent of debug
 output

property=C04 C05
---
 dtformats/detection_history.py | 45 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/dtformats/detection_history.py b/dtformats/detection_history.py
index 6c0026e..08fb8c4 100644
--- a/dtformats/detection_history.py
+++ b/dtformats/detection_history.py
@@ -3,6 +3,7 @@
 from dtfabric.runtime import data_maps as dtfabric_data_maps
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
@@ -244,30 +245,32 @@ class WindowsDefenderScanDetectionHistoryFile(data_format.BinaryDataFile):
 
             file_offset = file_object.tell()
 
-        if self._debug:
-            value_index_set = 0
-            value_index = 0
-            for file_offset, value_object in value_tuples:
-                if value_object == "Magic.Version:1.2":
-                    if value_index_set < 2:
-                        value_index_set += 1
-                    value_index = 0
+        value_index_set = 0
+        value_index = 0
+        for file_offset, value_object in value_tuples:
+            if value_object == "Magic.Version:1.2":
+                if value_index_set < 2:
+                    value_index_set += 1
+                value_index = 0
 
-                if (value_index_set, value_index) == (2, 5):
-                    self._ReadThreatTrackingData(value_object, file_offset + 8)
+            if (value_index_set, value_index) == (2, 5):
+                if not isinstance(value_object, bytes):
+                    raise errors.ParseError("Unsupported threat tracking data.")
 
-                else:
-                    description = self._VALUE_DESCRIPTIONS[value_index_set].get(
-                        value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
-                    )
+                self._ReadThreatTrackingData(value_object, file_offset + 8)
 
-                    if (value_index_set, value_index) == (1, 4):
-                        category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
-                        value_string = f"{value_object!s} ({category_name:s})"
+            elif self._debug:
+                description = self._VALUE_DESCRIPTIONS[value_index_set].get(
+                    value_index, f"UNKNOWN_{value_index_set:d}_{value_index:d}"
+                )
 
-                    else:
-                        value_string = f"{value_object!s}"
+                if (value_index_set, value_index) == (1, 4):
+                    category_name = self._CATEGORY_NAME.get(value_object, "UNKNOWN")
+                    value_string = f"{value_object!s} ({category_name:s})"
+
+                else:
+                    value_string = f"{value_object!s}"
 
-                    self._DebugPrintValue(description, value_string)
+                self._DebugPrintValue(description, value_string)
 
-                value_index += 1
+            value_index += 1
-- 
2.43.0


From f9d29eda89fcd27260c566351fcbb12aabfc1681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:21 +0000
Subject: [PATCH 12/43] fix: format padding in the CPIO debug output

property=C04 C05
---
 dtformats/cpio.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index ade5a39..9bc382d 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -166,6 +166,24 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
 
             self._DebugPrintValue("Checksum", f"0x{file_entry.checksum:08x}")
 
+    def _DebugPrintPadding(self, description, file_object, file_offset, padding_size):
+        """Prints padding for debugging.
+
+        Args:
+          description (str): description.
+          file_object (file): file-like object.
+          file_offset (int): offset of the padding relative to the start of
+              the file-like object.
+          padding_size (int): size of the padding.
+        """
+        try:
+            file_object.seek(file_offset, os.SEEK_SET)
+            padding_data = file_object.read(padding_size)
+        except (OSError, OverflowError):
+            padding_data = b""
+
+        self._DebugPrintData(description, padding_data)
+
     def _ReadFileEntry(self, file_object, file_offset):
         """Reads a file entry.
 
@@ -281,9 +299,9 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
                 padding_size = 4 - padding_size
 
         if self._debug:
-            file_object.seek(file_offset, os.SEEK_SET)
-            padding_data = file_object.read(padding_size)
-            self._DebugPrintData("Path alignment padding", padding_data)
+            self._DebugPrintPadding(
+                "Path alignment padding", file_object, file_offset, padding_size
+            )
 
         file_offset += padding_size
 
@@ -321,10 +339,12 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
 
         if padding_size > 0:
             if self._debug:
-                file_object.seek(file_offset, os.SEEK_SET)
-                padding_data = file_object.read(padding_size)
-
-                self._DebugPrintData("File data alignment padding", padding_data)
+                self._DebugPrintPadding(
+                    "File data alignment padding",
+                    file_object,
+                    file_offset,
+                    padding_size,
+                )
 
             archive_file_entry.size += padding_size
 
-- 
2.43.0


From 6e2bc273b08d483996e2ad8670284f6d1b594d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:39 +0000
Subject: [PATCH 13/43] fix: do not read past the end of a data range when the
 size is negative

property=C15
---
 dtformats/data_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/data_range.py b/dtformats/data_range.py
index e46e42d..7596555 100644
--- a/dtformats/data_range.py
+++ b/dtformats/data_range.py
@@ -56,7 +56,7 @@ class DataRange:
         if self._current_offset >= self.data_size:
             return b""
 
-        if size is None:
+        if size is None or size < 0:
             size = self.data_size
         if self._current_offset + size > self.data_size:
             size = self.data_size - self._current_offset
-- 
2.43.0


From ffd9bf0631fbb5f26a4a901f1b0d303e44b0ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:43 +0000
Subject: [PATCH 14/43] fix: pass the file system helper to the IndexedDB and
 LevelDB files

property=C17
---
 scripts/indexeddb.py |  4 +++-
 scripts/leveldb.py   | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/indexeddb.py b/scripts/indexeddb.py
index 659fabe..318bfd2 100755
--- a/scripts/indexeddb.py
+++ b/scripts/indexeddb.py
@@ -77,7 +77,9 @@ def Main():
         return False
 
     indexeddb_file = indexeddb.IndexedDBDatabaseTableFile(
-        debug=options.debug, output_writer=output_writer
+        debug=options.debug,
+        file_system_helper=file_system_helper,
+        output_writer=output_writer,
     )
 
     indexeddb_file.Open(options.source)
diff --git a/scripts/leveldb.py b/scripts/leveldb.py
index 770a43d..f4274e5 100755
--- a/scripts/leveldb.py
+++ b/scripts/leveldb.py
@@ -93,17 +93,23 @@ def Main():
 
     if file_signature == b"\x57\xfb\x80\x8b\x24\x75\x47\xdb":
         leveldb_file = leveldb.LevelDBDatabaseTableFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     elif path_segments[-1].startswith("MANIFEST"):
         leveldb_file = leveldb.LevelDBDatabaseDescriptorFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     else:
         leveldb_file = leveldb.LevelDBDatabaseLogFile(
-            debug=options.debug, output_writer=output_writer
+            debug=options.debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
         )
 
     leveldb_file.Open(options.source)
-- 
2.43.0


From d5f24304c4f9cf57d4ddd7fa91f5bd45f4c4e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 15/43] fix: report malformed WMI repository pages as parse
 errors

property=C05, C06, C14, C17 pages, object descriptors and mapping tables of a CIM repository; debug output of page numbers
---
 dtformats/wmi_repository.py | 111 ++++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 36 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 576b057..3472d0f 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -189,8 +189,17 @@ class MappingTable:
 
         Returns:
           int: (physical) page number.
+
+        Raises:
+          ParseError: if the mapped page number cannot be resolved.
         """
-        mapping_table_entry = self._mapping_table.entries[mapped_page_number]
+        try:
+            mapping_table_entry = self._mapping_table.entries[mapped_page_number]
+        except IndexError:
+            raise errors.ParseError(
+                f"Invalid mapped page number: {mapped_page_number:d} value out of bounds."
+            )
+
         return mapping_table_entry.page_number
 
 
@@ -322,14 +331,19 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
 
     _KEY_SEGMENT_SEPARATOR = "\\"
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes an index binary-tree file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self._unavailable_page_numbers = set([0, 0xFFFFFFFF])
 
     def _DebugPrintPageBody(self, page_body):
@@ -344,13 +358,13 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             self._DebugPrintDecimalValue(f"Unknown2: {index:d}", value)
 
         for index, page_number in enumerate(page_body.sub_pages):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(
                 f"Sub page: {index:d} mapped page number", value_string
             )
 
         for index, key_offset in enumerate(page_body.key_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(key_offset)
+            value_string = self._FormatIntegerAsOffset(key_offset)
             self._DebugPrintValue(f"Key: {index:d} offset", value_string)
 
         number_of_bytes = page_body.key_data_size * 2
@@ -362,7 +376,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         self._DebugPrintDecimalValue("Number of values", page_body.number_of_values)
 
         for index, offset in enumerate(page_body.value_offsets):
-            value_string, _ = self._FormatIntegerAsOffset(offset)
+            value_string = self._FormatIntegerAsOffset(offset)
             self._DebugPrintValue(f"Value: {index:d} offset", value_string)
 
         number_of_bytes = page_body.value_data_size * 2
@@ -451,12 +465,6 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             if self._debug:
                 self._DebugPrintPageBody(page_body)
 
-        if self._debug:
-            trailing_data_size = self._PAGE_SIZE - page_data_offset
-            if trailing_data_size > 0:
-                self._DebugPrintData("Trailing data", page_data[page_data_offset:])
-
-        if page_header.page_type == 0xACCC:
             index_binary_tree_page.number_of_keys = page_body.number_of_keys
 
             for page_number in page_body.sub_pages:
@@ -473,6 +481,11 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             for page_key_segments in index_binary_tree_page.page_key_segments:
                 key_segments = []
                 for segment_index in page_key_segments:
+                    if segment_index >= len(index_binary_tree_page.page_values):
+                        raise errors.ParseError(
+                            f"Invalid page key segment index: {segment_index:d} "
+                            f"value out of bounds."
+                        )
                     page_value = index_binary_tree_page.page_values[segment_index]
                     key_segments.append(page_value)
 
@@ -484,6 +497,11 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                 )
                 index_binary_tree_page.keys.append(key_path)
 
+        if self._debug:
+            trailing_data_size = self._PAGE_SIZE - page_data_offset
+            if trailing_data_size > 0:
+                self._DebugPrintData("Trailing data", page_data[page_data_offset:])
+
         return index_binary_tree_page
 
     def _ReadPageHeader(self, file_offset, page_header_data):
@@ -532,7 +550,7 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
             page_key_offset = key_offset * 2
 
             if self._debug:
-                value_string, _ = self._FormatIntegerAsOffset(page_key_offset)
+                value_string = self._FormatIntegerAsOffset(page_key_offset)
                 self._DebugPrintValue(
                     f"Page key: {page_key_index:d} offset", value_string
                 )
@@ -589,7 +607,10 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
                 value_string = self._STRING.MapByteStream(
                     value_data[page_value_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to parse page value: {index:d} string with error: "
                     f"{exception!s}"
@@ -631,7 +652,12 @@ class IndexBinaryTreeFile(data_format.BinaryDataFile):
         if self._debug:
             file_offset = 0
             while file_offset < self._file_size:
-                self._ReadPage(file_object, file_offset)
+                try:
+                    self._ReadPage(file_object, file_offset)
+                except errors.ParseError as exception:
+                    self._DebugPrintText(
+                        f"Unable to read page with error: {exception!s}\n"
+                    )
                 file_offset += self._PAGE_SIZE
 
 
@@ -652,14 +678,19 @@ class MappingFile(data_format.BinaryDataFile):
         custom_format_callbacks={"page_number": "_FormatIntegerAsPageNumber"},
     )
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a mappings file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self._mapping_table1 = None
         self._mapping_table2 = None
         self._unavailable_page_numbers = set([0xFFFFFFFF])
@@ -697,7 +728,7 @@ class MappingFile(data_format.BinaryDataFile):
             "  Number of entries", unknown_table.number_of_entries
         )
         for index, page_number in enumerate(unknown_table.entries):
-            value_string, _ = self._FormatIntegerAsPageNumber(page_number)
+            value_string = self._FormatIntegerAsPageNumber(page_number)
             self._DebugPrintValue(f"  Entry: {index:d} page number", value_string)
 
         self._DebugPrintText("\n")
@@ -916,11 +947,13 @@ class ObjectsDataFile(data_format.BinaryDataFile):
 
     _PAGE_SIZE = 8192
 
-    def _ReadObjectDescriptor(self, file_object):
+    def _ReadObjectDescriptor(self, file_object, file_offset):
         """Reads an object descriptor.
 
         Args:
           file_object (file): a file-like object.
+          file_offset (int): offset of the object descriptor relative to the start
+              of the file.
 
         Returns:
           cim_object_descriptor: an object descriptor or None if the object
@@ -929,15 +962,15 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the object descriptor cannot be read.
         """
-        file_offset = file_object.tell()
-
         if self._debug:
             self._DebugPrintText(
                 f"Reading object descriptor at offset: {file_offset:d} "
                 f"(0x{file_offset:08x})\n"
             )
 
-        object_descriptor_data = file_object.read(16)
+        object_descriptor_data = self._ReadData(
+            file_object, file_offset, 16, "object descriptor"
+        )
 
         if self._debug:
             self._DebugPrintData("Object descriptor data", object_descriptor_data)
@@ -972,12 +1005,15 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the object descriptor cannot be read.
         """
+        file_offset = objects_page.page_offset
+
         while True:
-            object_descriptor = self._ReadObjectDescriptor(file_object)
+            object_descriptor = self._ReadObjectDescriptor(file_object, file_offset)
             if not object_descriptor:
                 break
 
             objects_page.AppendObjectDescriptor(object_descriptor)
+            file_offset += 16
 
     def _ReadPage(self, file_object, file_offset, is_data_page):
         """Reads a page.
@@ -993,8 +1029,6 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         Returns:
           ObjectsDataPage: objects data page or None.
         """
-        file_object.seek(file_offset, os.SEEK_SET)
-
         if self._debug:
             self._DebugPrintText(
                 f"Reading objects data page at offset: {file_offset:d} "
@@ -1053,8 +1087,6 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         # Make the offset relative to the start of the file.
         file_offset = objects_page.page_offset + data_offset
 
-        self._file_object.seek(file_offset, os.SEEK_SET)
-
         if self._debug:
             self._DebugPrintText(
                 f"Reading object record data segment at offset: {file_offset:d} "
@@ -1068,7 +1100,9 @@ class ObjectsDataFile(data_format.BinaryDataFile):
         else:
             read_size = data_size
 
-        return self._file_object.read(read_size)
+        return self._ReadData(
+            self._file_object, file_offset, read_size, "object record data segment"
+        )
 
 
 class RepositoryFile(data_format.BinaryDataFile):
@@ -1106,14 +1140,19 @@ class RepositoryFile(data_format.BinaryDataFile):
         ("footer", "Footer", "_FormatDataInHexadecimal"),
     ]
 
-    def __init__(self, debug=False, output_writer=None):
+    def __init__(self, debug=False, file_system_helper=None, output_writer=None):
         """Initializes a repository file.
 
         Args:
           debug (Optional[bool]): True if debug information should be written.
+          file_system_helper (Optional[FileSystemHelper]): file system helper.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__(debug=debug, output_writer=output_writer)
+        super().__init__(
+            debug=debug,
+            file_system_helper=file_system_helper,
+            output_writer=output_writer,
+        )
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
@@ -1697,10 +1736,10 @@ class RepositoryFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "node cell"
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(file_offset)
+            value_string = self._FormatIntegerAsOffset(file_offset)
             self._DebugPrintValue("Node cell offset", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(file_offset + 4)
+            value_string = self._FormatIntegerAsOffset(file_offset + 4)
             self._DebugPrintValue("Data offset", value_string)
 
             if cell_number is not None:
@@ -2307,7 +2346,7 @@ class ClassDefinition(CIMObject):
         """
         lines = []
         for index, property_descriptor in enumerate(array_of_property_descriptors):
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
             line, _ = self._FormatValue(
@@ -2315,7 +2354,7 @@ class ClassDefinition(CIMObject):
             )
             lines.append(line)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
             line, _ = self._FormatValue(
@@ -2679,7 +2718,7 @@ class ClassDefinition(CIMObject):
             )
             self._DebugPrintValue("        Index", value_string)
 
-            value_string, _ = self._FormatIntegerAsOffset(
+            value_string = self._FormatIntegerAsOffset(
                 class_definition_property.value_data_offset
             )
             self._DebugPrintValue("        Value data offset", value_string)
@@ -3116,7 +3155,7 @@ class Instance(CIMObject):
             "unknown offset",
         )
         if self._debug:
-            value_string, _ = self._FormatIntegerAsOffset(unknown_offset)
+            value_string = self._FormatIntegerAsOffset(unknown_offset)
             self._DebugPrintValue("Unknown offset", value_string)
 
         data_offset += 4
-- 
2.43.0


From 9f997d2f949c9728a9326656f6c7f6c893377770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:30 +0000
Subject: [PATCH 16/43] fix: repair reading of malformed hierarchies in WMI
 repository files

property=C04, C05, C07 cyclic node offsets, missing instances and debug-only reads in a CIM repository file
---
 dtformats/wmi_repository.py | 279 ++++++++++++++++++++++++++----------
 1 file changed, 203 insertions(+), 76 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 3472d0f..a0c8138 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1156,6 +1156,24 @@ class RepositoryFile(data_format.BinaryDataFile):
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
+    def _DebugPrintNameNode(self, file_object, name_node_offset):
+        """Prints name node debug information.
+
+        Args:
+          file_object (file): file-like object.
+          name_node_offset (int): offset of the name node relative to the start
+              of the file.
+        """
+        if name_node_offset > 40:
+            try:
+                node_cell = self._ReadNodeCell(file_object, name_node_offset - 4)
+                self._ReadNameNode(node_cell.data, name_node_offset)
+
+            except errors.ParseError as exception:
+                self._DebugPrintText(
+                    f"Unable to read name node with error: {exception!s}\n"
+                )
+
     def _ReadChildObjectsList(self, file_object, list_node_offset):
         """Reads a child objects list.
 
@@ -1173,7 +1191,16 @@ class RepositoryFile(data_format.BinaryDataFile):
         list_element = 1
         next_list_element_node_offset = list_node.first_list_element_node_offset
 
+        list_element_node_offsets = set()
+
         while next_list_element_node_offset > 40:
+            if next_list_element_node_offset in list_element_node_offsets:
+                raise errors.ParseError(
+                    f"Invalid list element node offset: "
+                    f"{next_list_element_node_offset:d} already read."
+                )
+            list_element_node_offsets.add(next_list_element_node_offset)
+
             if self._debug:
                 self._DebugPrintText(f"Reading list element: {list_element:d}\n")
 
@@ -1751,6 +1778,51 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         return node_cell
 
+    def _ReadNodeOffsets(self, file_object, file_size, node_bin_size):
+        """Reads the node cells to determine the offsets of the nodes.
+
+        Args:
+          file_object (file): file-like object.
+          file_size (int): size of the file.
+          node_bin_size (int): size of the first node bin.
+
+        Yields:
+          tuple[int, int]: cell number and offset of the node relative to the start
+              of the file.
+
+        Raises:
+          ParseError: if the node cells cannot be read.
+        """
+        file_offset = 40
+        cell_number = 0
+
+        next_node_bin_offset = node_bin_size
+
+        while file_offset < file_size:
+            if file_offset == next_node_bin_offset:
+                node_bin_header = self._ReadNodeBinHeader(file_object, file_offset)
+                file_offset += 4
+
+                next_node_bin_offset += node_bin_header.node_bin_size
+
+            node_cell = self._ReadNodeCell(
+                file_object, file_offset, cell_number=cell_number
+            )
+            if node_cell.size == 0:
+                break
+
+            yield cell_number, file_offset + 4
+
+            node_cell_size = node_cell.size & 0x7FFFFFF
+            if node_cell_size == 0:
+                raise errors.ParseError(
+                    f"Invalid node cell size: 0x{node_cell.size:08x} value out of "
+                    f"bounds."
+                )
+
+            file_offset += node_cell_size
+            cell_number += 1
+
     def _ReadUnknownNode5(self, block_data, file_offset):
         """Reads an unknown node 5.
 
@@ -1824,17 +1896,33 @@ class RepositoryFile(data_format.BinaryDataFile):
           Instance: instance.
         """
 
-    def _ReadClassDefinitionHierarchy(self, file_object, root_node_offset):
+    def _ReadClassDefinitionHierarchy(
+        self, file_object, root_node_offset, root_node_offsets=None
+    ):
         """Reads the class definition hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          root_node_offsets (Optional[set[int]]): offsets of the root nodes that
+              were previously read.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the class definition hierarchy cannot be read.
         """
+        if root_node_offsets is None:
+            root_node_offsets = set()
+
+        if root_node_offset in root_node_offsets:
+            raise errors.ParseError(
+                f"Invalid root node offset: {root_node_offset:d} already read."
+            )
+        root_node_offsets.add(root_node_offset)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadClassDefinitionRootNode(node_cell.data, root_node_offset)
 
@@ -1874,19 +1962,23 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     yield from self._ReadClassDefinitionHierarchy(
-                        file_object, value_node_offset
+                        file_object,
+                        value_node_offset,
+                        root_node_offsets=root_node_offsets,
                     )
 
         if self._debug:
             if root_node.child_objects_root_node_offset > 40:
-                for value_node_offset in self._ReadChildObjectsTree(
-                    file_object, root_node.child_objects_root_node_offset
-                ):
-                    if value_node_offset > 40:
-                        node_cell = self._ReadNodeCell(
-                            file_object, value_node_offset - 4
-                        )
-                        self._ReadNameNode(node_cell.data, value_node_offset)
+                try:
+                    for value_node_offset in self._ReadChildObjectsTree(
+                        file_object, root_node.child_objects_root_node_offset
+                    ):
+                        self._DebugPrintNameNode(file_object, value_node_offset)
+
+                except errors.ParseError as exception:
+                    self._DebugPrintText(
+                        f"Unable to read child objects with error: {exception!s}\n"
+                    )
 
     def _ReadInstance(self, file_object, branch_node_offset):
         """Reads an instance.
@@ -1924,6 +2016,9 @@ class RepositoryFile(data_format.BinaryDataFile):
         class_definition = self._ReadClassDefinition(
             file_object, root_node.class_definition_branch_node_offset
         )
+        if class_definition is None:
+            return None
+
         node_cell = self._ReadNodeCell(
             file_object, instance_branch_node.instance_leaf_node_offset - 4
         )
@@ -1955,26 +2050,38 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         return instance
 
-    def _ReadInstanceHierarchy(self, file_object, root_node_offset):
+    def _ReadInstanceHierarchy(
+        self, file_object, root_node_offset, root_node_offsets=None
+    ):
         """Reads an instance hierarchy.
 
         Args:
           file_object (file): file-like object.
           root_node_offset (int): offset of the root node relative to the start of
               the file.
+          root_node_offsets (Optional[set[int]]): offsets of the root nodes that
+              were previously read.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the instance hierarchy cannot be read.
         """
+        if root_node_offsets is None:
+            root_node_offsets = set()
+
+        if root_node_offset in root_node_offsets:
+            raise errors.ParseError(
+                f"Invalid root node offset: {root_node_offset:d} already read."
+            )
+        root_node_offsets.add(root_node_offset)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
         if self._debug:
-            if root_node.name_node_offset > 40:
-                node_cell = self._ReadNodeCell(
-                    file_object, root_node.name_node_offset - 4
-                )
-                self._ReadNameNode(node_cell.data, root_node.name_node_offset)
+            self._DebugPrintNameNode(file_object, root_node.name_node_offset)
 
         if root_node.instance_branch_node_offset > 40:
             instance = self._ReadInstance(
@@ -1984,14 +2091,17 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
-                node_cell = self._ReadNodeCell(
-                    file_object, root_node.unknown_node5_offset - 4
-                )
-                unknown_node5 = self._ReadUnknownNode5(
-                    node_cell.data, root_node.unknown_node5_offset
-                )
-                # TODO: clean up after debugging
-                _ = unknown_node5
+                try:
+                    node_cell = self._ReadNodeCell(
+                        file_object, root_node.unknown_node5_offset - 4
+                    )
+                    self._ReadUnknownNode5(
+                        node_cell.data, root_node.unknown_node5_offset
+                    )
+                except errors.ParseError as exception:
+                    self._DebugPrintText(
+                        f"Unable to read unknown node 5 with error: {exception!s}\n"
+                    )
 
         if (
             root_node.child_objects_root_node_offset > 40
@@ -2006,42 +2116,47 @@ class RepositoryFile(data_format.BinaryDataFile):
                         node_cell.data, value_node_offset
                     )
                     if self._debug:
-                        if instance_leaf_value_node.name_node_offset > 40:
-                            node_cell = self._ReadNodeCell(
-                                file_object,
-                                instance_leaf_value_node.name_node_offset - 4,
-                            )
-                            self._ReadNameNode(
-                                node_cell.data,
-                                instance_leaf_value_node.name_node_offset,
-                            )
+                        self._DebugPrintNameNode(
+                            file_object, instance_leaf_value_node.name_node_offset
+                        )
 
                     if instance_leaf_value_node.instance_root_node_offset > 40:
                         yield from self._ReadInstanceHierarchy(
                             file_object,
                             instance_leaf_value_node.instance_root_node_offset,
+                            root_node_offsets=root_node_offsets,
                         )
 
         if self._debug:
             if root_node.child_objects_list_node_offset > 40:
-                for value_node_offset in self._ReadChildObjectsList(
-                    file_object, root_node.child_objects_list_node_offset
-                ):
-                    if value_node_offset > 40:
-                        node_cell = self._ReadNodeCell(
-                            file_object, root_node_offset - 4
-                        )
-                        root_node = self._ReadClassDefinitionRootNode(
-                            node_cell.data, root_node_offset
-                        )
-                        if root_node.class_definition_branch_node_offset > 40:
-                            self._ReadClassDefinition(
-                                file_object,
-                                root_node.class_definition_branch_node_offset,
+                try:
+                    for value_node_offset in self._ReadChildObjectsList(
+                        file_object, root_node.child_objects_list_node_offset
+                    ):
+                        if value_node_offset > 40:
+                            node_cell = self._ReadNodeCell(
+                                file_object, root_node_offset - 4
                             )
+                            class_root_node = self._ReadClassDefinitionRootNode(
+                                node_cell.data, root_node_offset
+                            )
+                            if class_root_node.class_definition_branch_node_offset > 40:
+                                self._ReadClassDefinition(
+                                    file_object,
+                                    class_root_node.class_definition_branch_node_offset,
+                                )
+
+                except errors.ParseError as exception:
+                    self._DebugPrintText(
+                        f"Unable to read child objects with error: {exception!s}\n"
+                    )
 
     def _ReadNamespaceInstanceHierarchy(
-        self, file_object, root_node_offset, parent_namespace_segments
+        self,
+        file_object,
+        root_node_offset,
+        parent_namespace_segments,
+        root_node_offsets=None,
     ):
         """Reads a namespace instance hierarchy.
 
@@ -2050,10 +2165,24 @@ class RepositoryFile(data_format.BinaryDataFile):
           root_node_offset (int): offset of the root node relative to the start of
               the file.
           parent_namespace_segments (list[str]): segments of the parent namespace.
+          root_node_offsets (Optional[set[int]]): offsets of the root nodes that
+              were previously read.
 
         Yields:
           Instance: instance.
+
+        Raises:
+          ParseError: if the namespace instance hierarchy cannot be read.
         """
+        if root_node_offsets is None:
+            root_node_offsets = set()
+
+        if root_node_offset in root_node_offsets:
+            raise errors.ParseError(
+                f"Invalid root node offset: {root_node_offset:d} already read."
+            )
+        root_node_offsets.add(root_node_offset)
+
         node_cell = self._ReadNodeCell(file_object, root_node_offset - 4)
         root_node = self._ReadInstanceRootNode(node_cell.data, root_node_offset)
 
@@ -2061,7 +2190,12 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
+            if instance is None:
+                raise errors.ParseError("Missing namespace instance.")
+
             name_property = instance.properties.get("Name")
+            if not isinstance(name_property, str):
+                raise errors.ParseError("Missing or unsupported namespace name.")
 
             namespace_segments = list(parent_namespace_segments)
             namespace_segments.append(name_property)
@@ -2088,6 +2222,7 @@ class RepositoryFile(data_format.BinaryDataFile):
                                 file_object,
                                 instance_leaf_value_node.instance_root_node_offset,
                                 namespace_segments,
+                                root_node_offsets=root_node_offsets,
                             )
 
     def ReadClassDefinitions(self):
@@ -2096,7 +2231,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._system_class_definition_root_node_offset > 40:
+        if (self._system_class_definition_root_node_offset or 0) > 40:
             yield from self._ReadClassDefinitionHierarchy(
                 self._file_object, self._system_class_definition_root_node_offset
             )
@@ -2107,7 +2242,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if (self._root_namespace_node_offset or 0) > 40:
             yield from self._ReadInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset
             )
@@ -2118,7 +2253,7 @@ class RepositoryFile(data_format.BinaryDataFile):
         Yields:
           Instance: instance.
         """
-        if self._root_namespace_node_offset > 40:
+        if (self._root_namespace_node_offset or 0) > 40:
             yield from self._ReadNamespaceInstanceHierarchy(
                 self._file_object, self._root_namespace_node_offset, []
             )
@@ -2139,42 +2274,34 @@ class RepositoryFile(data_format.BinaryDataFile):
 
         file_header = self._ReadFileHeader(file_object)
 
-        file_offset = 40
-        cell_number = 0
-
-        next_node_bin_offset = file_header.node_bin_size
-
         self._root_namespace_node_offset = None
         self._system_class_definition_root_node_offset = None
 
-        while file_offset < file_size:
-            if file_offset == next_node_bin_offset:
-                node_bin_header = self._ReadNodeBinHeader(file_object, file_offset)
-                file_offset += 4
-
-                next_node_bin_offset += node_bin_header.node_bin_size
-
-            node_cell = self._ReadNodeCell(
-                file_object, file_offset, cell_number=cell_number
-            )
-            if node_cell.size == 0:
-                break
-
+        node_offsets = self._ReadNodeOffsets(
+            file_object, file_size, file_header.node_bin_size
+        )
+        for cell_number, node_offset in node_offsets:
             if file_header.root_namespace_cell_number == cell_number:
-                self._root_namespace_node_offset = file_offset + 4
+                self._root_namespace_node_offset = node_offset
             elif file_header.system_class_cell_number == cell_number:
-                self._system_class_definition_root_node_offset = file_offset + 4
-
-            file_offset += node_cell.size & 0x7FFFFFF
-            cell_number += 1
+                self._system_class_definition_root_node_offset = node_offset
 
             if (
-                not self._debug
-                and self._root_namespace_node_offset is not None
+                self._root_namespace_node_offset is not None
                 and self._system_class_definition_root_node_offset is not None
             ):
                 break
 
+        if self._debug:
+            try:
+                for _ in node_offsets:
+                    pass
+
+            except errors.ParseError as exception:
+                self._DebugPrintText(
+                    f"Unable to read node cell with error: {exception!s}\n"
+                )
+
 
 class CIMObject(data_format.BinaryDataFormat):
     """CIM object."""
-- 
2.43.0


From 179ae27a0a3682eae819b6e67973e91c1baafa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 17/43] fix: repair opening of CIM repositories and close their
 files

property=C05, C07, C09, C11, C14, C17 CIMRepository.Open, class definition lookup, index page cycles and file name lookup
---
 dtformats/wmi_repository.py | 366 +++++++++++++++++++-----------------
 1 file changed, 197 insertions(+), 169 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index a0c8138..01fd9c4 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -1,6 +1,5 @@
 """WMI Common Information Model (CIM) repository files."""
 
-import glob
 import hashlib
 import logging
 import os
@@ -100,6 +99,13 @@ class ClassValueDataMap:
         for class_definition in class_definitions:
             for name, property_definition in class_definition.properties.items():
                 type_qualifier = property_definition.qualifiers.get("type")
+                if type_qualifier and not isinstance(type_qualifier, str):
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier for property: "
+                        f"{property_definition.name:s} of class: "
+                        f"{class_definition.name:s}"
+                    )
+
                 if not type_qualifier:
                     name_lower = property_definition.name.lower()
                     if name_lower in self.properties:
@@ -2476,7 +2482,7 @@ class ClassDefinition(CIMObject):
             value_string = self._FormatIntegerAsOffset(
                 property_descriptor.name_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} name offset", value_string
             )
             lines.append(line)
@@ -2484,7 +2490,7 @@ class ClassDefinition(CIMObject):
             value_string = self._FormatIntegerAsOffset(
                 property_descriptor.definition_offset
             )
-            line, _ = self._FormatValue(
+            line = self._FormatValue(
                 f"    Property descriptor: {index:d} definition offset", value_string
             )
             lines.append(line)
@@ -2990,7 +2996,7 @@ class ClassDefinitionReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self.data = None
         self.offset = None
         self.super_class_name = None
@@ -3056,7 +3062,7 @@ class InstanceReference(CIMObject):
           debug (Optional[bool]): True if debug information should be written.
           output_writer (Optional[OutputWriter]): output writer.
         """
-        super().__init__()
+        super().__init__(debug=debug, output_writer=output_writer)
         self._format_version = format_version
         self.class_name = None
         self.class_name_hash = None
@@ -3601,27 +3607,6 @@ class CIMRepository(data_format.BinaryDataFormat):
         if self._output_writer:
             self._output_writer.WriteText(text)
 
-    def _FormatFilenameAsGlob(self, filename):
-        """Formats the filename as a case-insensitive glob.
-
-        Args:
-          filename (str): name of the file.
-
-        Returns:
-          str: case-insensitive glob of representation the filename.
-        """
-        glob_parts = []
-        for character in filename:
-            if character.isalpha():
-                character_upper = character.upper()
-                character_lower = character.lower()
-                glob_part = f"[{character_upper:s}{character_lower:s}]"
-            else:
-                glob_part = character
-            glob_parts.append(glob_part)
-
-        return "".join(glob_parts)
-
     def _GetActiveMappingFile(self, path):
         """Retrieves the active mapping file.
 
@@ -3629,10 +3614,11 @@ class CIMRepository(data_format.BinaryDataFormat):
           path (str): path to the CIM repository.
 
         Returns:
-          MappingFile: mapping file or None if not available.
+          MappingFile: mapping file.
 
         Raises:
-          ParseError: if the mapping version file cannot be read.
+          ParseError: if the mapping version file cannot be read or if there is
+              no active mapping file.
         """
         mapping_ver_file_number = None
 
@@ -3658,31 +3644,23 @@ class CIMRepository(data_format.BinaryDataFormat):
         # Unsure how reliable this method is since multiple index[1-3].map files
         # can have the same sequence number but contain different mappings.
         for mapping_file_number in range(1, 4):
-            filename_as_glob, _ = self._FormatFilenameAsGlob(
-                f"mapping{mapping_file_number:d}.map"
+            # TODO: change to only read limited information.
+            mapping_file = self._ReadMappingFile(
+                path, f"mapping{mapping_file_number:d}.map"
             )
-            path_with_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
-            mapping_file_glob = glob.glob(path_with_glob)
-            if not mapping_file_glob:
+            if not mapping_file:
                 continue
 
-            if self._debug:
-                self._DebugPrintText(f"Reading: {mapping_file_glob[0]:s}\n")
-
-            mapping_file = MappingFile(
-                debug=self._debug, output_writer=self._output_writer
-            )
-            # TODO: change to only read limited information.
-            mapping_file.Open(mapping_file_glob[0])
-
             if not active_mapping_file:
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
             elif mapping_file.sequence_number > active_mapping_file.sequence_number:
-                active_mapping_file.Close()
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
+        if not active_mapping_file:
+            raise errors.ParseError("Unable to determine active mapping file.")
+
         if (
             mapping_ver_file_number is not None
             and mapping_ver_file_number != active_mapping_file_number
@@ -3734,7 +3712,7 @@ class CIMRepository(data_format.BinaryDataFormat):
           ClassValueMap: class value map or None.
 
         Raises:
-          RuntimeError: if a class definition cannot be found.
+          ParseError: if a class definition cannot be found.
         """
         lookup_key = class_name_hash.lower()
 
@@ -3742,24 +3720,24 @@ class CIMRepository(data_format.BinaryDataFormat):
         if not class_value_data_map:
             class_definition = self._GetClassDefinitionByHash(class_name_hash)
             if not class_definition:
-                raise RuntimeError(
-                    (
-                        f"Unable to retrieve definition of class with hash: "
-                        f"{class_name_hash:s}"
-                    )
+                raise errors.ParseError(
+                    f"Unable to retrieve definition of class with hash: "
+                    f"{class_name_hash:s}"
                 )
 
             class_definitions = [class_definition]
             while class_definition.super_class_name:
-                class_definition = self._GetClassDefinitionByName(
-                    class_definition.super_class_name
-                )
+                super_class_name = class_definition.super_class_name
+                class_definition = self._GetClassDefinitionByName(super_class_name)
                 if not class_definition:
-                    raise RuntimeError(
-                        (
-                            f"Unable to retrieve definition of class with name: "
-                            f"{class_definition.super_class_name:s}"
-                        )
+                    raise errors.ParseError(
+                        f"Unable to retrieve definition of class with name: "
+                        f"{super_class_name:s}"
+                    )
+
+                if class_definition in class_definitions:
+                    raise errors.ParseError(
+                        f"Class with name: {super_class_name:s} is its own super class"
                     )
 
                 class_definitions.append(class_definition)
@@ -3779,6 +3757,26 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return class_value_data_map
 
+    def _GetFilePath(self, path, filename):
+        """Retrieves the path of a file in the CIM repository.
+
+        Args:
+          path (str): path to the CIM repository.
+          filename (str): name of the file, which is compared case-insensitive.
+
+        Returns:
+          str: path of the file or None if not available.
+        """
+        filename = filename.lower()
+
+        for directory_entry in sorted(
+            self._file_system_helper.ListDirectory(path or ".")
+        ):
+            if directory_entry.lower() == filename:
+                return self._file_system_helper.JoinPath([path, directory_entry])
+
+        return None
+
     def _GetHashFromString(self, string):
         """Retrieves the hash of a string.
 
@@ -3822,19 +3820,19 @@ class CIMRepository(data_format.BinaryDataFormat):
           IndexBinaryTreePage: an index binary-tree page or None.
 
         Raises:
-          RuntimeError: if the index first mapped page could not be determined.
+          ParseError: if the index first mapped page could not be determined.
         """
         page_number = self._index_mapping_table.ResolveMappedPageNumber(0)
 
         index_page = self._index_binary_tree_file.GetPage(page_number)
         if not index_page:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unable to determine first mapped index binary-tree page: "
                 f"{page_number:d}."
             )
 
         if index_page.page_type != 0xADDD:
-            raise RuntimeError(
+            raise errors.ParseError(
                 f"Unsupported first mapped index binary-tree page type: "
                 f"0x{index_page.page_type:04x}"
             )
@@ -3868,20 +3866,39 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return self._index_root_page
 
-    def _GetKeysFromIndexPage(self, index_page):
+    def _GetKeysFromIndexPage(self, index_page, mapped_page_numbers=None):
         """Retrieves the keys from an index page.
 
+        Args:
+          index_page (IndexBinaryTreePage): index binary-tree page or None.
+          mapped_page_numbers (Optional[set[int]]): mapped page numbers of the sub
+              pages that were previously read.
+
         Yields:
           str: a CIM key.
+
+        Raises:
+          ParseError: if the index page refers to a previously read page.
         """
+        if mapped_page_numbers is None:
+            mapped_page_numbers = set()
+
         if index_page:
             yield from index_page.keys
 
             for mapped_page_number in index_page.sub_pages:
+                if mapped_page_number in mapped_page_numbers:
+                    raise errors.ParseError(
+                        f"Invalid sub page: {mapped_page_number:d} already read."
+                    )
+                mapped_page_numbers.add(mapped_page_number)
+
                 sub_index_page = self._GetIndexPageByMappedPageNumber(
                     mapped_page_number
                 )
-                yield from self._GetKeysFromIndexPage(sub_index_page)
+                yield from self._GetKeysFromIndexPage(
+                    sub_index_page, mapped_page_numbers=mapped_page_numbers
+                )
 
     def _GetObjectsPageByMappedPageNumber(self, mapped_page_number, is_data_page):
         """Retrieves a specific objects page by mapped page number.
@@ -3918,11 +3935,11 @@ class CIMRepository(data_format.BinaryDataFormat):
           ObjectRecord: an object record or None.
 
         Raises:
-          ParseError: if the objects records could not be parsed.
-          RuntimeError: if the objects data file was not opened.
+          ParseError: if the objects records could not be parsed or if the objects
+              data file was not opened.
         """
         if not self._objects_data_file:
-            raise RuntimeError("Objects.data file was not opened.")
+            raise errors.ParseError("Objects.data file was not opened.")
 
         data_segments = []
         is_data_page = False
@@ -4008,6 +4025,65 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         return data_type, name_hash, page_number, record_identifier, data_size
 
+    def _Open(self, path):
+        """Opens the CIM repository.
+
+        Args:
+          path (str): path to the CIM repository or an individual file.
+
+        Raises:
+          ParseError: if the CIM repository cannot be read.
+        """
+        basename = os.path.basename(path).lower()
+
+        if basename in (
+            "index.map",
+            "mapping1.map",
+            "mapping2.map",
+            "mapping3.map",
+            "objects.map",
+        ):
+            path = os.path.dirname(path)
+            self._ReadMappingFile(path, basename)
+            return
+
+        if basename in ("cim.rep", "index.btr"):
+            path = os.path.dirname(path)
+
+        if basename == "cim.rep":
+            self.format_version = "2.0"
+
+            self._repository_file = self._OpenRepositoryFile(path)
+            return
+
+        mapping_file = self._ReadMappingFile(path, "index.map")
+        if not mapping_file:
+            mapping_file = self._GetActiveMappingFile(path)
+
+        self._index_mapping_table = mapping_file.GetIndexMappingTable()
+
+        if mapping_file.format_version == 1:
+            self.format_version = "2.1"
+        else:
+            self.format_version = "2.2"
+
+        self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
+        if not self._index_binary_tree_file:
+            raise errors.ParseError("Missing index binary-tree file.")
+
+        if basename == "index.btr":
+            return
+
+        mapping_file = self._ReadMappingFile(path, "objects.map")
+        if not mapping_file:
+            mapping_file = self._GetActiveMappingFile(path)
+
+        self._objects_mapping_table = mapping_file.GetObjectsMappingTable()
+
+        self._objects_data_file = self._OpenObjectsDataFile(path)
+
+        self._ReadClassDefinitionsFromObjectRecords()
+
     def _OpenIndexBinaryTreeFile(self, path):
         """Opens an index binary tree.
 
@@ -4017,27 +4093,24 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           IndexBinaryTreeFile: index binary tree file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("index.btr")
-        index_binary_tree_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-
-        index_binary_tree_file_path = glob.glob(index_binary_tree_file_glob)
+        index_binary_tree_file_path = self._GetFilePath(path, "index.btr")
         if not index_binary_tree_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {index_binary_tree_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {index_binary_tree_file_path:s}\n")
 
         index_binary_tree_file = IndexBinaryTreeFile(
-            debug=self._debug, output_writer=self._output_writer
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
         )
-        index_binary_tree_file.Open(index_binary_tree_file_path[0])
+        index_binary_tree_file.Open(index_binary_tree_file_path)
 
         return index_binary_tree_file
 
-    def _OpenMappingFile(self, path, filename):
-        """Opens a mapping file.
+    def _ReadMappingFile(self, path, filename):
+        """Reads a mapping file.
 
         Args:
           path (str): path to the CIM repository.
@@ -4046,18 +4119,21 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           MappingFile: mapping file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob(filename)
-        mapping_file_glob = self._file_system_helper.JoinPath([path, filename_as_glob])
-
-        mapping_file_path = glob.glob(mapping_file_glob)
+        mapping_file_path = self._GetFilePath(path, filename)
         if not mapping_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {mapping_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {mapping_file_path:s}\n")
 
-        mapping_file = MappingFile(debug=self._debug, output_writer=self._output_writer)
-        mapping_file.Open(mapping_file_path[0])
+        mapping_file = MappingFile(
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
+        )
+        # The mapping tables are read when the file is opened.
+        mapping_file.Open(mapping_file_path)
+        mapping_file.Close()
 
         return mapping_file
 
@@ -4070,17 +4146,11 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           file: file-like object or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("mapping.ver")
-        mapping_version_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-
-        mapping_version_file_path = glob.glob(mapping_version_file_glob)
+        mapping_version_file_path = self._GetFilePath(path, "mapping.ver")
         if not mapping_version_file_path:
             return None
 
-        # pylint: disable=consider-using-with
-        return open(mapping_version_file_path[0], "rb")
+        return self._file_system_helper.OpenFileByPath(mapping_version_file_path)
 
     def _OpenObjectsDataFile(self, path):
         """Opens an objects data file.
@@ -4091,22 +4161,19 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           ObjectsDataFile: objects data file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("objects.data")
-        objects_data_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-
-        objects_data_file_path = glob.glob(objects_data_file_glob)
+        objects_data_file_path = self._GetFilePath(path, "objects.data")
         if not objects_data_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {objects_data_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {objects_data_file_path:s}\n")
 
         objects_data_file = ObjectsDataFile(
-            debug=self._debug, output_writer=self._output_writer
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
         )
-        objects_data_file.Open(objects_data_file_path[0])
+        objects_data_file.Open(objects_data_file_path)
 
         return objects_data_file
 
@@ -4119,21 +4186,19 @@ class CIMRepository(data_format.BinaryDataFormat):
         Returns:
           RepositoryFile: repository file or None if not available.
         """
-        filename_as_glob, _ = self._FormatFilenameAsGlob("cim.rep")
-        repository_file_glob = self._file_system_helper.JoinPath(
-            [path, filename_as_glob]
-        )
-        repository_file_path = glob.glob(repository_file_glob)
+        repository_file_path = self._GetFilePath(path, "cim.rep")
         if not repository_file_path:
             return None
 
         if self._debug:
-            self._DebugPrintText(f"Reading: {repository_file_path[0]:s}\n")
+            self._DebugPrintText(f"Reading: {repository_file_path:s}\n")
 
         repository_file = RepositoryFile(
-            debug=self._debug, output_writer=self._output_writer
+            debug=self._debug,
+            file_system_helper=self._file_system_helper,
+            output_writer=self._output_writer,
         )
-        repository_file.Open(repository_file_path[0])
+        repository_file.Open(repository_file_path)
 
         return repository_file
 
@@ -4276,18 +4341,22 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         object_record_values = set()
         instances_per_namespace = {}
-        parent_namespaces = set()
+        parent_namespaces = []
 
         index_page = self._GetIndexRootPage()
         for key in self._GetKeysFromIndexPage(index_page):
             key_segments = key.split(self._KEY_SEGMENT_SEPARATOR)
 
+            if len(key_segments) < 3:
+                continue
+
             key_segment = key_segments[1]
             if not key_segment.startswith("NS_"):
                 continue
 
             namespace_hash = key_segment[3:].lower()
-            parent_namespaces.add(namespace_hash)
+            if namespace_hash not in parent_namespaces:
+                parent_namespaces.append(namespace_hash)
 
             _, _, key_segment = key_segments[2].partition("_")
             if key_segment.lower() != class_name_hash:
@@ -4320,11 +4389,11 @@ class CIMRepository(data_format.BinaryDataFormat):
             namespaces_by_hash[namespace_hash] = namespace
 
         for _ in range(5):
-            unresolved_namespaces = set()
+            unresolved_namespaces = []
             for parent_namespace_hash in parent_namespaces:
                 parent_namespace = namespaces_by_hash.get(parent_namespace_hash)
                 if not parent_namespace:
-                    unresolved_namespaces.add(parent_namespace_hash)
+                    unresolved_namespaces.append(parent_namespace_hash)
                     continue
 
                 instances = instances_per_namespace.get(parent_namespace_hash)
@@ -4333,6 +4402,10 @@ class CIMRepository(data_format.BinaryDataFormat):
 
                 for instance in instances:
                     name_property = instance.properties.get("Name")
+                    if not isinstance(name_property, str):
+                        raise errors.ParseError(
+                            "Missing or unsupported namespace name."
+                        )
 
                     namespace = "\\".join([parent_namespace, name_property])
 
@@ -4362,6 +4435,10 @@ class CIMRepository(data_format.BinaryDataFormat):
             self._index_binary_tree_file.Close()
             self._index_binary_tree_file = None
 
+        if self._repository_file:
+            self._repository_file.Close()
+            self._repository_file = None
+
     def GetInstances(self):
         """Retrieves instances.
 
@@ -4431,61 +4508,12 @@ class CIMRepository(data_format.BinaryDataFormat):
 
         Args:
           path (str): path to the CIM repository or an individual file.
-        """
-        basename = os.path.basename(path).lower()
 
-        if basename in (
-            "index.map",
-            "mapping1.map",
-            "mapping2.map",
-            "mapping3.map",
-            "objects.map",
-        ):
-            path = os.path.dirname(path)
-            self._OpenMappingFile(path, basename)
-
-            return
-
-        if basename in ("cim.rep", "index.btr"):
-            path = os.path.dirname(path)
-
-        active_mapping_file = None
-
-        if basename == "cim.rep":
-            self.format_version = "2.0"
-
-            self._repository_file = self._OpenRepositoryFile(path)
-        else:
-            index_mapping_file = self._OpenMappingFile(path, "index.map")
-            if not index_mapping_file:
-                active_mapping_file = self._GetActiveMappingFile(path)
-                index_mapping_file = active_mapping_file
-
-            self._index_mapping_table = index_mapping_file.GetIndexMappingTable()
-
-            if index_mapping_file.format_version == 1:
-                self.format_version = "2.1"
-            else:
-                self.format_version = "2.2"
-
-            if basename == "index.btr" or not active_mapping_file:
-                index_mapping_file.Close()
-
-            self._index_binary_tree_file = self._OpenIndexBinaryTreeFile(path)
-
-            if basename == "index.btr":
-                return
-
-            objects_mapping_file = self._OpenMappingFile(path, "objects.map")
-            if not objects_mapping_file:
-                if not active_mapping_file:
-                    active_mapping_file = self._GetActiveMappingFile(path)
-                objects_mapping_file = active_mapping_file
-
-            self._objects_mapping_table = objects_mapping_file.GetObjectsMappingTable()
-
-            objects_mapping_file.Close()
-
-            self._objects_data_file = self._OpenObjectsDataFile(path)
-
-            self._ReadClassDefinitionsFromObjectRecords()
+        Raises:
+          ParseError: if the CIM repository cannot be read.
+        """
+        try:
+            self._Open(path)
+        except Exception:
+            self.Close()
+            raise
-- 
2.43.0


From 7ce59a5189611d40ac5acbf27a63b64974454c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:05 +0000
Subject: [PATCH 18/43] fix: skip missing WMI instances and describe instance
 branch nodes in debug output

property=C03, C05, C14 missing instances, object descriptors and type qualifiers in a CIM repository
---
 dtformats/wmi_repository.debug.yaml |  2 +-
 dtformats/wmi_repository.py         | 30 +++++++++++++++++++----------
 scripts/wmi_repository.py           |  5 ++++-
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/dtformats/wmi_repository.debug.yaml b/dtformats/wmi_repository.debug.yaml
index 77296c3..b87582a 100644
--- a/dtformats/wmi_repository.debug.yaml
+++ b/dtformats/wmi_repository.debug.yaml
@@ -310,7 +310,7 @@ attributes:
   format: custom:offset
 - name: unknown1
   description: "Unknown1"
-  format: binary_data
+  format: decimal
 - name: instance_leaf_node_offset
   description: "Instance leaf node offset"
   format: custom:offset
diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 01fd9c4..0c6bc09 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -99,13 +99,6 @@ class ClassValueDataMap:
         for class_definition in class_definitions:
             for name, property_definition in class_definition.properties.items():
                 type_qualifier = property_definition.qualifiers.get("type")
-                if type_qualifier and not isinstance(type_qualifier, str):
-                    raise errors.ParseError(
-                        f"Unsupported type qualifier for property: "
-                        f"{property_definition.name:s} of class: "
-                        f"{class_definition.name:s}"
-                    )
-
                 if not type_qualifier:
                     name_lower = property_definition.name.lower()
                     if name_lower in self.properties:
@@ -117,6 +110,13 @@ class ClassValueDataMap:
                         f"{class_definition.name:s}"
                     )
 
+                if not isinstance(type_qualifier, str):
+                    raise errors.ParseError(
+                        f"Unsupported type qualifier for property: "
+                        f"{property_definition.name:s} of class: "
+                        f"{class_definition.name:s}"
+                    )
+
                 value_data_size = self._PROPERTY_TYPE_VALUE_DATA_SIZE.get(
                     property_definition.value_data_type, 4
                 )
@@ -1960,7 +1960,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             ):
                 if value_node_offset > 40:
                     instance = self._ReadInstance(file_object, value_node_offset)
-                    yield instance
+                    if instance:
+                        yield instance
 
         if root_node.sub_node_offset > 40 and root_node.sub_node_type in (9, 10):
             for value_node_offset in self._ReadChildObjectsTree(
@@ -2093,7 +2094,8 @@ class RepositoryFile(data_format.BinaryDataFile):
             instance = self._ReadInstance(
                 file_object, root_node.instance_branch_node_offset
             )
-            yield instance
+            if instance:
+                yield instance
 
         if self._debug:
             if root_node.unknown_node5_offset > 40 and root_node.unknown2 == 0:
@@ -3658,7 +3660,7 @@ class CIMRepository(data_format.BinaryDataFormat):
                 active_mapping_file = mapping_file
                 active_mapping_file_number = mapping_file_number
 
-        if not active_mapping_file:
+        if not active_mapping_file or active_mapping_file_number is None:
             raise errors.ParseError("Unable to determine active mapping file.")
 
         if (
@@ -3958,6 +3960,11 @@ class CIMRepository(data_format.BinaryDataFormat):
                 object_descriptor = object_page.GetObjectDescriptor(
                     record_identifier, data_size
                 )
+                if not object_descriptor:
+                    raise errors.ParseError(
+                        f"Missing object descriptor of objects record: "
+                        f"{record_identifier:d}."
+                    )
 
                 data_offset = object_descriptor.data_offset
                 is_data_page = True
@@ -4499,6 +4506,9 @@ class CIMRepository(data_format.BinaryDataFormat):
         data_type, _, mapped_page_number, record_identifier, data_size = (
             self._GetObjectRecordValuesFromKey(key_segments[-1])
         )
+        if data_type is None:
+            return None
+
         return self._GetObjectRecord(
             data_type, mapped_page_number, record_identifier, data_size
         )
diff --git a/scripts/wmi_repository.py b/scripts/wmi_repository.py
index 071b778..f02f583 100755
--- a/scripts/wmi_repository.py
+++ b/scripts/wmi_repository.py
@@ -23,7 +23,7 @@ def PrintInstance(instance):
     dynasty = instance.dynasty or ""
 
     if name_property:
-        relpath = f'{instance.class_name:s}.Name="{name_property:s}"'
+        relpath = f'{instance.class_name:s}.Name="{name_property!s}"'
     else:
         relpath = f"{instance.class_name:s}=@"
 
@@ -168,6 +168,9 @@ def Main():
                 if data_type == "R":
                     if options.output_mode == "debug":
                         object_record = cim_repository.GetObjectRecordByKey(key)
+                        if not object_record:
+                            continue
+
                         registration = wmi_repository.Registration(
                             debug=options.debug, output_writer=output_writer
                         )
-- 
2.43.0


From 79e5e6994d66287255bc8db758f89542721e4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:35 +0000
Subject: [PATCH 19/43] fix: leveldb and indexeddb: reject truncated and out of
 bounds values

property=C05, C06
---
 dtformats/indexeddb.py | 56 +++++++++++++++++++++---------------
 dtformats/leveldb.py   | 64 +++++++++++++++++++++++++++++++++++++-----
 2 files changed, 90 insertions(+), 30 deletions(-)

diff --git a/dtformats/indexeddb.py b/dtformats/indexeddb.py
index c12e233..f22fd96 100644
--- a/dtformats/indexeddb.py
+++ b/dtformats/indexeddb.py
@@ -1,5 +1,6 @@
 """IndexedDB database files."""
 
+from dtformats import errors
 from dtformats import leveldb
 
 
@@ -40,31 +41,37 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
 
         Returns:
           tuple[tuple[int, int, int], int]: key prefix and number of bytes read.
+
+        Raises:
+          ParseError: if the key prefix cannot be read.
         """
+        if not data:
+            raise errors.ParseError("Missing key prefix data.")
+
         byte_value = data[0]
-        bytes_read = 1
-
-        database_identifier = 0
-        object_store_identifier = 0
-        index_identifier = 0
-
-        bit_shift = 0
-        for _ in range((byte_value >> 5) + 1):
-            database_identifier |= data[bytes_read] << bit_shift
-            bytes_read += 1
-            bit_shift += 8
-
-        bit_shift = 0
-        for _ in range(((byte_value & 0x1F) >> 2) + 1):
-            object_store_identifier |= data[bytes_read] << bit_shift
-            bytes_read += 1
-            bit_shift += 8
-
-        bit_shift = 0
-        for _ in range((byte_value & 0x03) + 1):
-            index_identifier |= data[bytes_read] << bit_shift
-            bytes_read += 1
-            bit_shift += 8
+
+        database_identifier_size = (byte_value >> 5) + 1
+        object_store_identifier_size = ((byte_value & 0x1F) >> 2) + 1
+        index_identifier_size = (byte_value & 0x03) + 1
+
+        object_store_identifier_offset = 1 + database_identifier_size
+        index_identifier_offset = (
+            object_store_identifier_offset + object_store_identifier_size
+        )
+        bytes_read = index_identifier_offset + index_identifier_size
+
+        if bytes_read > len(data):
+            raise errors.ParseError("Key prefix data too small.")
+
+        database_identifier = int.from_bytes(
+            data[1:object_store_identifier_offset], "little"
+        )
+        object_store_identifier = int.from_bytes(
+            data[object_store_identifier_offset:index_identifier_offset], "little"
+        )
+        index_identifier = int.from_bytes(
+            data[index_identifier_offset:bytes_read], "little"
+        )
 
         key_prefix = (database_identifier, object_store_identifier, index_identifier)
 
@@ -87,6 +94,9 @@ class IndexedDBDatabaseTableFile(leveldb.LevelDBDatabaseTableFile):
             key_segments = [f"{value:d}" for value in key_prefix]
 
             if key_prefix == (0, 0, 0):
+                if bytes_read >= len(table_entry.key):
+                    raise errors.ParseError("Missing metadata type in key data.")
+
                 metadata_type = int(table_entry.key[bytes_read])
                 bytes_read += 1
 
diff --git a/dtformats/leveldb.py b/dtformats/leveldb.py
index 4ba5e17..9feeb95 100644
--- a/dtformats/leveldb.py
+++ b/dtformats/leveldb.py
@@ -84,8 +84,13 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the integer cannot be read.
         """
         data_size = len(data)
+        if data_size == 0:
+            raise errors.ParseError("Missing variable size integer data.")
 
         byte_value = data[0]
         bytes_read = 1
@@ -93,14 +98,18 @@ class LevelDBDatabaseFile(data_format.BinaryDataFile):
 
         integer_value = int(byte_value) & 0x7F
 
-        while bytes_read < data_size and byte_value & 0x80:
+        while byte_value & 0x80:
+            if bytes_read >= data_size:
+                raise errors.ParseError("Variable size integer data too small.")
+
             byte_value = data[bytes_read]
             bytes_read += 1
             bit_shift += 7
 
-            integer_value |= (int(byte_value) & 0x7F) << bit_shift
+            if bit_shift > 63:
+                raise errors.ParseError("Variable size integer too large.")
 
-            # TODO: check maximum size
+            integer_value |= (int(byte_value) & 0x7F) << bit_shift
 
         return integer_value, bytes_read
 
@@ -160,6 +169,8 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
             value_string, _ = self._FormatIntegerAsDecimal(file_offset)
             self._DebugPrintValue("Offset", value_string)
 
+        data_size = min(data_size, len(data))
+
         value_header, data_offset = self._ReadRecordValueHeader(file_offset, data)
 
         while data_offset < data_size:
@@ -226,6 +237,9 @@ class LevelDBDatabaseLogFile(LevelDBDatabaseFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(f"{description:s} size value out of bounds.")
+
         value_data = data[bytes_read : bytes_read + data_size]
 
         if self._debug:
@@ -424,9 +438,17 @@ class LevelDBDatabaseDescriptorFile(LevelDBDatabaseLogFile):
         """
         data_size, bytes_read = self._ReadVariableSizeInteger(data)
 
+        if data_size > len(data) - bytes_read:
+            raise errors.ParseError(f"{description:s} string size value out of bounds.")
+
         string_data = data[bytes_read : bytes_read + data_size]
 
-        string_value = string_data.decode("utf-8")
+        try:
+            string_value = string_data.decode("utf-8")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode {description:s} string with error: {exception!s}"
+            )
 
         if self._debug:
             value_string, _ = self._FormatIntegerAsDecimal(data_size)
@@ -499,10 +521,20 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
             )
 
         if block_trailer.compression_type == 1:
-            block_data = snappy.decompress(block_data)
+            try:
+                block_data = snappy.decompress(block_data)
+            except snappy.UncompressError as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress block data with error: {exception!s}"
+                )
 
         elif block_trailer.compression_type == 2:
-            block_data = zstd.decompress(block_data)
+            try:
+                block_data = zstd.decompress(block_data)
+            except zstd.Error as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress block data with error: {exception!s}"
+                )
 
         return block_data
 
@@ -683,6 +715,11 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
         table_data_end_offset -= 4 * number_of_restart_values
 
+        if table_data_end_offset < 0:
+            raise errors.ParseError(
+                f"Number of restart values: {number_of_restart_values:d} out of bounds."
+            )
+
         context = dtfabric_data_maps.DataTypeMapContext(
             values={"number_of_elements": number_of_restart_values}
         )
@@ -692,7 +729,10 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
                 table_data[table_data_end_offset:], context=context
             )
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 (
                     f"Unable to parse array of 32-bit restart values with error: "
@@ -749,6 +789,16 @@ class LevelDBDatabaseTableFile(LevelDBDatabaseFile):
             key_data_size = non_shared_key_data_size
 
             key_data_end_offset = data_offset + key_data_size
+            if key_data_end_offset + value_data_size > table_data_end_offset:
+                raise errors.ParseError(
+                    f"Entry: {entry_index:d} key or value data size out of bounds."
+                )
+
+            if shared_key_data_size > len(shared_key_data):
+                raise errors.ParseError(
+                    f"Entry: {entry_index:d} shared key data size out of bounds."
+                )
+
             key_data = table_data[data_offset:key_data_end_offset]
 
             if self._debug:
-- 
2.43.0


From 16f24e38b7d64a4ef55f2de35e74551d863dfcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:45 +0000
Subject: [PATCH 20/43] fix: wemf: check the signature and read record data in
 both modes

property=C04, C05, C06, C07, C12
---
 dtformats/wemf.py | 72 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/dtformats/wemf.py b/dtformats/wemf.py
index 726ff64..5467857 100644
--- a/dtformats/wemf.py
+++ b/dtformats/wemf.py
@@ -53,6 +53,8 @@ class EMFFile(data_format.BinaryDataFile):
         0x0025: _FABRIC.CreateDataTypeMap("emf_selectobject"),
     }
 
+    _EMF_SIGNATURE = 0x464D4520
+
     _EMF_STOCK_OBJECT = _FABRIC.CreateDataTypeMap("emf_stock_object")
 
     def _DebugPrintFileHeader(self, file_header):
@@ -131,9 +133,17 @@ class EMFFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintFileHeader(file_header)
 
-        # TODO: check record type
+        if file_header.record_type != 1:
+            raise errors.ParseError(
+                f"Unsupported record type: 0x{file_header.record_type:08x}"
+            )
+
         # TODO: check record size
-        # TODO: check signature
+
+        if file_header.signature != self._EMF_SIGNATURE:
+            raise errors.ParseError(
+                f"Unsupported signature: 0x{file_header.signature:08x}"
+            )
 
     def _ReadRecord(self, file_object, file_offset):
         """Reads a record.
@@ -151,34 +161,46 @@ class EMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("emf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
         if self._debug:
             self._DebugPrintRecordHeader(record_header)
 
-        data_size = record_header.record_size - (data_offset - file_offset)
+        data_offset = file_offset + header_size
+        data_size = record_header.record_size - header_size
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_header.record_size:d} at offset: "
+                f"0x{file_offset:08x}"
+            )
+
+        self._ReadRecordData(
+            file_object, data_offset, record_header.record_type, data_size
+        )
 
         return Record(
             record_header.record_type, record_header.record_size, data_offset, data_size
         )
 
-    def _ReadRecordData(self, file_object, record_type, data_size):
+    def _ReadRecordData(self, file_object, file_offset, record_type, data_size):
         """Reads a record.
 
         Args:
           file_object (file): file-like object.
+          file_offset (int): offset of the record data relative to the start of
+              the file-like object.
           record_type (int): record type.
           data_size (int): size of the record data.
 
         Raises:
           ParseError: if the record data cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, file_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -190,7 +212,10 @@ class EMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
@@ -704,7 +729,7 @@ class WMFFile(data_format.BinaryDataFile):
         """
         data_type_map = self._GetDataTypeMap("wmf_record_header")
 
-        record_header, data_offset = self._ReadStructureFromFileObject(
+        record_header, header_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "record header"
         )
 
@@ -713,25 +738,37 @@ class WMFFile(data_format.BinaryDataFile):
 
         record_size = record_header.record_size * 2
 
-        data_size = record_size - (data_offset - file_offset)
+        data_offset = file_offset + header_size
+        data_size = record_size - header_size
 
-        if self._debug:
-            self._ReadRecordData(file_object, record_header.record_type, data_size)
+        if data_size < 0:
+            raise errors.ParseError(
+                f"Unsupported record size: {record_size:d} at offset: "
+                f"0x{file_offset:08x}"
+            )
+
+        self._ReadRecordData(
+            file_object, data_offset, record_header.record_type, data_size
+        )
 
         return Record(record_header.record_type, record_size, data_offset, data_size)
 
-    def _ReadRecordData(self, file_object, record_type, data_size):
+    def _ReadRecordData(self, file_object, file_offset, record_type, data_size):
         """Reads a record.
 
         Args:
           file_object (file): file-like object.
+          file_offset (int): offset of the record data relative to the start of
+              the file-like object.
           record_type (int): record type.
           data_size (int): size of the record data.
 
         Raises:
           ParseError: if the record cannot be read.
         """
-        record_data = file_object.read(data_size)
+        record_data = self._ReadData(
+            file_object, file_offset, data_size, "record data"
+        )
 
         if self._debug and data_size > 0:
             self._DebugPrintData("Record data", record_data)
@@ -743,7 +780,10 @@ class WMFFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(record_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse record data with error: {exception!s}"
             )
-- 
2.43.0


From e049c64123bb7f24c5f9559300d6a3271ae5f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:51 +0000
Subject: [PATCH 21/43] fix: jump_list: read the category footer at its offset

property=C05
---
 dtformats/jump_list.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 575ba62..0adc9f9 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -3,8 +3,6 @@
 * .customDestinations-ms
 """
 
-import os
-
 import pylnk
 import pyolecf
 
@@ -295,16 +293,17 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
         category_type_string = self._CATEGORY_TYPES.get(integer, "UNKNOWN")
         return f"{integer:d} ({category_type_string:s})"
 
-    def _ReadCategoryFooter(self, file_object):
+    def _ReadCategoryFooter(self, file_object, file_offset):
         """Reads the category footer.
 
         Args:
           file_object (file): file-like object.
+          file_offset (int): offset of the category footer relative to the start of
+              the file.
 
         Raises:
           ParseError: if the category footer cannot be read.
         """
-        file_offset = file_object.tell()
         data_type_map = self._GetDataTypeMap("custom_category_footer")
 
         category_footer, _ = self._ReadStructureFromFileObject(
@@ -510,9 +509,7 @@ class CustomDestinationsFile(data_format.BinaryDataFile):
                         f"0x{file_offset:08x}"
                     )
 
-                file_object.seek(file_offset, os.SEEK_SET)
-
-            self._ReadCategoryFooter(file_object)
+            self._ReadCategoryFooter(file_object, file_offset)
 
             file_offset += 4
 
-- 
2.43.0


From a8bf3f0826ccf524e4a1461324a5d73eee02e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:56 +0000
Subject: [PATCH 22/43] fix: yaml_definitions_file: report undefined keys in a
 fixed order

property=C09
---
 dtformats/yaml_definitions_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/yaml_definitions_file.py b/dtformats/yaml_definitions_file.py
index f5fd75e..9760a14 100644
--- a/dtformats/yaml_definitions_file.py
+++ b/dtformats/yaml_definitions_file.py
@@ -98,7 +98,7 @@ class YAMLDebugDefinitionsFile:
 
         different_keys = set(definition_values) - self._SUPPORTED_KEYS
         if different_keys:
-            different_keys = ", ".join(different_keys)
+            different_keys = ", ".join(sorted(different_keys))
             raise errors.ParseError(f"Undefined keys: {different_keys:s}")
 
         data_type_map = definition_values.get("data_type_map")
-- 
2.43.0


From 32832f5e8d3982a83f0797e3290f58cd3bd48db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:01 +0000
Subject: [PATCH 23/43] fix: recycler, safari_cookies, utmp: debug information
 of invalid values

property=C04
---
 dtformats/recycler.py       | 10 +---------
 dtformats/safari_cookies.py | 31 +++++++++++++++++++------------
 dtformats/utmp.py           | 12 ++++++------
 3 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/dtformats/recycler.py b/dtformats/recycler.py
index 8bb6783..faf7bf8 100644
--- a/dtformats/recycler.py
+++ b/dtformats/recycler.py
@@ -38,16 +38,8 @@ class RecyclerInfo2File(data_format.BinaryDataFile):
 
         Returns:
           str: formatted ANSI string.
-
-        Raises:
-          ParseError: if the string could not be decoded.
         """
-        try:
-            return string.decode(self._codepage)
-        except UnicodeDecodeError as exception:
-            raise errors.ParseError(
-                f"Unable to decode ANSI string with error: {exception!s}."
-            )
+        return string.decode(self._codepage, errors="backslashreplace")
 
     def _ReadFileEntry(self, file_object):
         """Reads the file entry.
diff --git a/dtformats/safari_cookies.py b/dtformats/safari_cookies.py
index 96fdb22..72501f2 100644
--- a/dtformats/safari_cookies.py
+++ b/dtformats/safari_cookies.py
@@ -53,20 +53,27 @@ class BinaryCookiesFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Value offset", f"{record_header.value_offset:d}")
         self._DebugPrintValue("Unknown3", f"0x{record_header.unknown3:08x}")
 
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.expiration_time)
-        )
-        self._DebugPrintValue(
-            "Expiration time", f"{date_time!s} ({record_header.expiration_time:f})"
-        )
-        date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
-            seconds=int(record_header.creation_time)
-        )
-        self._DebugPrintValue(
-            "Creation time", f"{date_time!s} ({record_header.creation_time:f})"
-        )
+        self._DebugPrintTimeValue("Expiration time", record_header.expiration_time)
+        self._DebugPrintTimeValue("Creation time", record_header.creation_time)
         self._DebugPrintText("\n")
 
+    def _DebugPrintTimeValue(self, description, timestamp):
+        """Prints a timestamp value for debugging.
+
+        Args:
+          description (str): description.
+          timestamp (float): number of seconds since January 1, 2001.
+        """
+        try:
+            date_time = datetime.datetime(2001, 1, 1) + datetime.timedelta(
+                seconds=int(timestamp)
+            )
+            date_time_string = f"{date_time!s}"
+        except (OverflowError, ValueError):
+            date_time_string = "Invalid"
+
+        self._DebugPrintValue(description, f"{date_time_string:s} ({timestamp:f})")
+
     def _ReadCString(self, page_data, string_offset):
         """Reads a string from the page data.
 
diff --git a/dtformats/utmp.py b/dtformats/utmp.py
index 311b1ca..fa6b9e4 100644
--- a/dtformats/utmp.py
+++ b/dtformats/utmp.py
@@ -40,17 +40,17 @@ class LinuxLibc6UtmpFile(data_format.BinaryDataFile):
         self._DebugPrintValue("PID", f"{entry.pid:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = value_string.decode("utf-8", errors="backslashreplace")
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = value_string.decode("utf-8", errors="backslashreplace")
         self._DebugPrintValue("Username", value_string)
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = value_string.decode("utf-8", errors="backslashreplace")
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintValue("Termination status", f"0x{entry.termination_status:04x}")
@@ -150,13 +150,13 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
           entry (macosx_utmpx_entry): entry.
         """
         value_string = entry.username.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = value_string.decode("utf-8", errors="backslashreplace")
         self._DebugPrintValue("Username", value_string)
 
         self._DebugPrintValue("Terminal ID", f"{entry.terminal_identifier:d}")
 
         value_string = entry.terminal.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = value_string.decode("utf-8", errors="backslashreplace")
         self._DebugPrintValue("Terminal", value_string)
 
         self._DebugPrintValue("PID", f"{entry.pid:d}")
@@ -173,7 +173,7 @@ class MacOSXUtmpxFile(data_format.BinaryDataFile):
         self._DebugPrintValue("Microseconds", f"{entry.microseconds:d}")
 
         value_string = entry.hostname.replace(b"\0", b"")
-        value_string = value_string.decode("utf-8")
+        value_string = value_string.decode("utf-8", errors="backslashreplace")
         self._DebugPrintValue("Hostname", value_string)
 
         self._DebugPrintData("Unknown2", entry.unknown2)
-- 
2.43.0


From 1f32268378d67bb8b57747239ee845a65a0f9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 24/43] fix: keychain: reject truncated records and values out
 of bounds

property=C04, C05, C06
---
 dtformats/keychain.py | 113 +++++++++++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 40 deletions(-)

diff --git a/dtformats/keychain.py b/dtformats/keychain.py
index 4ccfadf..a149cf9 100644
--- a/dtformats/keychain.py
+++ b/dtformats/keychain.py
@@ -158,7 +158,8 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if integer is None:
             return "NULL"
 
-        return self._FormatIntegerAsHexadecimal8(integer)
+        value_string, _ = self._FormatIntegerAsHexadecimal8(integer)
+        return value_string
 
     def _FormatIntegerAsRecordType(self, integer):
         """Formats an integer as a record type.
@@ -183,7 +184,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         lines = []
         for index, table_offset in enumerate(array_of_integers):
-            value_string = self._FormatIntegerAsHexadecimal8(table_offset)
+            value_string, _ = self._FormatIntegerAsHexadecimal8(table_offset)
             line = self._FormatValue(f"Table offset: {index:d}", value_string)
             lines.append(line)
 
@@ -419,7 +420,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             record_data_offset = file_offset - record_offset
             record_data_size = record_header.data_size
-            record_data = file_object.read(record_data_size - record_data_offset)
+            record_data = self._ReadData(
+                file_object,
+                file_offset,
+                record_data_size - record_data_offset,
+                "record data",
+            )
 
             if self._debug:
                 if record_header.key_data_size > 0:
@@ -431,27 +437,23 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                     "Attribute values data", record_data[record_header.key_data_size :]
                 )
 
-                data_offsets = [
-                    offset - record_data_offset - 1
-                    for offset in sorted(attribute_value_offsets)
-                    if offset > record_data_offset
-                ]
-                data_offsets.append(record_data_size - record_data_offset)
-                data_offsets.pop(0)
-
-            for index, column in enumerate(table.columns):
+            for index, (column, value_offset) in enumerate(
+                zip(table.columns, attribute_value_offsets)
+            ):
                 if self._debug:
-                    if attribute_value_offsets[index] == 0:
+                    if value_offset == 0:
                         attribute_value_offset = 0
                         attribute_value_end_offset = 0
                     else:
-                        attribute_value_offset = (
-                            attribute_value_offsets[index] - record_data_offset - 1
+                        attribute_value_offset = value_offset - record_data_offset - 1
+                        attribute_value_end_offset = min(
+                            [
+                                offset - record_data_offset - 1
+                                for offset in attribute_value_offsets
+                                if offset > value_offset
+                            ],
+                            default=record_data_size - record_data_offset,
                         )
-                        attribute_value_end_offset = data_offsets[0]
-                        while attribute_value_end_offset <= attribute_value_offset:
-                            data_offsets.pop(0)
-                            attribute_value_end_offset = data_offsets[0]
 
                     description = (
                         f"Attribute value: {index:d} ({column.attribute_name:s}) data"
@@ -477,7 +479,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
                         record_data,
                         record_offset,
                         record_data_offset,
-                        attribute_value_offsets[index],
+                        value_offset,
                         column.attribute_name,
                     )
 
@@ -504,7 +506,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         """
         offsets_data_size = number_of_attribute_values * 4
 
-        offsets_data = file_object.read(offsets_data_size)
+        offsets_data = self._ReadData(
+            file_object,
+            file_offset,
+            offsets_data_size,
+            "record attribute value offsets",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute value offsets data", offsets_data)
@@ -525,7 +532,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
         if self._debug:
             for index, attribute_value_offset in enumerate(attribute_value_offsets):
-                value_string = self._FormatIntegerAsHexadecimal8(attribute_value_offset)
+                value_string, _ = self._FormatIntegerAsHexadecimal8(
+                    attribute_value_offset
+                )
                 self._DebugPrintValue(
                     f"Attribute value offset: {index:d}", value_string
                 )
@@ -583,7 +592,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         attribute_values_data_size = record_header.data_size - (
             file_offset - record_offset
         )
-        attribute_values_data = file_object.read(attribute_values_data_size)
+        attribute_values_data = self._ReadData(
+            file_object,
+            file_offset,
+            attribute_values_data_size,
+            "attribute values data",
+        )
 
         if self._debug:
             self._DebugPrintData("Attribute values data", attribute_values_data)
@@ -672,6 +686,9 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
         if self._debug:
             self._DebugPrintText("\n")
 
+        if relation_identifier is None:
+            raise errors.ParseError("Missing relation identifier.")
+
         table = tables.get(relation_identifier)
         if not table:
             raise errors.ParseError(
@@ -685,7 +702,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             attribute_name = attribute_values_data[
                 attribute_value_offset : attribute_value_offset + 4
             ]
-            attribute_name = attribute_name.decode("ascii")
+            try:
+                attribute_name = attribute_name.decode("ascii")
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode attribute name with error: {exception!s}"
+                )
 
         column = KeychainDatabaseColumn()
         column.attribute_data_type = attribute_data_type
@@ -744,16 +766,19 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(record_values, debug_info)
 
-        if self._debug:
-            file_offset = file_object.tell()
-            trailing_data_size = record_header.data_size - (file_offset - record_offset)
+        file_offset = file_object.tell()
+        trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
-                self._DebugPrintText("\n")
-            else:
-                trailing_data = file_object.read(trailing_data_size)
+        if trailing_data_size > 0:
+            trailing_data = self._ReadData(
+                file_object, file_offset, trailing_data_size, "record trailing data"
+            )
+            if self._debug:
                 self._DebugPrintData("Record trailing data", trailing_data)
 
+        elif self._debug:
+            self._DebugPrintText("\n")
+
         if record_values.relation_identifier not in tables:
             raise errors.ParseError(
                 "CSSM_DL_DB_SCHEMA_INDEXES defines relation identifier not defined "
@@ -804,7 +829,12 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_object, file_offset, data_type_map, "schema information record values"
         )
 
-        relation_name = record_values.relation_name.decode("ascii")
+        try:
+            relation_name = record_values.relation_name.decode("ascii")
+        except UnicodeDecodeError as exception:
+            raise errors.ParseError(
+                f"Unable to decode relation name with error: {exception!s}"
+            )
 
         if self._debug:
             self._DebugPrintValue(
@@ -817,16 +847,19 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
 
             self._DebugPrintValue("Relation name", relation_name)
 
-        if self._debug:
-            file_offset = file_object.tell()
-            trailing_data_size = record_header.data_size - (file_offset - record_offset)
+        file_offset = file_object.tell()
+        trailing_data_size = record_header.data_size - (file_offset - record_offset)
 
-            if trailing_data_size == 0:
-                self._DebugPrintText("\n")
-            else:
-                trailing_data = file_object.read(trailing_data_size)
+        if trailing_data_size > 0:
+            trailing_data = self._ReadData(
+                file_object, file_offset, trailing_data_size, "record trailing data"
+            )
+            if self._debug:
                 self._DebugPrintData("Record trailing data", trailing_data)
 
+        elif self._debug:
+            self._DebugPrintText("\n")
+
         table = KeychainDatabaseTable()
         table.relation_identifier = record_values.relation_identifier
         table.relation_name = relation_name
@@ -885,7 +918,7 @@ class KeychainDatabaseFile(data_format.BinaryDataFile):
             file_offset = file_object.tell()
             trailing_data_size = table_header.data_size - (file_offset - table_offset)
 
-            if trailing_data_size != 0:
+            if trailing_data_size > 0:
                 trailing_data = file_object.read(trailing_data_size)
                 self._DebugPrintData("Table trailing data", trailing_data)
 
-- 
2.43.0


From 5d3c4b932355f76af4d56f996b5d0b0d36599c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:27 +0000
Subject: [PATCH 25/43] fix: spotlight_storedb: reject truncated and
 inconsistent data

property=C05, C06, C07, C04, C14 truncated reads, unchecked mappings and sequences, page cycles and unbound names raised other errors or looped
---
 dtformats/spotlight_storedb.py | 286 +++++++++++++++++++++++++--------
 scripts/spotlight_storedb.py   |  28 +++-
 2 files changed, 236 insertions(+), 78 deletions(-)

diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 657103e..03d8f92 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -174,9 +174,16 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError(
+                "Unable to read variable size integer missing data"
+            )
+
         byte_value = data[0]
-        bytes_read = 1
 
         number_of_additional_bytes = 0
         for bitmask in (0x80, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF):
@@ -189,16 +196,15 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Unable to read variable size integer too small")
+
         integer_value = int(byte_value)
-        while number_of_additional_bytes > 0:
+        for byte_value in data[1 : 1 + number_of_additional_bytes]:
             integer_value <<= 8
+            integer_value += byte_value
 
-            integer_value += int(data[bytes_read])
-            bytes_read += 1
-
-            number_of_additional_bytes -= 1
-
-        return integer_value, bytes_read
+        return integer_value, 1 + number_of_additional_bytes
 
     def ReadFileObject(self, file_object):
         """Reads a database streams map data file-like object.
@@ -209,7 +215,9 @@ class SpotlightStreamsMapDataFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the file cannot be read.
         """
-        data = file_object.read(self._data_size)
+        data = self._ReadData(
+            file_object, 0, self._data_size, "streams map data"
+        )
 
         for index, value_range in enumerate(self._ranges):
             value_offset, value_size = value_range
@@ -351,7 +359,9 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
           ParseError: if the file cannot be read.
         """
         data_size = self._number_of_entries * 4
-        data = file_object.read(data_size)
+        data = self._ReadData(
+            file_object, 0, data_size, "array of 32-bit offsets"
+        )
 
         data_type_map = self._GetDataTypeMap("array_of_uint32le")
 
@@ -361,7 +371,10 @@ class SpotlightStreamsMapOffsetsFile(data_format.BinaryDataFile):
         try:
             offsets_array = data_type_map.MapByteStream(data, context=context)
 
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit offsets with error: {exception!s}"
             )
@@ -454,11 +467,16 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             date_time_string = "Not set (0)"
         else:
             date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
-            date_time_string = date_time.CopyToDateTimeString()
+
+            try:
+                date_time_string = date_time.CopyToDateTimeString()
+            except (OverflowError, ValueError):
+                date_time_string = None
+
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
             else:
-                date_time_string = f"0x{value:08x}"
+                date_time_string = f"{value:f}"
 
         self._DebugPrintValue(description, date_time_string)
 
@@ -595,7 +613,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             lz4_block_header = data_type_map.MapByteStream(compressed_data)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map LZ4 block header at offset: 0x{file_offset:08x} "
                 f"with error: {exception!s}"
@@ -610,11 +631,22 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
 
-            uncompressed_data = lz4.block.decompress(
-                compressed_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-                dict=previous_uncompressed_data,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    compressed_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                    dict=previous_uncompressed_data,
+                )
+            except (
+                lz4.block.LZ4BlockError,
+                MemoryError,
+                OverflowError,
+                ValueError,
+            ) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: "
+                    f"0x{file_offset:08x} with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -645,6 +677,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         compressed_data_size = len(compressed_page_data)
 
         last_uncompressed_block = None
+        lz4_block_marker = None
 
         uncompressed_blocks = []
         while compressed_data_offset < compressed_data_size:
@@ -732,7 +765,8 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             )
             self._DebugPrintStructureObject(file_header, debug_info)
 
-        if self._debug:
+        if self._debug and file_header.map_offset > file_header_size:
+            file_object.seek(file_header_size, os.SEEK_SET)
             trailing_data = file_object.read(file_header.map_offset - file_header_size)
             self._DebugPrintData("Trailing data", trailing_data)
 
@@ -764,7 +798,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:]
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -787,7 +824,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     page_data[page_data_offset + page_value_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 page_data_offset += page_value_size
                 raise errors.ParseError(
                     f"Unable to parse index data at offset: 0x{page_data_offset:08x} "
@@ -880,7 +920,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 index_values = index_values_data_type_map.MapByteStream(
                     stream_value[data_offset + padding_size :], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -945,7 +988,7 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         self._ReadMapPageValues(page_header, file_object, file_offset)
 
-        if self._debug:
+        if self._debug and page_header.page_size > page_header_size:
             page_data = file_object.read(page_header.page_size - page_header_size)
             self._DebugPrintData("Page data", page_data)
 
@@ -967,6 +1010,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         while map_offset < map_end_offset:
             page_header = self._ReadMapPage(file_object, map_offset)
 
+            if page_header.page_size == 0:
+                raise errors.ParseError(
+                    f"Invalid map page size value out of bounds at offset: "
+                    f"0x{map_offset:08x}"
+                )
+
             map_offset += page_header.page_size
 
     def _ReadMapPageValues(self, page_header, file_object, file_offset):
@@ -1111,12 +1160,18 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of byte values with error: {exception!s}"
             )
 
         if bytes_read == 0:
+            if not array_of_values:
+                raise errors.ParseError("Missing byte value")
+
             value = array_of_values[0]
         else:
             value = array_of_values
@@ -1156,13 +1211,19 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 32-bit floating-point values with error: "
                 f"{exception!s}"
             )
 
         if bytes_read == 0:
+            if not array_of_values:
+                raise errors.ParseError("Missing 32-bit floating-point value")
+
             value = array_of_values[0]
         else:
             value = array_of_values
@@ -1202,13 +1263,19 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of 64-bit floating-point values with error: "
                 f"{exception!s}"
             )
 
         if bytes_read == 0:
+            if not array_of_values:
+                raise errors.ParseError("Missing 64-bit floating-point value")
+
             value = array_of_values[0]
         else:
             value = array_of_values
@@ -1248,6 +1315,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                     "spotlight_metadata_attribute_value", None
                 )
 
+        else:
+            raise errors.ParseError(
+                f"Unsupported property table type: "
+                f"0x{page_header.property_table_type:08x}"
+            )
+
         page_data_offset = 12
         page_data_size = page_header.used_page_size - 20
         page_value_index = 0
@@ -1259,7 +1332,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 property_value = data_type_map.MapByteStream(
                     page_data[page_data_offset:], context=context
                 )
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map property value data at offset: "
                     f"0x{page_data_offset:08x} with error: {exception!s}"
@@ -1357,6 +1433,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                     "spotlight_metadata_attribute_value", None
                 )
 
+        else:
+            raise errors.ParseError(
+                f"Unsupported streams map: {streams_map_number:d}"
+            )
+
         for index, stream_value in enumerate(stream_values):
             if self._debug:
                 self._DebugPrintData(f"Stream value: {index:d} data", stream_value)
@@ -1376,7 +1457,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
             try:
                 property_value = data_type_map.MapByteStream(stream_value[data_offset:])
-            except dtfabric_errors.MappingError as exception:
+            except (
+                dtfabric_errors.ByteStreamTooSmallError,
+                dtfabric_errors.MappingError,
+            ) as exception:
                 raise errors.ParseError(
                     f"Unable to map stream value: {index:d} data with error: "
                     f"{exception!s}"
@@ -1417,19 +1501,23 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             array_of_values = data_type_map.MapByteStream(
                 data[bytes_read : bytes_read + data_size], context=context
             )
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to parse array of string values with error: {exception!s}"
             )
 
-        if property_type & 0x03 == 0x03:
-            value = array_of_values[0]
-            if "\x16\x02" in value:
-                value = value.split("\x16\x02")[0]
-        elif property_type & 0x03 == 0x02:
+        if property_type & 0x03 == 0x02:
             value = array_of_values
         else:
+            if not array_of_values:
+                raise errors.ParseError("Missing string value")
+
             value = array_of_values[0]
+            if property_type & 0x03 == 0x03 and "\x16\x02" in value:
+                value = value.split("\x16\x02")[0]
 
         bytes_read += data_size
 
@@ -1454,17 +1542,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         array_of_values = []
 
-        data_offset = 0
-        while data_offset < data_size:
+        data_end_offset = bytes_read + data_size
+        while bytes_read < data_end_offset:
             integer_value, integer_value_size = self._ReadVariableSizeInteger(
-                data[data_offset:data_size]
+                data[bytes_read:data_end_offset]
             )
-            data_offset += integer_value_size
+            bytes_read += integer_value_size
 
             array_of_values.append(integer_value)
 
-        bytes_read += data_size
-
         return array_of_values, bytes_read
 
     def _ReadPropertyPage(self, file_object, file_offset, property_table):
@@ -1496,12 +1582,18 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
+        file_offset += bytes_read
+
+        page_data = self._ReadData(
+            file_object,
+            file_offset,
+            page_header.page_size - bytes_read,
+            "property page data",
+        )
 
         data_type_map = self._GetDataTypeMap(
             "spotlight_store_db_property_values_header"
         )
-        file_offset += bytes_read
 
         page_values_header = self._ReadStructureFromByteStream(
             page_data, file_offset, data_type_map, "property values header"
@@ -1544,6 +1636,12 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         page_header, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "property page header"
         )
+        if page_header.page_size < bytes_read:
+            raise errors.ParseError(
+                f"Invalid property page size value out of bounds at offset: "
+                f"0x{file_offset:08x}"
+            )
+
         if self._debug:
             block_number = file_offset // 0x1000
             self._DebugPrintDecimalValue("Block number", block_number)
@@ -1572,8 +1670,17 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         Raises:
           ParseError: if the property pages cannot be read.
         """
+        read_file_offsets = set()
+
         file_offset = block_number * 0x1000
         while file_offset != 0:
+            if file_offset in read_file_offsets:
+                raise errors.ParseError(
+                    f"Property page at offset: 0x{file_offset:08x} already read"
+                )
+
+            read_file_offsets.add(file_offset)
+
             _, next_block_number = self._ReadPropertyPage(
                 file_object, file_offset, property_table
             )
@@ -1647,6 +1754,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 metadata_type, page_data[page_data_offset:record_data_end_offset]
             )
 
+            if not metadata_attribute:
+                raise errors.ParseError(
+                    f"Missing metadata type: {metadata_type_index:d}"
+                )
+
             page_data_offset += bytes_read
             record_data_offset += bytes_read
 
@@ -1676,7 +1788,10 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         try:
             record = data_type_map.MapByteStream(data, context=context)
-        except dtfabric_errors.MappingError as exception:
+        except (
+            dtfabric_errors.ByteStreamTooSmallError,
+            dtfabric_errors.MappingError,
+        ) as exception:
             raise errors.ParseError(
                 f"Unable to map record at offset: 0x{page_data_offset:08x} with "
                 f"error: {exception!s}"
@@ -1688,6 +1803,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         data_offset += bytes_read
 
+        if data_offset >= len(data):
+            raise errors.ParseError(
+                f"Unable to read flags of record at offset: 0x{page_data_offset:08x}"
+            )
+
         flags = data[data_offset]
 
         data_offset += 1
@@ -1738,10 +1858,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                 f"0x{page_header.property_table_type:08x}"
             )
 
-        page_data = file_object.read(page_header.page_size - bytes_read)
-
         file_offset += bytes_read
 
+        page_data = self._ReadData(
+            file_object,
+            file_offset,
+            page_header.page_size - bytes_read,
+            "record page data",
+        )
+
         if page_header.uncompressed_page_size > 0:
             compressed_page_data = page_data
 
@@ -1752,8 +1877,14 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
                     compressed_page_data, file_offset
                 )
 
-            elif compressed_page_data[0] == 0x78:
-                page_data = zlib.decompress(compressed_page_data)
+            elif compressed_page_data[0:1] == b"\x78":
+                try:
+                    page_data = zlib.decompress(compressed_page_data)
+                except zlib.error as exception:
+                    raise errors.ParseError(
+                        f"Unable to decompress record page at offset: "
+                        f"0x{file_offset:08x} with error: {exception!s}"
+                    )
 
             # TODO: add support for other compression types.
             else:
@@ -1846,11 +1977,11 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
           ParseError: if the streams map cannot be read.
         """
         path = os.path.abspath(self._path)
-        path_segments = self._file_system_helper.SplitPath(path)
+        path_segments = self._file_system_helper.SplitPath(path)[:-1]
 
-        path_segments.pop(-1)
-        path_segments.append(f"dbStr-{streams_map_number:d}.map.header")
-        header_file_path = self._file_system_helper.JoinPath(path_segments)
+        header_file_path = self._file_system_helper.JoinPath(
+            path_segments + [f"dbStr-{streams_map_number:d}.map.header"]
+        )
 
         streams_map_header = SpotlightStreamsMapHeaderFile(
             file_system_helper=self._file_system_helper
@@ -1863,9 +1994,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         streams_map_header.Close()
 
-        path_segments.pop(-1)
-        path_segments.append(f"dbStr-{streams_map_number:d}.map.offsets")
-        offsets_file_path = self._file_system_helper.JoinPath(path_segments)
+        offsets_file_path = self._file_system_helper.JoinPath(
+            path_segments + [f"dbStr-{streams_map_number:d}.map.offsets"]
+        )
 
         streams_map_offsets = SpotlightStreamsMapOffsetsFile(
             data_size, number_of_offsets, file_system_helper=self._file_system_helper
@@ -1876,9 +2007,9 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         streams_map_offsets.Close()
 
-        path_segments.pop(-1)
-        path_segments.append(f"dbStr-{streams_map_number:d}.map.data")
-        data_file_path = self._file_system_helper.JoinPath(path_segments)
+        data_file_path = self._file_system_helper.JoinPath(
+            path_segments + [f"dbStr-{streams_map_number:d}.map.data"]
+        )
 
         streams_map_data = SpotlightStreamsMapDataFile(
             data_size, ranges, file_system_helper=self._file_system_helper
@@ -1899,9 +2030,16 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
 
         Returns:
           tuple[int, int]: integer value and number of bytes read.
+
+        Raises:
+          ParseError: if the variable size integer cannot be read.
         """
+        if not data:
+            raise errors.ParseError(
+                "Unable to read variable size integer missing data"
+            )
+
         byte_value = data[0]
-        bytes_read = 1
 
         number_of_additional_bytes = 0
         for bitmask in (0x80, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC, 0xFE, 0xFF):
@@ -1914,16 +2052,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         elif number_of_additional_bytes > 0:
             byte_value &= bitmask ^ 0xFF
 
+        if number_of_additional_bytes >= len(data):
+            raise errors.ParseError("Unable to read variable size integer too small")
+
         integer_value = int(byte_value)
-        while number_of_additional_bytes > 0:
+        for byte_value in data[1 : 1 + number_of_additional_bytes]:
             integer_value <<= 8
+            integer_value += byte_value
 
-            integer_value += int(data[bytes_read])
-            bytes_read += 1
-
-            number_of_additional_bytes -= 1
-
-        return integer_value, bytes_read
+        return integer_value, 1 + number_of_additional_bytes
 
     def _ReadVariableSizeIntegers(self, data, names):
         """Reads variable size integers.
@@ -2027,9 +2164,16 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
             self._ReadRecordPageValues(page_data, file_offset)
 
         if self._debug:
-            for record_identifier in sorted(self._record_descriptors.keys()):
-                metadata_item = self._GetMetadataItemByIdentifier(
-                    file_object, record_identifier
+            for _, record_descriptor in sorted(self._record_descriptors.items()):
+                page_data = self._record_pages_cache.get(
+                    record_descriptor.page_offset, None
                 )
-            # TODO: do something with metadata_item or remove.
-            _ = metadata_item
+                if page_data:
+                    try:
+                        self._ReadRecord(
+                            page_data, record_descriptor.page_value_offset
+                        )
+                    except errors.ParseError as exception:
+                        self._DebugPrintText(
+                            f"Unable to read record with error: {exception!s}\n"
+                        )
diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index 7bdffdf..e09bd68 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -78,7 +78,15 @@ def GetDateTimeString(timestamp):
         return "YYYY-MM-DD hh:ss:mm +####"
 
     date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=timestamp)
-    iso8601_string = date_time.CopyToDateTimeStringISO8601()
+
+    try:
+        iso8601_string = date_time.CopyToDateTimeStringISO8601()
+    except (OverflowError, ValueError):
+        iso8601_string = None
+
+    if not iso8601_string:
+        return "YYYY-MM-DD hh:ss:mm +####"
+
     return "".join(
         [iso8601_string[:10], " ", iso8601_string[11:26], " ", iso8601_string[33:35]]
     )
@@ -290,13 +298,15 @@ def Main():
                 metadata_attribute = metadata_item.attributes.get(
                     "kMDStoreProperties", None
                 )
-                if metadata_attribute:
-                    properties_plist = metadata_attribute.value.decode("utf-8")
+                if metadata_attribute and isinstance(metadata_attribute.value, bytes):
+                    properties_plist = metadata_attribute.value.decode(
+                        "utf-8", errors="backslashreplace"
+                    )
 
                 metadata_attribute = metadata_item.attributes.get(
                     "_kStoreMetadataVersion", None
                 )
-                if metadata_attribute:
+                if metadata_attribute and isinstance(metadata_attribute.value, int):
                     major_version = metadata_attribute.value >> 16
                     minor_version = metadata_attribute.value & 0xFFFF
                     metadata_version = f"{major_version:d}.{minor_version:d}"
@@ -336,10 +346,14 @@ def Main():
                     if not metadata_attribute:
                         value_string = "(null)"
 
-                    elif metadata_attribute.value_type == 0x0B:
+                    elif metadata_attribute.value_type == 0x0B and isinstance(
+                        metadata_attribute.value, str
+                    ):
                         value_string = f'"{metadata_attribute.value:s}"'
 
-                    elif metadata_attribute.value_type == 0x0C:
+                    elif metadata_attribute.value_type == 0x0C and isinstance(
+                        metadata_attribute.value, float
+                    ):
                         value_string = GetDateTimeString(metadata_attribute.value)
 
                     else:
@@ -347,7 +361,7 @@ def Main():
 
                     table_view.AddRow([name, f"= {value_string:s}"])
 
-            table_view.Write(output_writer)
+                table_view.Write(output_writer)
 
         spotlight_store_database.Close()
 
-- 
2.43.0


From fdfa6aeea191bc4d9f7e6723a108192f1492c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:03 +0000
Subject: [PATCH 26/43] fix: file_system: list directory entries in a fixed
 order

property=C09 ListDirectory yielded the entries in the order of the file system
---
 dtformats/file_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dtformats/file_system.py b/dtformats/file_system.py
index e48b0ed..4906567 100644
--- a/dtformats/file_system.py
+++ b/dtformats/file_system.py
@@ -166,7 +166,7 @@ class NativeFileSystemHelper:
         Yields:
           str: name of a directory entry.
         """
-        yield from os.listdir(path)
+        yield from sorted(os.listdir(path))
 
     def OpenFileByPath(self, path):
         """Opens a specific file.
-- 
2.43.0


From 7f91c8a6ea6665412a69f6193b52e85399480123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:08 +0000
Subject: [PATCH 27/43] fix: fseventsd: reject an unsupported page signature

property=C05, C12 a page with another signature ended in an AttributeError instead of a ParseError
---
 dtformats/fseventsd.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dtformats/fseventsd.py b/dtformats/fseventsd.py
index 079f414..62de259 100644
--- a/dtformats/fseventsd.py
+++ b/dtformats/fseventsd.py
@@ -3,6 +3,7 @@
 import pygzipf
 
 from dtformats import data_format
+from dtformats import errors
 
 
 class FseventsFile(data_format.BinaryDataFile):
@@ -58,6 +59,14 @@ class FseventsFile(data_format.BinaryDataFile):
             debug_info = self._DEBUG_INFORMATION.get("dls_page_header")
             self._DebugPrintStructureObject(dls_page_header, debug_info)
 
+        if dls_page_header.signature not in (
+            self._DLS_V1_SIGNATURE,
+            self._DLS_V2_SIGNATURE,
+        ):
+            raise errors.ParseError(
+                f"Unsupported DLS page signature: {dls_page_header.signature!r}"
+            )
+
         return dls_page_header, bytes_read
 
     def _ReadDLSRecord(self, file_object, file_offset, format_version):
@@ -81,7 +90,7 @@ class FseventsFile(data_format.BinaryDataFile):
         elif format_version == 2:
             data_type_map = self._GetDataTypeMap("dls_record_v2")
         else:
-            data_type_map = None
+            raise errors.ParseError(f"Unsupported format version: {format_version!s}")
 
         dls_record, bytes_read = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "DLS record"
-- 
2.43.0


From 2811c897034cc35c1e166d0a864455144a7337e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:14 +0000
Subject: [PATCH 28/43] fix: decode_nskeyedarchiver_plist: decode every element
 of a set

property=C14 _DecodeNSSet returned the last element of the set, unbound for an empty set; values of an unexpected type ended in an AttributeError or TypeError
---
 scripts/decode_nskeyedarchiver_plist.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 409a083..7e05775 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -184,13 +184,19 @@ class NSKeyedArchiverDecoder:
 
         for value_object in encoded_object["NS.objects"]:
             plist_uid = self._GetPlistUID(value_object)
+            if plist_uid is None:
+                encoded_object_type = type(value_object)
+                raise RuntimeError(
+                    f"Unsupported NS.objects element type: {encoded_object_type!s}"
+                )
+
             referenced_object = objects_list[plist_uid]
 
             decoded_element = self._DecodeContainer(referenced_object, objects_list)
 
             decoded_list.append(decoded_element)
 
-        return decoded_element
+        return decoded_list
 
     def _DecodeNSURL(self, encoded_object, objects_list):
         """Decodes a NSURL.
@@ -211,7 +217,13 @@ class NSKeyedArchiverDecoder:
             encoded_object["NS.relative"], objects_list
         )
 
+        if not isinstance(decoded_relative, str):
+            raise RuntimeError("Unsupported NS.relative type")
+
         if decoded_base:
+            if not isinstance(decoded_base, str):
+                raise RuntimeError("Unsupported NS.base type")
+
             decoded_url = "/".join([decoded_base, decoded_relative])
         else:
             decoded_url = decoded_relative
@@ -274,13 +286,20 @@ class NSKeyedArchiverDecoder:
                 return encoded_object
 
             decoded_class = self._DecodeObject(encoded_class, objects_list)
+            if not isinstance(decoded_class, dict):
+                decoded_class_type = type(decoded_class)
+                raise RuntimeError(f"Unsupported $class type: {decoded_class_type!s}")
+
             class_name = decoded_class.get("$classname")
             if not class_name:
                 return encoded_object
 
-            callback_method = self._CALLBACKS.get(class_name)
+            callback_method = None
+            if isinstance(class_name, str):
+                callback_method = self._CALLBACKS.get(class_name)
+
             if not callback_method:
-                raise RuntimeError(f"Missing callback for class: {class_name:s}")
+                raise RuntimeError(f"Missing callback for class: {class_name!s}")
 
             callback = getattr(self, callback_method, None)
             return callback(encoded_object, objects_list)
-- 
2.43.0


From 62a521d576524a9f1b8ace53f7bcc421a4012a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:21 +0000
Subject: [PATCH 29/43] fix: usn_journal script: format the date and time of a
 record

property=C02, C14 a method of the reader was called on a record
---
 scripts/usn_journal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/usn_journal.py b/scripts/usn_journal.py
index 90fffe0..a52c94c 100755
--- a/scripts/usn_journal.py
+++ b/scripts/usn_journal.py
@@ -68,7 +68,7 @@ def Main():
     )
     for usn_record in usn_records.ReadRecords():
         # pylint: disable=protected-access
-        date_time = usn_record._FormatIntegerAsFiletime(usn_record.timestamp)
+        date_time, _ = usn_records._FormatIntegerAsFiletime(usn_record.timestamp)
 
         mft_entry = usn_record.file_reference & ((1 << 48) - 1)
         sequence_number = usn_record.file_reference >> 48
-- 
2.43.0


From 3a11a54686fa724195cf608e71dd32a4239b5d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 30/43] fix: data_format, spotlight_storedb: bounds of date and
 time values

property=C07, C05 a date and time far in the future was counted down century by century, practically without end; one before the year 0 raised ValueError
---
 dtformats/data_format.py       | 17 +++++++++++++++++
 dtformats/spotlight_storedb.py | 13 ++++++++-----
 scripts/spotlight_storedb.py   |  3 ++-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/dtformats/data_format.py b/dtformats/data_format.py
index b19c0d1..e719cec 100644
--- a/dtformats/data_format.py
+++ b/dtformats/data_format.py
@@ -55,6 +55,12 @@ class BinaryDataFormat:
         _NON_PRINTABLE_BYTE_VALUES
     )
 
+    # The first and last date and time value, in number of seconds relative to
+    # January 1, 1970, that are formatted as a date and time: 0001-01-01 00:00:00
+    # and 9999-12-31 23:59:59.
+    _MINIMUM_POSIX_TIME = -62135596800
+    _MAXIMUM_POSIX_TIME = 253402300799
+
     def __init__(self, debug=False, output_writer=None):
         """Initializes a binary data format.
 
@@ -127,6 +133,8 @@ class BinaryDataFormat:
         """
         if value == 0:
             date_time_string = "Not set (0)"
+        elif not self._MINIMUM_POSIX_TIME <= value <= self._MAXIMUM_POSIX_TIME:
+            date_time_string = f"0x{value:08x}"
         else:
             date_time = dfdatetime_posix_time.PosixTime(timestamp=value)
             date_time_string = date_time.CopyToDateTimeString()
@@ -406,6 +414,9 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if not self._MINIMUM_POSIX_TIME <= integer <= self._MAXIMUM_POSIX_TIME:
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
@@ -444,6 +455,12 @@ class BinaryDataFormat:
         if integer == 0:
             return "Not set (0)"
 
+        if (
+            integer < self._MINIMUM_POSIX_TIME * 1000000000
+            or integer > self._MAXIMUM_POSIX_TIME * 1000000000
+        ):
+            return f"0x{integer:08x}"
+
         date_time = dfdatetime_posix_time.PosixTimeInNanoseconds(timestamp=integer)
         date_time_string = date_time.CopyToDateTimeString()
         if not date_time_string:
diff --git a/dtformats/spotlight_storedb.py b/dtformats/spotlight_storedb.py
index 03d8f92..e0ef926 100644
--- a/dtformats/spotlight_storedb.py
+++ b/dtformats/spotlight_storedb.py
@@ -466,12 +466,15 @@ class SpotlightStoreDatabaseFile(data_format.BinaryDataFile):
         if value == 0:
             date_time_string = "Not set (0)"
         else:
-            date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
+            date_time_string = None
 
-            try:
-                date_time_string = date_time.CopyToDateTimeString()
-            except (OverflowError, ValueError):
-                date_time_string = None
+            if self._MINIMUM_POSIX_TIME <= value <= self._MAXIMUM_POSIX_TIME:
+                date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=value)
+
+                try:
+                    date_time_string = date_time.CopyToDateTimeString()
+                except (OverflowError, ValueError):
+                    pass
 
             if date_time_string:
                 date_time_string = f"{date_time_string:s} UTC"
diff --git a/scripts/spotlight_storedb.py b/scripts/spotlight_storedb.py
index e09bd68..1a789ce 100755
--- a/scripts/spotlight_storedb.py
+++ b/scripts/spotlight_storedb.py
@@ -74,7 +74,8 @@ def GetDateTimeString(timestamp):
     Returns:
       str: date and time string.
     """
-    if timestamp is None:
+    # Timestamps before 0001-01-01 or after 9999-12-31 cannot be represented.
+    if timestamp is None or not -63113904000 <= timestamp <= 252423993599:
         return "YYYY-MM-DD hh:ss:mm +####"
 
     date_time = dfdatetime_cocoa_time.CocoaTime(timestamp=timestamp)
-- 
2.43.0


From e4c82fce17972961f66ab3367a698bebe09d0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:34 +0000
Subject: [PATCH 31/43] fix: unified_logging: reject truncated and inconsistent
 data

property=C05, C06, C07, C04, C11, C14 indexes, offsets and sizes of the data were used without bounds checks; the catalog and chunk readers read past the data; dates far in the future were counted down century by century; the script called methods of another file class
---
 dtformats/unified_logging.py | 203 +++++++++++++++++++++++++----------
 scripts/unified_logging.py   |  16 ++-
 2 files changed, 161 insertions(+), 58 deletions(-)

diff --git a/dtformats/unified_logging.py b/dtformats/unified_logging.py
index 48165ca..6fff72e 100644
--- a/dtformats/unified_logging.py
+++ b/dtformats/unified_logging.py
@@ -549,6 +549,9 @@ class BooleanFormatStringDecoder(BaseFormatStringDecoder):
 class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
     """Date and time value in seconds format string decoder."""
 
+    # Number of seconds relative to January 1, 1970 of 9999-12-31 23:59:59.
+    _MAXIMUM_POSIX_TIME = 253402300799
+
     def FormatValue(self, value, format_string_operator=None):
         """Formats a date and time value in seconds.
 
@@ -563,8 +566,11 @@ class DateTimeInSecondsFormatStringDecoder(BaseFormatStringDecoder):
         """
         integer_value = int.from_bytes(value, "little", signed=False)
 
+        if integer_value > self._MAXIMUM_POSIX_TIME:
+            return "<decode: unsupported value>"
+
         date_time = dfdatetime_posix_time.PosixTime(timestamp=integer_value)
-        return date_time.CopyToDateTimeString()
+        return date_time.CopyToDateTimeString() or "<decode: unsupported value>"
 
 
 class ErrorCodeFormatStringDecoder(BaseFormatStringDecoder):
@@ -1946,6 +1952,9 @@ class UUIDFormatStringDecoder(BaseFormatStringDecoder):
         Returns:
           str: formatted UUID value.
         """
+        if not value or len(value) != 16:
+            return "<decode: bad UUID value>"
+
         uuid_value = uuid.UUID(bytes=value)
         return f"{uuid_value!s}".upper()
 
@@ -2288,6 +2297,12 @@ class DSCFile(data_format.BinaryDataFile):
             )
         )
         for dsc_range in self.ranges:
+            if dsc_range.uuid_index >= len(self.uuids):
+                raise errors.ParseError(
+                    f"Invalid UUID descriptor index: {dsc_range.uuid_index:d} value "
+                    f"out of bounds"
+                )
+
             dsc_uuid = self.uuids[dsc_range.uuid_index]
 
             dsc_range.image_identifier = dsc_uuid.image_identifier
@@ -2391,7 +2406,12 @@ class TimesyncDatabaseFile(data_format.BinaryDataFile):
         file_offset = 0
 
         while file_offset < self._file_size:
-            record, _ = self._ReadRecord(self._file_object, file_offset)
+            record, bytes_read = self._ReadRecord(self._file_object, file_offset)
+            if record.record_size < bytes_read:
+                raise errors.ParseError(
+                    f"Invalid record size: {record.record_size:d} value out of bounds"
+                )
+
             yield record
 
             file_offset += record.record_size
@@ -2650,12 +2670,20 @@ class TraceV3File(data_format.BinaryDataFile):
         self._catalog_process_information_entries = {}
 
         for process_information_entry in catalog.process_information_entries:
+            process_information_entry.main_uuid = None
             if process_information_entry.main_uuid_index >= 0:
+                if process_information_entry.main_uuid_index >= len(catalog.uuids):
+                    raise errors.ParseError("Invalid main UUID index out of bounds")
+
                 process_information_entry.main_uuid = catalog.uuids[
                     process_information_entry.main_uuid_index
                 ]
 
+            process_information_entry.dsc_uuid = None
             if process_information_entry.dsc_uuid_index >= 0:
+                if process_information_entry.dsc_uuid_index >= len(catalog.uuids):
+                    raise errors.ParseError("Invalid DSC UUID index out of bounds")
+
                 process_information_entry.dsc_uuid = catalog.uuids[
                     process_information_entry.dsc_uuid_index
                 ]
@@ -2663,10 +2691,10 @@ class TraceV3File(data_format.BinaryDataFile):
             if self._debug:
                 for sub_system_entry in process_information_entry.sub_system_entries:
                     sub_system = self._catalog_strings_map.get(
-                        sub_system_entry.sub_system_offset, None
+                        sub_system_entry.sub_system_offset, "(null)"
                     )
                     category = self._catalog_strings_map.get(
-                        sub_system_entry.category_offset, None
+                        sub_system_entry.category_offset, "(null)"
                     )
                     self._DebugPrintText(
                         f"Identifier: {sub_system_entry.identifier:d}, "
@@ -3152,6 +3180,9 @@ class TraceV3File(data_format.BinaryDataFile):
                 f"Unsupported strings file type: 0x{strings_file_type:04x}"
             )
 
+        if not process_information_entry:
+            raise errors.ParseError("Missing process information entry.")
+
         strings_file_identifier = None
         image_text_offset = 0
 
@@ -3162,7 +3193,9 @@ class TraceV3File(data_format.BinaryDataFile):
             strings_file_identifier = process_information_entry.dsc_uuid
 
         if strings_file_type == 0x0008:
-            load_address_upper = tracepoint_data_object.load_address_upper or 0
+            load_address_upper = (
+                getattr(tracepoint_data_object, "load_address_upper", None) or 0
+            )
             load_address_lower = tracepoint_data_object.load_address_lower
 
             for uuid_entry in process_information_entry.uuid_entries:
@@ -3176,6 +3209,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     uuid_entry.load_address_lower + uuid_entry.size
                 ):
                     if self._catalog:
+                        if uuid_entry.uuid_index >= len(self._catalog.uuids):
+                            raise errors.ParseError("Invalid UUID index out of bounds")
+
                         strings_file_identifier = self._catalog.uuids[
                             uuid_entry.uuid_index
                         ]
@@ -3190,7 +3226,9 @@ class TraceV3File(data_format.BinaryDataFile):
                 return None
 
         elif strings_file_type == 0x000A:
-            strings_file_identifier = tracepoint_data_object.uuidtext_file_identifier
+            strings_file_identifier = getattr(
+                tracepoint_data_object, "uuidtext_file_identifier", None
+            )
 
         if not strings_file_identifier:
             raise errors.ParseError("Missing strings file identifier.")
@@ -3567,9 +3605,13 @@ class TraceV3File(data_format.BinaryDataFile):
         data_type_map = self._GetDataTypeMap("tracev3_catalog_sub_chunk")
 
         if self._debug:
-            file_object.seek(file_offset, os.SEEK_SET)
-            sub_chunks_data = file_object.read(chunk_data_size - bytes_read)
-            self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
+            if chunk_data_size > bytes_read and file_offset < self._file_size:
+                sub_chunks_data_size = min(
+                    chunk_data_size - bytes_read, self._file_size - file_offset
+                )
+                file_object.seek(file_offset, os.SEEK_SET)
+                sub_chunks_data = file_object.read(sub_chunks_data_size)
+                self._DebugPrintData("Catalog sub chunks data", sub_chunks_data)
 
         for _ in range(catalog.number_of_sub_chunks):
             catalog_sub_chunk, bytes_read = self._ReadStructureFromFileObject(
@@ -3631,7 +3673,9 @@ class TraceV3File(data_format.BinaryDataFile):
         Raises:
           ParseError: if the chunk header cannot be read.
         """
-        chunk_data = file_object.read(chunk_header.chunk_data_size)
+        chunk_data = self._ReadData(
+            file_object, file_offset, chunk_header.chunk_data_size, "chunk set data"
+        )
 
         data_type_map = self._GetDataTypeMap("tracev3_lz4_block_header")
 
@@ -3645,10 +3689,21 @@ class TraceV3File(data_format.BinaryDataFile):
         # TODO: add support for multi block compressed data.
         if lz4_block_header.signature == b"bv41":
             end_of_data_offset = 12 + lz4_block_header.compressed_data_size
-            uncompressed_data = lz4.block.decompress(
-                chunk_data[12:end_of_data_offset],
-                uncompressed_size=lz4_block_header.uncompressed_data_size,
-            )
+            try:
+                uncompressed_data = lz4.block.decompress(
+                    chunk_data[12:end_of_data_offset],
+                    uncompressed_size=lz4_block_header.uncompressed_data_size,
+                )
+            except (
+                lz4.block.LZ4BlockError,
+                MemoryError,
+                OverflowError,
+                ValueError,
+            ) as exception:
+                raise errors.ParseError(
+                    f"Unable to decompress LZ4 block at offset: "
+                    f"0x{file_offset:08x} with error: {exception!s}"
+                )
 
         elif lz4_block_header.signature == b"bv4-":
             end_of_data_offset = 8 + lz4_block_header.uncompressed_data_size
@@ -3766,17 +3821,23 @@ class TraceV3File(data_format.BinaryDataFile):
             self._DebugPrintStructureObject(backtrace_data, debug_info)
 
         backtrace_frames = []
-        for frame_index in range(backtrace_data.number_of_frames):
-            identifier_index = backtrace_data.indexes[frame_index]
-
+        for identifier_index, image_offset in zip(
+            backtrace_data.indexes, backtrace_data.offsets
+        ):
             backtrace_frame = BacktraceFrame()
-            backtrace_frame.image_offset = backtrace_data.offsets[frame_index]
+            backtrace_frame.image_offset = image_offset
 
             if identifier_index == 0xFF:
                 backtrace_frame.image_identifier = uuid.UUID(
                     "00000000-0000-0000-0000-000000000000"
                 )
             else:
+                if identifier_index >= len(backtrace_data.identifiers):
+                    raise errors.ParseError(
+                        f"Invalid backtrace identifier index: {identifier_index:d} "
+                        f"value out of bounds"
+                    )
+
                 backtrace_frame.image_identifier = backtrace_data.identifiers[
                     identifier_index
                 ]
@@ -3841,9 +3902,9 @@ class TraceV3File(data_format.BinaryDataFile):
                     value_data_offset : value_data_offset + data_item.value_data_size
                 ]
 
-            if self._debug:
-                data_item.value_data = value_data
+            data_item.value_data = value_data
 
+            if self._debug:
                 debug_info = self._DEBUG_INFORMATION.get("tracev3_data_item")
                 self._DebugPrintStructureObject(data_item, debug_info)
 
@@ -3868,13 +3929,13 @@ class TraceV3File(data_format.BinaryDataFile):
                     0x72,
                     0xF2,
                 ):
-                    raise errors.ParseError(
+                    self._DebugPrintText(
                         f"Unsupported data item value type: "
-                        f"0x{data_item.value_type:02x}."
+                        f"0x{data_item.value_type:02x}.\n"
                     )
 
             if data_item.value_type in self._DATA_ITEM_PRECISION_VALUE_TYPES:
-                precision = int.from_bytes(value_data, "little", signed=False)
+                precision = int.from_bytes(data_item.data, "little", signed=False)
                 continue
 
             value = None
@@ -3941,6 +4002,8 @@ class TraceV3File(data_format.BinaryDataFile):
                     f"catalog"
                 )
 
+        private_data = b""
+
         chunk_data_offset = 32
         while chunk_data_offset < firehose_header.public_data_size:
             if self._debug:
@@ -4270,7 +4333,7 @@ class TraceV3File(data_format.BinaryDataFile):
                             name_string_reference,
                             is_dynamic,
                         )
-                        name_string = name_image_values.string
+                        name_string = getattr(name_image_values, "string", None)
 
                     log_entry.signpost_identifier = getattr(
                         tracepoint_data_object, "signpost_identifier", None
@@ -4542,6 +4605,9 @@ class TraceV3File(data_format.BinaryDataFile):
         trace = self._ReadStructureFromByteStream(
             tracepoint_data, data_offset, data_type_map, "trace", context=context
         )
+        if not tracepoint_data:
+            raise errors.ParseError("Missing trace data.")
+
         trace.number_of_values = tracepoint_data[-1]
 
         if self._debug:
@@ -4573,12 +4639,15 @@ class TraceV3File(data_format.BinaryDataFile):
 
         values = []
 
-        value_data_offset = 0
-        value_size_offset = -(1 + trace.number_of_values)
+        value_sizes_data = values_data[-(1 + trace.number_of_values) : -1]
+        if len(value_sizes_data) != trace.number_of_values:
+            raise errors.ParseError(
+                f"Unsupported number of values: {trace.number_of_values:d}"
+            )
 
-        for value_index in range(trace.number_of_values):
-            value_data_size = values_data[value_size_offset]
+        value_data_offset = 0
 
+        for value_index, value_data_size in enumerate(value_sizes_data):
             if value_data_size not in (4, 8):
                 raise errors.ParseError(f"Unsupported value size: {value_data_size:d}")
 
@@ -4590,7 +4659,6 @@ class TraceV3File(data_format.BinaryDataFile):
             values.append(value)
 
             value_data_offset += value_data_size
-            value_size_offset += 1
 
         return values
 
@@ -4807,12 +4875,18 @@ class TraceV3File(data_format.BinaryDataFile):
         event_message = ""
         if statedump_chunk.state_data_type == 0x03:
             library_data = statedump_chunk.library.split(b"\x00", maxsplit=1)[0]
-            library = library_data.decode("utf8")
-
             decoder_type_data = statedump_chunk.decoder_type.split(b"\x00", maxsplit=1)[
                 0
             ]
-            decoder_type = decoder_type_data.decode("utf8")
+            try:
+                library = library_data.decode("utf8")
+                decoder_type = decoder_type_data.decode("utf8")
+
+            except UnicodeDecodeError as exception:
+                raise errors.ParseError(
+                    f"Unable to decode StateDump library or decoder type with "
+                    f"error: {exception!s}"
+                )
 
             decoder_name = f"{library:s}:{decoder_type:s}"
             decoder_class = self._FORMAT_STRING_DECODERS.get(decoder_name)
@@ -4821,7 +4895,8 @@ class TraceV3File(data_format.BinaryDataFile):
             else:
                 value = decoder_class.FormatValue(statedump_chunk.state_data)
 
-            event_message = f"{statedump_chunk.title:s}\n{value:s}"
+            title = statedump_chunk.title or ""
+            event_message = f"{title:s}\n{value:s}"
 
         activity_identifier = statedump_chunk.activity_identifier or 0
 
@@ -4875,20 +4950,32 @@ class TraceV3File(data_format.BinaryDataFile):
                 continue
 
             timesync_file = self._OpenTimesyncDatabaseFile(directory_entry)
+            if not timesync_file:
+                continue
+
+            try:
+                for record in timesync_file.ReadRecords():
+                    record_boot_identifier = getattr(record, "boot_identifier", None)
 
-            for record in timesync_file.ReadRecords():
-                record_boot_identifier = getattr(record, "boot_identifier", None)
+                    if self._timesync_boot_record:
+                        if record_boot_identifier:
+                            break
 
-                if self._timesync_boot_record:
-                    if record_boot_identifier:
-                        break
+                        self._timesync_sync_records.append(record)
 
-                    self._timesync_sync_records.append(record)
+                    elif (
+                        record_boot_identifier
+                        and record_boot_identifier == boot_identifier
+                    ):
+                        self._timesync_boot_record = record
 
-                elif record_boot_identifier == boot_identifier:
-                    self._timesync_boot_record = record
+            finally:
+                timesync_file.Close()
 
         if self._timesync_boot_record:
+            if not self._timesync_boot_record.timebase_denominator:
+                raise errors.ParseError("Invalid timesync timebase denominator")
+
             self._timesync_timebase = (
                 self._timesync_boot_record.timebase_numerator
                 / self._timesync_boot_record.timebase_denominator
@@ -4933,34 +5020,34 @@ class TraceV3File(data_format.BinaryDataFile):
         path_segments = self._file_system_helper.SplitPath(self._path)
 
         # Remove the filename from the path.
-        path_segments.pop(-1)
+        path_segments = path_segments[:-1]
+
+        lower_last_path_segment = ""
+        if path_segments:
+            lower_last_path_segment = path_segments[-1].lower()
 
-        lower_last_path_segment = path_segments[-1].lower()
         if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
+            path_segments = path_segments[:-1]
             if path_segments:
                 lower_last_path_segment = path_segments[-1].lower()
 
         if not lower_last_path_segment.endswith(".logarchive"):
-            path_segments.pop(-1)
+            path_segments = path_segments[:-1]
             if path_segments:
                 lower_last_path_segment = path_segments[-1].lower()
 
         if lower_last_path_segment.endswith(".logarchive"):
-            path_segments.append("dsc")
-            dsc_path = self._file_system_helper.JoinPath(path_segments)
+            dsc_path = self._file_system_helper.JoinPath(path_segments + ["dsc"])
             if self._file_system_helper.CheckFileExistsByPath(dsc_path):
-                path_segments.pop(-1)
                 self._uuidtext_path = self._file_system_helper.JoinPath(path_segments)
 
         else:
-            path_segments.append("uuidtext")
-            uuidtext_path = self._file_system_helper.JoinPath(path_segments)
+            uuidtext_path = self._file_system_helper.JoinPath(
+                path_segments + ["uuidtext"]
+            )
             if self._file_system_helper.CheckFileExistsByPath(uuidtext_path):
                 self._uuidtext_path = uuidtext_path
 
-            path_segments.pop(-1)
-
         # The timesync files can be stored in multiple locations relative from
         # the tracev3 file.
         # * in ../timesync/ for *.logarchive/logdata.LiveData.tracev3
@@ -4981,7 +5068,8 @@ class TraceV3File(data_format.BinaryDataFile):
 
         if self._debug:
             self._DebugPrintText(f"Chunk: {self._chunk_index:d}\n")
-            self._chunk_index += 1
+
+        self._chunk_index += 1
 
         chunk_header = self._ReadChunkHeader(file_object, file_offset)
         file_offset += 16
@@ -4995,8 +5083,14 @@ class TraceV3File(data_format.BinaryDataFile):
 
         file_offset += alignment
 
+        if file_offset > self._file_size:
+            raise errors.ParseError("Invalid header chunk data size out of bounds")
+
         file_object.seek(file_offset, os.SEEK_SET)
 
+        if not header_chunk.timebase_denominator:
+            raise errors.ParseError("Invalid header timebase denominator")
+
         self._header_timestamp = header_chunk.timestamp * self._NANOSECONDS_PER_SECOND
         self._header_timebase = (
             header_chunk.timebase_numerator / header_chunk.timebase_denominator
@@ -5061,7 +5155,8 @@ class TraceV3File(data_format.BinaryDataFile):
         while file_offset < self._file_size:
             if self._debug:
                 self._DebugPrintText(f"Chunk: {self._chunk_index:d}\n")
-                self._chunk_index += 1
+
+            self._chunk_index += 1
 
             chunk_header = self._ReadChunkHeader(self._file_object, file_offset)
             file_offset += 16
diff --git a/scripts/unified_logging.py b/scripts/unified_logging.py
index 07e6988..e6623c8 100755
--- a/scripts/unified_logging.py
+++ b/scripts/unified_logging.py
@@ -69,11 +69,19 @@ def GetDateTimeString(timestamp):
     Returns:
       str: date and time string.
     """
-    if timestamp is None:
+    # Timestamps before 0001-01-01 or after 9999-12-31 cannot be represented.
+    if (
+        timestamp is None
+        or timestamp < -62135596800 * 1000000000
+        or timestamp >= 253402300800 * 1000000000
+    ):
         return "YYYY-MM-DD hh:ss:mm.######+####"
 
     date_time = dfdatetime_posix_time.PosixTimeInNanoseconds(timestamp=timestamp)
     iso8601_string = date_time.CopyToDateTimeStringISO8601()
+    if not iso8601_string:
+        return "YYYY-MM-DD hh:ss:mm.######+####"
+
     return "".join(
         [
             iso8601_string[:10],
@@ -196,7 +204,7 @@ def Main():
 
     output_writer.WriteText("Apple Unified Logging and Activity Tracing information:\n")
 
-    if file_signature == b"hcsd":
+    if isinstance(unified_logging_file, unified_logging.DSCFile):
         for index, dsc_uuid in enumerate(unified_logging_file.uuids):
             output_writer.WriteText(f"uuid {index:d}:\n")
 
@@ -227,11 +235,11 @@ def Main():
             output_writer.WriteText(f"    path:\t{dsc_range.image_path:s}\n")
             output_writer.WriteText("\n")
 
-    elif file_signature == b"\x99\x88\x77\x66":
+    elif isinstance(unified_logging_file, unified_logging.UUIDTextFile):
         # TODO: implement.
         pass
 
-    elif file_signature in (b"\xb0\xbb\x30\x00", b"Ts\x20\x00"):
+    elif isinstance(unified_logging_file, unified_logging.TimesyncDatabaseFile):
         for record in unified_logging_file.ReadRecords():
             # TODO: implement.
             _ = record
-- 
2.43.0


From 7ec26cbdecfae66bfba7eea090dc44bd13e3b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:33 +0000
Subject: [PATCH 32/43] fix: wmi_repository: determine the layout of a property
 value by its data type

property=C01 the layouts of signed 8, 16 and 64-bit and of floating-point property values were not defined, and other names were taken from the type qualifier in the data
---
 dtformats/wmi_repository.py   | 36 ++++++++++++++++-----------------
 dtformats/wmi_repository.yaml | 38 +++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index 0c6bc09..c673903 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -3140,21 +3140,19 @@ class Instance(CIMObject):
         ("data", "Data", "_FormatDataInHexadecimal"),
     ]
 
-    _FIXED_SIZE_VALUE_DATA_TYPES = frozenset(
-        [
-            0x00000002,
-            0x00000003,
-            0x00000004,
-            0x00000005,
-            0x0000000B,
-            0x00000010,
-            0x00000011,
-            0x00000012,
-            0x00000013,
-            0x00000014,
-            0x00000015,
-        ]
-    )
+    _FIXED_SIZE_VALUE_DATA_TYPE_MAPS = {
+        0x00000002: "property_value_sint16",
+        0x00000003: "property_value_sint32",
+        0x00000004: "property_value_real32",
+        0x00000005: "property_value_real64",
+        0x0000000B: "property_value_boolean",
+        0x00000010: "property_value_sint8",
+        0x00000011: "property_value_uint8",
+        0x00000012: "property_value_uint16",
+        0x00000013: "property_value_uint32",
+        0x00000014: "property_value_sint64",
+        0x00000015: "property_value_uint64",
+    }
 
     _STRING_VALUE_DATA_TYPES = frozenset([0x00000008, 0x00000065, 0x00000066])
 
@@ -3314,10 +3312,10 @@ class Instance(CIMObject):
                 f"value: {property_value_data_map.type_qualifier:s}"
             )
             property_value = None
-            if property_value_data_map.data_type in self._FIXED_SIZE_VALUE_DATA_TYPES:
-                data_type_map_name = (
-                    f"property_value_{property_value_data_map.type_qualifier:s}"
-                )
+            data_type_map_name = self._FIXED_SIZE_VALUE_DATA_TYPE_MAPS.get(
+                property_value_data_map.data_type
+            )
+            if data_type_map_name:
                 data_type_map = self._GetDataTypeMap(data_type_map_name)
 
                 property_value = self._ReadStructureFromByteStream(
diff --git a/dtformats/wmi_repository.yaml b/dtformats/wmi_repository.yaml
index 97cc340..bd7de2e 100644
--- a/dtformats/wmi_repository.yaml
+++ b/dtformats/wmi_repository.yaml
@@ -474,6 +474,14 @@ attributes:
   false_value: 0
   true_value: 0xffff
 ---
+name: property_value_sint8
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 1
+  units: bytes
+---
 name: property_value_uint8
 type: integer
 attributes:
@@ -482,6 +490,14 @@ attributes:
   size: 1
   units: bytes
 ---
+name: property_value_sint16
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 2
+  units: bytes
+---
 name: property_value_uint16
 type: integer
 attributes:
@@ -506,6 +522,14 @@ attributes:
   size: 4
   units: bytes
 ---
+name: property_value_sint64
+type: integer
+attributes:
+  byte_order: little-endian
+  format: signed
+  size: 8
+  units: bytes
+---
 name: property_value_uint64
 type: integer
 attributes:
@@ -514,6 +538,20 @@ attributes:
   size: 8
   units: bytes
 ---
+name: property_value_real32
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 4
+  units: bytes
+---
+name: property_value_real64
+type: floating-point
+attributes:
+  byte_order: little-endian
+  size: 8
+  units: bytes
+---
 name: property_value_offset
 type: integer
 attributes:
-- 
2.43.0


From 4231ca56f08188434a2af8bb8c647fecf9f3072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 33/43] fix: debug definitions: describe the fields that exist

property=C03 entries named fields that no layout has, so that enabling debug output silently omitted them (among others the category name of custom destinations, the record data size of LevelDB log blocks, the data size of systemd journal objects)
---
 dtformats/aul_tracev3.debug.yaml | 11 +----------
 dtformats/job.debug.yaml         |  3 ---
 dtformats/jump_list.debug.yaml   |  2 +-
 dtformats/keychain.debug.yaml    |  4 ++--
 dtformats/leveldb.debug.yaml     |  2 +-
 dtformats/systemd.debug.yaml     |  2 +-
 dtformats/wmi_repository.py      |  9 ---------
 7 files changed, 6 insertions(+), 27 deletions(-)

diff --git a/dtformats/aul_tracev3.debug.yaml b/dtformats/aul_tracev3.debug.yaml
index 564c90f..280848a 100644
--- a/dtformats/aul_tracev3.debug.yaml
+++ b/dtformats/aul_tracev3.debug.yaml
@@ -140,9 +140,6 @@ attributes:
 - name: value_data_size
   description: "Value data size"
   format: decimal
-- name: private_string
-  description: "Private string value"
-  format: string
 - name: value_data
   description: "Value data"
   format: binary_data
@@ -263,7 +260,7 @@ attributes:
 - name: unknown3
   description: "Unknown3"
   format: hexadecimal_2digits
-- name: uuids
+- name: identifiers
   description: "Identifiers"
   format: custom:array_of_uuids
 - name: offsets
@@ -380,12 +377,6 @@ attributes:
 - name: number_of_values
   description: "Number of values"
   format: decimal
-- name: value_size
-  description: "Value size"
-  format: decimal
-- name: integer
-  description: "Integer value"
-  format: decimal
 ---
 data_type_map: tracev3_header_chunk
 attributes:
diff --git a/dtformats/job.debug.yaml b/dtformats/job.debug.yaml
index 3b50efe..5cc9fbf 100644
--- a/dtformats/job.debug.yaml
+++ b/dtformats/job.debug.yaml
@@ -74,9 +74,6 @@ attributes:
 - name: reserved_data
   description: "Reserved data"
   format: custom:data_stream
-- name: number_of_triggers
-  description: "Number of triggers"
-  format: decimal
 ---
 data_type_map: job_trigger
 attributes:
diff --git a/dtformats/jump_list.debug.yaml b/dtformats/jump_list.debug.yaml
index 702d549..c664bce 100644
--- a/dtformats/jump_list.debug.yaml
+++ b/dtformats/jump_list.debug.yaml
@@ -14,7 +14,7 @@ attributes:
 - name: number_of_characters
   description: "Number of characters"
   format: decimal
-- name: cateogy_name
+- name: category_name
   description: "Category name"
   format: string
 - name: category_identifier
diff --git a/dtformats/keychain.debug.yaml b/dtformats/keychain.debug.yaml
index 46658ea..a7cf7f5 100644
--- a/dtformats/keychain.debug.yaml
+++ b/dtformats/keychain.debug.yaml
@@ -65,8 +65,8 @@ attributes:
 - name: number_of_records
   description: "Number of records"
   format: decimal
-- name: record_array_offset
-  description: "Record array offset"
+- name: records_array_offset
+  description: "Records array offset"
   format: hexadecimal_8digits
 - name: unknown1
   description: "Unknown1"
diff --git a/dtformats/leveldb.debug.yaml b/dtformats/leveldb.debug.yaml
index e9ae673..ffdeff6 100644
--- a/dtformats/leveldb.debug.yaml
+++ b/dtformats/leveldb.debug.yaml
@@ -5,7 +5,7 @@ attributes:
 - name: checksum
   description: "Checksum"
   format: hexadecimal_8digits
-- name: data_size
+- name: record_data_size
   description: "Record data size"
   format: decimal
 - name: record_type
diff --git a/dtformats/systemd.debug.yaml b/dtformats/systemd.debug.yaml
index 6e09977..9a3c187 100644
--- a/dtformats/systemd.debug.yaml
+++ b/dtformats/systemd.debug.yaml
@@ -137,6 +137,6 @@ attributes:
 - name: reserved1
   description: "Reserved"
   format: binary_data
-- name: data_sizes
+- name: data_size
   description: "Data size"
   format: decimal
diff --git a/dtformats/wmi_repository.py b/dtformats/wmi_repository.py
index c673903..6fe99b1 100644
--- a/dtformats/wmi_repository.py
+++ b/dtformats/wmi_repository.py
@@ -2441,10 +2441,6 @@ class ClassDefinition(CIMObject):
             "  Qualifiers block data",
             "_FormatDataInHexadecimal",
         ),
-        ("value_boolean", "  Value", "_FormatIntegerAsDecimal"),
-        ("value_floating_point", "  Value", "_FormatFloatingPoint"),
-        ("value_integer", "  Value", "_FormatIntegerAsDecimal"),
-        ("value_offset", "  Value offset", "_FormatIntegerAsOffset"),
     ]
 
     _PREDEFINED_NAMES = {
@@ -3124,11 +3120,6 @@ class Instance(CIMObject):
         ("qualifiers_block_size", "Qualifiers block size", "_FormatIntegerAsDecimal"),
         ("qualifiers_block_data", "Qualifiers block data", "_FormatDataInHexadecimal"),
         ("dynamic_block_type", "Dynamic block type", "_FormatIntegerAsDecimal"),
-        (
-            "dynamic_block_value1",
-            "Dynamic block value1",
-            "_FormatIntegerAsHexadecimal8",
-        ),
     ]
 
     _DEBUG_INFO_DYNAMIC_TYPE2_HEADER = [
-- 
2.43.0


From 1b0a8a0b4441151ed0822821e30fb149aaf1f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:48 +0000
Subject: [PATCH 34/43] fix: firefox_cache1 debug definitions name the
 formatter of cache locations

property=C03
---
 dtformats/firefox_cache1.debug.yaml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dtformats/firefox_cache1.debug.yaml b/dtformats/firefox_cache1.debug.yaml
index f87a8d1..d6d8a1e 100644
--- a/dtformats/firefox_cache1.debug.yaml
+++ b/dtformats/firefox_cache1.debug.yaml
@@ -10,7 +10,7 @@ attributes:
   format: decimal
 - name: location
   description: "Location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: fetch_count
   description: "Fetch count"
   format: decimal
@@ -73,7 +73,7 @@ attributes:
   format: decimal
 - name: data_location
   description: "Data location"
-  format: custom:cache_lcation
+  format: custom:cache_location
 - name: metadata_location
   description: "Metadata location"
-  format: custom:cache_lcation
+  format: custom:cache_location
-- 
2.43.0


From ae63a2c8adda5ac7b092b150faf0b3fe0a5dd8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:08 +0000
Subject: [PATCH 35/43] fix: close the AMCache Registry file

property=C11
---
 dtformats/amcache.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/dtformats/amcache.py b/dtformats/amcache.py
index bae2a5b..5e41339 100644
--- a/dtformats/amcache.py
+++ b/dtformats/amcache.py
@@ -242,18 +242,15 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
         for program_key in programs_key.sub_keys:
             self._ReadProgramKey(program_key)
 
-    def ReadFileObject(self, file_object):
-        """Reads a Windows AMCache file-like object.
+    def _ReadRegistryFile(self, regf_file):
+        """Reads a Windows AMCache Windows Registry file.
 
         Args:
-          file_object (file): file-like object.
+          regf_file (pyregf.file): Windows Registry file.
 
         Raises:
           ParseError: if the file cannot be read.
         """
-        regf_file = pyregf.file()
-        regf_file.open_file_object(file_object)
-
         root_key = regf_file.get_root_key()
         root_key_name = root_key.get_name()
         if root_key_name.lower() not in self._ROOT_KEY_NAMES:
@@ -280,3 +277,20 @@ class WindowsAMCacheFile(data_format.BinaryDataFile):
             )
             if inventory_application_file_key:
                 self._ReadInventoryApplicationFileKey(inventory_application_file_key)
+
+    def ReadFileObject(self, file_object):
+        """Reads a Windows AMCache file-like object.
+
+        Args:
+          file_object (file): file-like object.
+
+        Raises:
+          ParseError: if the file cannot be read.
+        """
+        regf_file = pyregf.file()
+        regf_file.open_file_object(file_object)
+
+        try:
+            self._ReadRegistryFile(regf_file)
+        finally:
+            regf_file.close()
-- 
2.43.0


From ab4de3a0c2159fff35b4632821bba46c8757ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 36/43] fix: close the OLECF file of a Jump List that cannot be
 read

property=C11
---
 dtformats/jump_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dtformats/jump_list.py b/dtformats/jump_list.py
index 0adc9f9..afd8b5f 100644
--- a/dtformats/jump_list.py
+++ b/dtformats/jump_list.py
@@ -241,7 +241,11 @@ class AutomaticDestinationsFile(data_format.BinaryDataFile):
         olecf_file = pyolecf.file()
         olecf_file.open_file_object(file_object)
 
-        self._ReadDestList(olecf_file.root_item)
+        try:
+            self._ReadDestList(olecf_file.root_item)
+        except Exception:
+            olecf_file.close()
+            raise
 
         self._olecf_file = olecf_file
 
-- 
2.43.0


From dc22e25c037600c00e0e547cc2f87755dcbf0d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:22 +0000
Subject: [PATCH 37/43] fix: close the CPIO archive file that is hashed

property=C11
---
 scripts/cpio.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 189ecf3..61675f7 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -47,19 +47,19 @@ class CPIOArchiveFileHasher:
         self._output_writer = output_writer
         self._path = path
 
-    def HashFileEntries(self):
-        """Hashes the file entries stored in the CPIO archive file."""
-        stat_object = os.stat(self._path)
-
-        file_object = open(self._path, "rb")  # pylint: disable=consider-using-with
+    def _HashFileEntries(self, file_object, file_size):
+        """Hashes the file entries stored in a file-like object.
 
+        Args:
+          file_object (file): file-like object of the CPIO archive file.
+          file_size (int): size of the CPIO archive file.
+        """
         file_offset = 0
-        file_size = stat_object.st_size
 
         # initrd files can consist of an uncompressed and compressed cpio archive.
         # Keeping the functionality in this script for now, but this likely
         # needs to be in a separate initrd hashing script.
-        while file_offset < stat_object.st_size:
+        while file_offset < file_size:
             file_object.seek(file_offset, os.SEEK_SET)
             signature_data = file_object.read(6)
 
@@ -131,6 +131,13 @@ class CPIOArchiveFileHasher:
 
             cpio_archive_file.Close()
 
+    def HashFileEntries(self):
+        """Hashes the file entries stored in the CPIO archive file."""
+        stat_object = os.stat(self._path)
+
+        with open(self._path, "rb") as file_object:
+            self._HashFileEntries(file_object, stat_object.st_size)
+
 
 def Main():
     """The main program function.
-- 
2.43.0


From b66f4befd31a5b0508b39e5232612bc8ad5a0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:25 +0000
Subject: [PATCH 38/43] fix: do not close a CPIO archive that was not opened

property=C11
---
 scripts/cpio.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scripts/cpio.py b/scripts/cpio.py
index 61675f7..3f0fdc6 100755
--- a/scripts/cpio.py
+++ b/scripts/cpio.py
@@ -129,8 +129,6 @@ class CPIOArchiveFileHasher:
             if padding_size > 0:
                 file_offset += 16 - padding_size
 
-            cpio_archive_file.Close()
-
     def HashFileEntries(self):
         """Hashes the file entries stored in the CPIO archive file."""
         stat_object = os.stat(self._path)
-- 
2.43.0


From 6a23f9c3b20492259090b461fd1a0aaa64caca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:54 +0000
Subject: [PATCH 39/43] fix: Check the signature of every CPIO file entry

property=C12
---
 dtformats/cpio.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dtformats/cpio.py b/dtformats/cpio.py
index 9bc382d..66fe117 100644
--- a/dtformats/cpio.py
+++ b/dtformats/cpio.py
@@ -61,6 +61,14 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
     _CPIO_SIGNATURE_NEW_ASCII = b"070701"
     _CPIO_SIGNATURE_NEW_ASCII_WITH_CHECKSUM = b"070702"
 
+    _CPIO_FILE_ENTRY_SIGNATURES = {
+        "bin-big-endian": 0x71C7,
+        "bin-little-endian": 0x71C7,
+        "crc": _CPIO_SIGNATURE_NEW_ASCII_WITH_CHECKSUM,
+        "newc": _CPIO_SIGNATURE_NEW_ASCII,
+        "odc": _CPIO_SIGNATURE_PORTABLE_ASCII,
+    }
+
     _CPIO_ATTRIBUTE_NAMES_ODC = (
         "device_number",
         "inode_number",
@@ -212,6 +220,8 @@ class CPIOArchiveFile(data_format.BinaryDataFile):
         file_entry, file_entry_data_size = self._ReadStructureFromFileObject(
             file_object, file_offset, data_type_map, "file entry"
         )
+        if file_entry.signature != self._CPIO_FILE_ENTRY_SIGNATURES[self.file_format]:
+            raise errors.ParseError("Unsupported file entry signature.")
 
         file_offset += file_entry_data_size
 
-- 
2.43.0


From 5f56c234a0a527382ddb3be359ff43e995fd1664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 40/43] fix: Do not read an Apple System Log record more than
 once

property=C07
---
 dtformats/asl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dtformats/asl.py b/dtformats/asl.py
index 9d90156..2b0f0e2 100644
--- a/dtformats/asl.py
+++ b/dtformats/asl.py
@@ -258,8 +258,17 @@ class AppleSystemLogFile(data_format.BinaryDataFile):
         file_header = self._ReadFileHeader(file_object)
 
         if file_header.first_log_entry_offset > 0:
+            read_file_offsets = set()
+
             file_offset = file_header.first_log_entry_offset
             while file_offset < self._file_size:
+                if file_offset in read_file_offsets:
+                    raise errors.ParseError(
+                        f"Record at offset: 0x{file_offset:08x} already read"
+                    )
+
+                read_file_offsets.add(file_offset)
+
                 file_offset = self._ReadRecord(file_object, file_offset)
                 if file_offset == 0:
                     break
-- 
2.43.0


From 30381bb8b2b12f89ed6672bacc332f031f97e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 41/43] fix: Do not read a systemd journal entry array more
 than once

property=C07
---
 dtformats/systemd.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dtformats/systemd.py b/dtformats/systemd.py
index 040f9d1..061157e 100644
--- a/dtformats/systemd.py
+++ b/dtformats/systemd.py
@@ -357,11 +357,19 @@ class SystemdJournalFile(data_format.BinaryDataFile):
             file_object, file_header.entry_array_offset
         )
 
+        read_file_offsets = {file_header.entry_array_offset}
+
         entry_object_offsets = list(entry_array_object.entry_object_offsets)
         while entry_array_object.next_entry_array_offset != 0:
-            entry_array_object = self._ReadEntryArrayObject(
-                file_object, entry_array_object.next_entry_array_offset
-            )
+            file_offset = entry_array_object.next_entry_array_offset
+            if file_offset in read_file_offsets:
+                raise errors.ParseError(
+                    f"Entry array object at offset: 0x{file_offset:08x} already read"
+                )
+
+            read_file_offsets.add(file_offset)
+
+            entry_array_object = self._ReadEntryArrayObject(file_object, file_offset)
             entry_object_offsets.extend(entry_array_object.entry_object_offsets)
 
         for entry_object_offset in entry_object_offsets:
-- 
2.43.0


From 25ff1e7e8edab83365ddc3e185a8969681071f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 42/43] fix: Do not decode a NSKeyedArchiver object that refers
 to itself

property=C07
---
 scripts/decode_nskeyedarchiver_plist.py | 28 +++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/scripts/decode_nskeyedarchiver_plist.py b/scripts/decode_nskeyedarchiver_plist.py
index 7e05775..d0965f5 100644
--- a/scripts/decode_nskeyedarchiver_plist.py
+++ b/scripts/decode_nskeyedarchiver_plist.py
@@ -40,6 +40,11 @@ class NSKeyedArchiverDecoder:
         "Storage": "_DecodeComposite",
     }
 
+    def __init__(self):
+        """Initializes a NSKeyedArchiver encoded plist decoder."""
+        super().__init__()
+        self._object_identifiers = set()
+
     def _DecodeComposite(self, encoded_object, objects_list):
         """Decodes a composite object.
 
@@ -253,6 +258,29 @@ class NSKeyedArchiverDecoder:
     def _DecodeObject(self, encoded_object, objects_list):
         """Decodes an object.
 
+        Args:
+          encoded_object (object): encoded object.
+          list[object]: $objects list.
+
+        Returns:
+          object: decoded object.
+
+        Raises:
+          RuntimeError: if the object refers to itself.
+        """
+        object_identifier = id(encoded_object)
+        if object_identifier in self._object_identifiers:
+            raise RuntimeError("Unsupported encoded object that refers to itself")
+
+        self._object_identifiers.add(object_identifier)
+        try:
+            return self._DecodeObjectValue(encoded_object, objects_list)
+        finally:
+            self._object_identifiers.discard(object_identifier)
+
+    def _DecodeObjectValue(self, encoded_object, objects_list):
+        """Decodes the value of an object.
+
         Args:
           encoded_object (object): encoded object.
           list[object]: $objects list.
-- 
2.43.0


From 236c60dffbd08a3b16441800998d64d978c504f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:44 +0000
Subject: [PATCH 43/43] fix: rp_change_log: reject records of which data is
 missing

property=C06
---
 dtformats/rp_change_log.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dtformats/rp_change_log.py b/dtformats/rp_change_log.py
index 00d66c4..3adc484 100644
--- a/dtformats/rp_change_log.py
+++ b/dtformats/rp_change_log.py
@@ -210,8 +210,10 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         # TODO: refactor to use size hints
         record_size = change_log_entry_record.record_size - data_size
-        record_data = file_object.read(record_size)
         file_offset += data_size
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "record data"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
@@ -335,7 +337,9 @@ class RestorePointChangeLogFile(data_format.BinaryDataFile):
 
         file_offset = file_header_data_size
         record_size = file_header.record_size - file_header_data_size
-        record_data = file_object.read(record_size)
+        record_data = self._ReadData(
+            file_object, file_offset, record_size, "record data"
+        )
 
         if self._debug:
             self._DebugPrintData("Record data", record_data)
-- 
2.43.0

