From a10afa9f57af662b4e2cc24840754c3a3475ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 1/9] fix: stop following shadow copy blocks when their chain
 loops

---
 dfir_ntfs/ShadowCopy.py | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 81b6fda..565e44a 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -702,7 +702,10 @@ class ShadowParser(object):
 		self.control_blocks = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -819,7 +822,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -850,7 +856,10 @@ class ShadowParser(object):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			bitmap_block_buf = self.volume_object.read(0x4000)
 
@@ -871,7 +880,10 @@ class ShadowParser(object):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			location_description_block_buf = self.volume_object.read(0x4000)
 
@@ -910,7 +922,10 @@ class ShadowParser(object):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			diff_area_block_buf = self.volume_object.read(0x4000)
 
@@ -1315,7 +1330,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		self.control_blocks_storage = []
 
 		curr_offset = self.start_block.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_object.seek(self.volume_offset + curr_offset)
 			control_block_buf = self.volume_object.read(0x4000)
 
@@ -1328,7 +1346,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 			curr_offset = control_block.get_next_control_block_volume_offset()
 
 		curr_offset = self.start_block_storage.get_first_control_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			control_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1432,7 +1453,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1463,7 +1487,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		bytes_count = bits_count // 8
 
 		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			bitmap_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1484,7 +1511,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		items = []
 
 		curr_offset = self.current_cbi3.get_location_description_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			location_description_block_buf = self.volume_storage_object.read(0x4000)
 
@@ -1523,7 +1553,10 @@ class ShadowParserTwoVolumes(ShadowParser):
 		forward_context = dict()
 
 		curr_offset = self.current_cbi3.get_diff_area_block_offset()
-		while curr_offset != 0:
+		visited_offsets = set()
+		while curr_offset != 0 and curr_offset not in visited_offsets: # Also, stop if a loop is encountered.
+			visited_offsets.add(curr_offset)
+
 			self.volume_storage_object.seek(self.volume_storage_offset + curr_offset)
 			diff_area_block_buf = self.volume_storage_object.read(0x4000)
 
-- 
2.43.0


From 710d2f00a2a07648a770a3b560d71aa4df27c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 2/9] fix: return None for a WSL time stamp out of range

---
 dfir_ntfs/WSL.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dfir_ntfs/WSL.py b/dfir_ntfs/WSL.py
index c88fd03..3749a56 100644
--- a/dfir_ntfs/WSL.py
+++ b/dfir_ntfs/WSL.py
@@ -9,7 +9,10 @@ import datetime
 def DecodeUnixtime(TimestampSeconds, TimestampNanoseconds):
 	"""Decode the Unixtime timestamp and return the datetime object."""
 
-	return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	try:
+		return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds = TimestampSeconds) + datetime.timedelta(microseconds = TimestampNanoseconds / 1000)
+	except OverflowError:
+		return
 
 class LXXATTR(object):
 	"""This class is used to access Linux extended attributes stored in the LXXATTR extended attribute."""
-- 
2.43.0


From b92bc5e4d87b4c3d8dd2ccc7423bce94a3edd9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 3/9] fix: compare directory entries without an mtime in exFAT

---
 dfir_ntfs/addons/exFAT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 7cc3e53..6a4a97d 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1247,7 +1247,7 @@ class FileSystemParser(object):
 								reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 							else:
 								ts = reallocated_directories_metadata[dir_entry.first_cluster][0]
-								if dir_entry.mtime > ts:
+								if dir_entry.mtime is not None and (ts is None or dir_entry.mtime > ts):
 									reallocated_directories_metadata[dir_entry.first_cluster] = (dir_entry.mtime, dir_entry.size, dir_entry.no_fat_chain)
 
 							continue
-- 
2.43.0


From a2dd1f99eb22d7348c186883be10726821f2a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 4/9] fix: skip an exFAT directory with an invalid size instead
 of ending the walk

---
 dfir_ntfs/addons/exFAT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfir_ntfs/addons/exFAT.py b/dfir_ntfs/addons/exFAT.py
index 6a4a97d..bc5192d 100644
--- a/dfir_ntfs/addons/exFAT.py
+++ b/dfir_ntfs/addons/exFAT.py
@@ -1259,7 +1259,7 @@ class FileSystemParser(object):
 						except (FileSystemException, ValueError):
 							continue
 
-						if len(new_buf) == 0: # This directory is really empty, skip it.
+						if len(new_buf) == 0 or len(new_buf) % 512 != 0: # This directory is really empty (or its size is invalid), skip it.
 							continue
 
 						for item in process_buf(new_buf, parent_path + PATH_SEPARATOR + dir_entry.name, set(stack)):
@@ -1291,7 +1291,7 @@ class FileSystemParser(object):
 				except (FileSystemException, ValueError):
 					continue
 
-				if len(buf) < 512 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
+				if len(buf) < 512 or len(buf) % 512 != 0 or buf[0] != DE_FILE or buf[32] != DE_STREAM_EXTENSION or buf[64] != DE_FILE_NAME:
 					continue
 
 				for item in process_buf(buf, '<Orphan directory {}>'.format(first_cluster), set([])):
-- 
2.43.0


From 252bca1fa03a815ab77082f3313727ee0999e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 5/9] fix: do not yield orphan long entries with an empty name

---
 dfir_ntfs/addons/FAT.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/addons/FAT.py b/dfir_ntfs/addons/FAT.py
index 5ccac7a..1cef584 100644
--- a/dfir_ntfs/addons/FAT.py
+++ b/dfir_ntfs/addons/FAT.py
@@ -1240,7 +1240,8 @@ class DirectoryEntries(object):
 				if not is_long_entry_valid:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					# Reset the long name stash and try this entry as the first one in the set.
 					long_entities = []
@@ -1313,7 +1314,8 @@ class DirectoryEntries(object):
 				else:
 					if len(long_entities) > 0:
 						long_name_partial = BuildLongName(long_entities)
-						yield OrphanLongEntry(long_name_partial)
+						if long_name_partial is not None:
+							yield OrphanLongEntry(long_name_partial)
 
 					long_name = None
 			else:
@@ -1445,7 +1447,8 @@ class DirectoryEntries(object):
 
 			if len(long_entities) > 0:
 				long_name_partial = BuildLongName(long_entities)
-				yield OrphanLongEntry(long_name_partial)
+				if long_name_partial is not None:
+					yield OrphanLongEntry(long_name_partial)
 
 	def __str__(self):
 		return 'DirectoryEntries'
-- 
2.43.0


From d260faddf45c046e4f3f631f487bd13ebabdf112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 6/9] fix: set use_dumps when a log file has no NTFS restart
 area

---
 dfir_ntfs/LogFile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index ed3da2e..a93fa1b 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -716,6 +716,7 @@ class LogFileParser(object):
 
 		self.cluster_size = CLUSTER_SIZE_DEFAULT # Adjusted in the 'collect_lsns' method.
 		self.oat_version = 1 # Adjusted in the 'collect_lsns' method.
+		self.use_dumps = True # Adjusted in the 'collect_lsns' method.
 
 	def lsn_to_offset(self, lsn):
 		"""Convert a log sequence number (LSN) to a file offset, return a (log_page_number, offset_in_page) tuple."""
-- 
2.43.0


From 7e95d646aacf2ed06d2bfb91079d078c7c7b5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 7/9] fix: a damaged NTFS log record does not end the listing

---
 dfir_ntfs/LogFile.py | 30 ++++++++++++++++++++----------
 ntfs_parser          |  5 ++++-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/dfir_ntfs/LogFile.py b/dfir_ntfs/LogFile.py
index a93fa1b..ce140fd 100644
--- a/dfir_ntfs/LogFile.py
+++ b/dfir_ntfs/LogFile.py
@@ -1350,18 +1350,18 @@ class LogFileParser(object):
 				client_data = self.get_client_data(lsn)
 				try:
 					client_data_decoded = client_data.data_decoded()
-				except NotImplementedError:
+				except (NotImplementedError, ClientException):
 					pass
 				else:
 					if type(client_data_decoded) is NTFSLogRecord:
 						redo_op = client_data_decoded.get_redo_operation()
 						if redo_op == OpenNonresidentAttribute:
-							attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
-
 							oat_index = client_data_decoded.get_target_attribute()
-							oat_entry_data = client_data_decoded.get_redo_data()
 
 							try:
+								attribute_name = client_data_decoded.get_undo_data().decode('utf-16le', errors = 'replace')
+								oat_entry_data = client_data_decoded.get_redo_data()
+
 								if self.oat_version >= 1:
 									oat_entry = OpenAttributeEntry1(oat_entry_data)
 								else:
@@ -1372,13 +1372,23 @@ class LogFileParser(object):
 							else:
 								oat[oat_index] = (oat_entry.get_file_reference(), attribute_name)
 						elif self.use_dumps and redo_op == OpenAttributeTableDump:
-							old_oat_dump = latest_oat_dump
-							latest_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
-							oat_dump_count += 1
+							try:
+								new_oat_dump = OpenAttributeTableDumpParser(client_data_decoded.get_redo_data(), self.oat_version)
+							except ClientException:
+								pass
+							else:
+								old_oat_dump = latest_oat_dump
+								latest_oat_dump = new_oat_dump
+								oat_dump_count += 1
 						elif self.use_dumps and redo_op == AttributeNamesDump:
-							old_an_dump = latest_an_dump
-							latest_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
-							an_dump_count += 1
+							try:
+								new_an_dump = AttributeNamesDumpParser(client_data_decoded.get_redo_data())
+							except ClientException:
+								pass
+							else:
+								old_an_dump = latest_an_dump
+								latest_an_dump = new_an_dump
+								an_dump_count += 1
 
 						client_data_decoded.oat = oat.copy()
 
diff --git a/ntfs_parser b/ntfs_parser
index 4e605ff..f7a9eaa 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -715,7 +715,10 @@ def process_log():
 		if type(log_item) is LogFile.NTFSRestartArea:
 			output_data = process_restart_area(log_item)
 		elif type(log_item) is LogFile.NTFSLogRecord:
-			output_data = process_log_record(log_item)
+			try:
+				output_data = process_log_record(log_item)
+			except LogFile.ClientException as e:
+				output_data = 'LSN: {}\nInvalid log record: {}'.format(log_item.lsn, e)
 
 		output_file.write(output_data)
 		output_file.write('\n\n---\n\n')
-- 
2.43.0


From 3d52eec274e62d3b606f577b888c8ab67255d1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 8/9] fix: a truncated USN file name does not end the listing

---
 ntfs_parser | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ntfs_parser b/ntfs_parser
index f7a9eaa..63ca2c3 100755
--- a/ntfs_parser
+++ b/ntfs_parser
@@ -308,7 +308,10 @@ def process_usn():
 
 		if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 			r_timestamp = format_timestamp(usn_record.get_timestamp())
-			fr_file_name = usn_record.get_file_name()
+			try:
+				fr_file_name = usn_record.get_file_name()
+			except ValueError: # The file name is truncated.
+				fr_file_name = ''
 		else:
 			r_timestamp = ''
 			fr_file_name = ''
@@ -699,7 +702,10 @@ def process_log():
 
 						if type(usn_record) is USN.USN_RECORD_V2_OR_V3:
 							output_lines.append(' Timestamp: {}'.format(format_timestamp(usn_record.get_timestamp())))
-							output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							try:
+								output_lines.append(' File name: {}'.format(usn_record.get_file_name()))
+							except ValueError:
+								output_lines.append(' File name is truncated')
 
 						output_lines.append('')
 
-- 
2.43.0


From d1b8c273e798ff6088a4bb5bdb64a5dff53ad42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 9/9] fix: do not read beyond the end of a fragmented file or a
 snapshot

---
 dfir_ntfs/MFT.py        | 2 +-
 dfir_ntfs/ShadowCopy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfir_ntfs/MFT.py b/dfir_ntfs/MFT.py
index 5b6cfdd..4e40157 100644
--- a/dfir_ntfs/MFT.py
+++ b/dfir_ntfs/MFT.py
@@ -1455,7 +1455,7 @@ class FragmentedFile(object):
 	def read(self, size = None):
 		"""The read() method for a file in a volume."""
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > self.file_size - self.current_offset_in_file: # Do not read beyond the end of the file.
 			size = self.file_size - self.current_offset_in_file
 
 		if size <= 0 or self.current_offset_in_file >= self.file_size: # Nothing to read.
diff --git a/dfir_ntfs/ShadowCopy.py b/dfir_ntfs/ShadowCopy.py
index 565e44a..f26a85f 100644
--- a/dfir_ntfs/ShadowCopy.py
+++ b/dfir_ntfs/ShadowCopy.py
@@ -1236,7 +1236,7 @@ class ShadowParser(object):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
@@ -1798,7 +1798,7 @@ class ShadowParserTwoVolumes(ShadowParser):
 		if self.volume_size is not None and volume_size > self.volume_size:
 			volume_size = self.volume_size
 
-		if size is None or size < 0:
+		if size is None or size < 0 or size > volume_size - self.current_offset: # Do not read beyond the end of the volume.
 			size = volume_size - self.current_offset
 
 		if size <= 0 or self.current_offset >= volume_size: # Nothing to read.
-- 
2.43.0

