From a22605aa95aec097ca0c559e9b0531fdeede62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 01/20] fix: size the serialized bloom filter for every bit of
 it

The byte count was rounded with len % 8 instead of 7, so a filter whose size is
1, 2 or 3 modulo 8 indexed past the end of its buffer and close() panicked.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index d047714..6aa3b0f 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -738,7 +738,7 @@ impl BloomFilter {
         let number_of_bytes = if self.bit_set.len() % 8 == 0 {
             self.bit_set.len() / 8
         } else {
-            (self.bit_set.len() + (self.bit_set.len() % 8)) / 8
+            (self.bit_set.len() + 7) / 8
         };
 
         let mut result = vec![0_u8; number_of_bytes];
-- 
2.43.0


From 839b4811a527fc5e8d2cba230ca4175b9821139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 02/20] fix: let the murmur hash of a path wrap like the
 reference does

Multiplying and adding with the overflow-checked operators panicked in debug
builds for paths of 16 bytes and more, and the absolute value of i32::MIN
panicked as well; the hash is defined modulo 2^64 and 2^32.
---
 tsfile-writer/src/writer/mod.rs       |  2 +-
 tsfile-writer/src/writer/murmur128.rs | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 6aa3b0f..70ccee6 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -669,7 +669,7 @@ impl HashFunction {
 
     fn hash(&self, value: &str) -> usize {
         // return Math.abs(Murmur128Hash.hash(value, seed)) % cap;
-        (self._murmur_hash(value, self.seed).abs() % self.cap) as usize
+        (self._murmur_hash(value, self.seed).unsigned_abs() % self.cap as u32) as usize
     }
 }
 
diff --git a/tsfile-writer/src/writer/murmur128.rs b/tsfile-writer/src/writer/murmur128.rs
index 6b3b217..28f8f39 100644
--- a/tsfile-writer/src/writer/murmur128.rs
+++ b/tsfile-writer/src/writer/murmur128.rs
@@ -50,27 +50,27 @@ impl Murmur128 {
         let nblocks = length >> 4; // Process as 128-bit blocks.
         let mut h1 = seed;
         let mut h2 = seed;
-        let c1 = 0x87c37b91114253d5;
-        let c2 = 0x4cf5ad432745937f;
+        let c1: i64 = 0x87c37b91114253d5;
+        let c2: i64 = 0x4cf5ad432745937f;
         // ----------
         // body
         for i in 0..nblocks {
             let mut k1 = Self::get_block(key, offset, i * 2);
             let mut k2 = Self::get_block(key, offset, i * 2 + 1);
-            k1 *= c1;
+            k1 = k1.wrapping_mul(c1);
             k1 = Self::rotl64(k1, 31);
-            k1 *= c2;
+            k1 = k1.wrapping_mul(c2);
             h1 ^= k1;
             h1 = Self::rotl64(h1, 27);
-            h1 += h2;
-            h1 = h1 * 5 + 0x52dce729;
-            k2 *= c2;
+            h1 = h1.wrapping_add(h2);
+            h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
+            k2 = k2.wrapping_mul(c2);
             k2 = Self::rotl64(k2, 33);
-            k2 *= c1;
+            k2 = k2.wrapping_mul(c1);
             h2 ^= k2;
             h2 = Self::rotl64(h2, 31);
-            h2 += h1;
-            h2 = h2 * 5 + 0x38495ab5;
+            h2 = h2.wrapping_add(h1);
+            h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
         }
         // ----------
         // tail
@@ -143,8 +143,8 @@ impl Murmur128 {
         // finalization
         h1 ^= length as i64;
         h2 ^= length as i64;
-        h1 += h2;
-        h2 += h1;
+        h1 = h1.wrapping_add(h2);
+        h2 = h2.wrapping_add(h1);
         h1 = Self::fmix(h1);
         h2 = Self::fmix(h2);
         h1 = ((h1 as i128) + (h2 as i128)) as i64;
-- 
2.43.0


From 414cacc302535f1bdb565f63ac76a812b8a18790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 03/20] fix: write the device index in sorted order

The device map was a HashMap, so the leaf device node listed its entries in a
random order: readers binary-search it, and two runs gave different files.
---
 tsfile-writer/src/writer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 70ccee6..7c3398c 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -507,7 +507,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
     ) -> MetadataIndexNode {
-        let mut device_metadata_index_map: HashMap<String, MetadataIndexNode> = HashMap::new();
+        let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
             if list_metadata.is_empty() {
-- 
2.43.0


From 719428705d7499b5a2e578e19d579e470f5979ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 04/20] fix: do not end a varint at a 0xFF byte

A continuation byte with all seven payload bits set is legal (16383 is FF 7F);
the reader took it for the last byte.
---
 tsfile-writer/src/writer/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/utils.rs b/tsfile-writer/src/writer/utils.rs
index 3eeed38..87d4117 100644
--- a/tsfile-writer/src/writer/utils.rs
+++ b/tsfile-writer/src/writer/utils.rs
@@ -56,7 +56,7 @@ pub fn read_var_u32(buffer: &mut dyn Read) -> Result<u32, TsFileError> {
     let mut value: u32 = 0;
     let mut i: u8 = 0;
     let mut b = read_byte(buffer)?;
-    while b != u8::MAX && (b & 0x80) != 0 {
+    while (b & 0x80) != 0 {
         value |= ((b & 0x7F) as u32) << i;
         i += 7;
         b = read_byte(buffer)?;
-- 
2.43.0


From 98be9be34e0962ac84d619d7d52648f797e28029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 05/20] fix: let TS_2DIFF deltas wrap

The delta of two far-apart values does not fit the value type and the checked
subtraction panicked in debug builds; the format stores it modulo the width.
---
 tsfile-writer/src/writer/encoding/time_encoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tsfile-writer/src/writer/encoding/time_encoder.rs b/tsfile-writer/src/writer/encoding/time_encoder.rs
index 1b2780d..bc4b93a 100644
--- a/tsfile-writer/src/writer/encoding/time_encoder.rs
+++ b/tsfile-writer/src/writer/encoding/time_encoder.rs
@@ -37,7 +37,7 @@ macro_rules! ts2diff_encoder {
 
         impl Encoder for $name {
             fn write(&mut self, value: &IoTDBValue) -> Result<(), TsFileError> {
-                let value = value.try_into()?;
+                let value: $type = value.try_into()?;
                 match self.first_value {
                     None => {
                         self.first_value = Some(value);
@@ -45,7 +45,7 @@ macro_rules! ts2diff_encoder {
                     }
                     Some(_) => {
                         // calc delta
-                        let delta = value - self.previous_value;
+                        let delta = value.wrapping_sub(self.previous_value);
                         // If delta is min, store it
                         if delta < self.min_delta {
                             self.min_delta = delta;
@@ -124,7 +124,7 @@ macro_rules! ts2diff_encoder {
                 let mut delta_block_buffer: Vec<$type> = vec![];
 
                 for delta in &self.values {
-                    delta_block_buffer.push(delta - self.min_delta);
+                    delta_block_buffer.push(delta.wrapping_sub(self.min_delta));
                 }
 
                 let write_width =
-- 
2.43.0


From 75b29dbf9779992305e6e3933fd037ed8a40faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 06/20] fix: take the first point of a page as its first
 minimum and maximum

A series holding only +inf kept f32::MAX as its minimum (and -inf f32::MIN as
its maximum), and a point at i64::MAX never became the first value, because the
initial sentinels were compared instead of the first point being taken.
---
 tsfile-writer/src/writer/statistics.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tsfile-writer/src/writer/statistics.rs b/tsfile-writer/src/writer/statistics.rs
index 2411ce8..35999ab 100644
--- a/tsfile-writer/src/writer/statistics.rs
+++ b/tsfile-writer/src/writer/statistics.rs
@@ -136,18 +136,18 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn merge(&mut self, statistics: &StatisticsStruct<$type, $sum>) {
-                if statistics.ts_first < self.ts_first {
+                if self.count == 0 || statistics.ts_first < self.ts_first {
                     self.ts_first = statistics.ts_first;
                     self.first_value = statistics.first_value;
                 }
-                if statistics.ts_last > self.ts_last {
+                if self.count == 0 || statistics.ts_last > self.ts_last {
                     self.ts_last = statistics.ts_last;
                     self.last_value = statistics.last_value;
                 }
-                if statistics.max_value > self.max_value {
+                if self.count == 0 || statistics.max_value > self.max_value {
                     self.max_value = statistics.max_value;
                 }
-                if statistics.min_value < self.min_value {
+                if self.count == 0 || statistics.min_value < self.min_value {
                     self.min_value = statistics.min_value;
                 }
                 self.count += statistics.count;
@@ -155,18 +155,18 @@ macro_rules! implement_statistics {
             }
 
             pub(crate) fn update(&mut self, timestamp: i64, value: $type) {
-                if timestamp < self.ts_first {
+                if self.count == 0 || timestamp < self.ts_first {
                     self.ts_first = timestamp;
                     self.first_value = value;
                 }
-                if timestamp > self.ts_last {
+                if self.count == 0 || timestamp > self.ts_last {
                     self.ts_last = timestamp;
                     self.last_value = value;
                 }
-                if value < self.min_value {
+                if self.count == 0 || value < self.min_value {
                     self.min_value = value;
                 }
-                if value > self.max_value {
+                if self.count == 0 || value > self.max_value {
                     self.max_value = value;
                 }
                 self.count += 1;
-- 
2.43.0


From fcb161c65b1bd7f533c8f5d4e25834bd871f07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 07/20] fix: report a value of the wrong type instead of
 panicking

The encoders had already taken part of the point when the statistics reached
todo!(), and the error of an unsupported encoding was unwrapped.
---
 tsfile-writer/src/writer/chunk_writer.rs | 6 ++++++
 tsfile-writer/src/writer/group_writer.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 32decf5..4b2e166 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -282,6 +282,12 @@ impl ChunkWriter {
 
     pub fn write(&mut self, timestamp: i64, mut value: IoTDBValue) -> Result<u32, TsFileError> {
         // self.statistics.update(timestamp, &value);
+        match (self.data_type, &value) {
+            (TSDataType::INT32, IoTDBValue::INT(_))
+            | (TSDataType::INT64, IoTDBValue::LONG(_))
+            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
+            _ => return Err(TsFileError::WrongTypeForSeries),
+        }
         match &mut self.current_page_writer {
             None => {
                 // Create a page
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 4c422c3..5bc6107 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -92,7 +92,7 @@ impl<'a> GroupWriter<'a> {
         self.check_is_history_data(measurement_id, timestamp)?;
 
         let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
-            Some(chunk_writer) => chunk_writer.write(timestamp, value).unwrap(),
+            Some(chunk_writer) => chunk_writer.write(timestamp, value)?,
             None => {
                 return Err(TsFileError::IllegalState {
                     source: Some("Unknown measurement id".to_owned()),
-- 
2.43.0


From 1a1a36609dd551238f5b7e236e2b7a31c062fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 08/20] fix: return the error when the file cannot be created

TsFileWriter::new panicked, and a failure to create the directory was dropped.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dc2a561..dac20dd 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -287,9 +287,9 @@ impl<'a> TsFileWriter<'a, WriteWrapper<File>> {
                 return Err(TsFileError::Error { source: None });
             }
         };
-        create_dir_all(folder);
+        create_dir_all(folder)?;
         // Create the file
-        let file = WriteWrapper::new(File::create(filename).expect("create failed"));
+        let file = WriteWrapper::new(File::create(filename)?);
 
         TsFileWriter::new_from_writer(schema, file, config)
     }
-- 
2.43.0


From a1794f67485264d2e03da4b5e6c08909ed3a9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 09/20] fix: write metadata index nodes in full

A short write of the sink left a truncated node: write was used where
write_all is needed, and its result was dropped.
---
 tsfile-writer/src/writer/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 7c3398c..dc57388 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -348,7 +348,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
         };
-        file.write(&[byte]);
+        file.write_all(&[byte])?;
 
         Ok(())
     }
@@ -368,8 +368,8 @@ impl Serializable for MetadataIndexEntry {
         // byteLen += ReadWriteIOUtils.writeVar(name, outputStream);
         // byteLen += ReadWriteIOUtils.write(offset, outputStream);
         // return byteLen;
-        write_str(file, self.name.as_str());
-        file.write(&self.offset.to_be_bytes());
+        write_str(file, self.name.as_str())?;
+        file.write_all(&self.offset.to_be_bytes())?;
         // file.write(&(self.offset as i64).to_be_bytes());
 
         Ok(())
@@ -393,14 +393,14 @@ impl Serializable for MetadataIndexNode {
         // byteLen += ReadWriteIOUtils.write(endOffset, outputStream);
         // byteLen += ReadWriteIOUtils.write(nodeType.serialize(), outputStream);
         // return byteLen;
-        write_var_u32(self.children.len() as u32, file);
+        write_var_u32(self.children.len() as u32, file)?;
 
         for metadata_index_entry in self.children.iter() {
-            metadata_index_entry.serialize(file);
+            metadata_index_entry.serialize(file)?;
         }
 
-        file.write(&self.end_offset.to_be_bytes());
-        self.node_type.serialize(file);
+        file.write_all(&self.end_offset.to_be_bytes())?;
+        self.node_type.serialize(file)?;
 
         Ok(())
     }
-- 
2.43.0


From 898e3dcd272103a41996a0b17aa2fa5f3b9727e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 10/20] fix: keep rejecting out-of-order points after a flush

The rebuilt group writers started with an empty last-time map although the last
times had been saved, so a flush made every series accept old timestamps again.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index dac20dd..4db5271 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -265,7 +265,11 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                                 )
                             })
                             .collect(),
-                        last_time_map: BTreeMap::new(),
+                        last_time_map: self
+                            .non_aligned_timeseries_last_time_map
+                            .get(path)
+                            .cloned()
+                            .unwrap_or_default(),
                     },
                 )
             })
-- 
2.43.0


From 59d5545e0f710743ac614ce0b81b3f9b052d289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 11/20] fix: count the points write_many accepted before it
 failed

When a later data point was rejected, the earlier ones were buffered but not
counted, and close() wrote nothing if no other point followed.
---
 tsfile-writer/src/writer/group_writer.rs  | 8 ++++----
 tsfile-writer/src/writer/tsfile_writer.rs | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index 5bc6107..f58925a 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -16,12 +16,12 @@ impl<'a> GroupWriter<'a> {
         &mut self,
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
-    ) -> Result<u32, TsFileError> {
-        let mut records = 0;
+        record_count: &mut u32,
+    ) -> Result<(), TsFileError> {
         for dp in values {
-            records += self.write(dp.measurement_id, timestamp, dp.value)?;
+            *record_count += self.write(dp.measurement_id, timestamp, dp.value)?;
         }
-        Ok(records)
+        Ok(())
     }
 }
 
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 4db5271..5f79db0 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -158,8 +158,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     ) -> Result<(), TsFileError> {
         match self.group_writers.get_mut(device) {
             Some(group) => {
-                let records_written = group.write_many(timestamp, values)?;
-                self.record_count += records_written;
+                group.write_many(timestamp, values, &mut self.record_count)?;
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-- 
2.43.0


From 0735771085dad0f659a16badfc5f6375481fcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 12/20] fix: key the last-time map with the schema's
 measurement ids

The map kept the caller's string. Through the C API that string belongs to the
caller, who may free it after the call; the next write then compared keys in
freed memory.
---
 tsfile-writer/src/writer/group_writer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index f58925a..e583c46 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -99,7 +99,10 @@ impl<'a> GroupWriter<'a> {
                 });
             }
         };
-        self.last_time_map.insert(measurement_id, timestamp);
+        // Keep the schema's id as key, not the string of the caller
+        if let Some((&id, _)) = self.chunk_writers.get_key_value(measurement_id) {
+            self.last_time_map.insert(id, timestamp);
+        }
         Ok(record_count)
     }
 
@@ -108,10 +111,7 @@ impl<'a> GroupWriter<'a> {
         measurement_id: &'a str,
         timestamp: i64,
     ) -> Result<(), TsFileError> {
-        if !self.last_time_map.contains_key(measurement_id) {
-            self.last_time_map.insert(measurement_id, -1);
-        }
-        if timestamp <= *self.last_time_map.get(measurement_id).unwrap() {
+        if timestamp <= *self.last_time_map.get(measurement_id).unwrap_or(&-1) {
             return Err(TsFileError::OutOfOrderData);
         }
         Ok(())
-- 
2.43.0


From 8d77e81e0acd7ce2c6c4a2c92404af8a1f3c4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 13/20] fix: keep device and measurement apart in the file's
 metadata

The two were joined with a dot and split again at the last one, so a
measurement id containing a dot was indexed under another device, and two
series whose joined paths are equal were merged into one.
---
 tsfile-writer/src/writer/tsfile_io_writer.rs | 49 ++++++--------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index aa85257..2da1f47 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -141,16 +141,14 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         //     .collect();
 
         // Create metadata list
-        let mut chunk_metadata_map: BTreeMap<Path, Vec<ChunkMetadata>> = BTreeMap::new();
+        let mut chunk_metadata_map: BTreeMap<(String, String), Vec<ChunkMetadata>> =
+            BTreeMap::new();
         for group_metadata in &self.chunk_group_metadata_list {
             for chunk_metadata in &group_metadata.chunk_metadata {
-                let device_path = format!(
-                    "{}.{}",
-                    &group_metadata.device_id, &chunk_metadata.measurement_id
+                let path = (
+                    group_metadata.device_id.clone(),
+                    chunk_metadata.measurement_id.clone(),
                 );
-                let path = Path {
-                    path: device_path.clone(),
-                };
                 if !&chunk_metadata_map.contains_key(&path) {
                     chunk_metadata_map.insert(path.clone(), vec![]);
                 }
@@ -177,7 +175,12 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         // Now serialize the Bloom Filter ?!
 
-        let paths = chunk_metadata_map.keys().into_iter().cloned().collect();
+        let paths = chunk_metadata_map
+            .keys()
+            .map(|(device_id, measurement_id)| Path {
+                path: format!("{}.{}", device_id, measurement_id),
+            })
+            .collect();
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
@@ -193,22 +196,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
     fn flush_metadata_index(
         &mut self,
-        chunk_metadata_list: &BTreeMap<Path, Vec<ChunkMetadata>>,
+        chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
     ) -> MetadataIndexNode {
-        let mut last_path: Option<String> = None;
-        for (path, metadata) in chunk_metadata_list.iter() {
-            // TODO do we really need this check here?
-            // ensure that paths are printed in alphabetical order
-            match &last_path {
-                None => last_path = Some(path.path.clone()),
-                Some(p) => {
-                    assert!(
-                        p < &path.path,
-                        "Something went wrong.. footer was written in wrong order"
-                    );
-                }
-            }
-            // Now regular operation starts
+        for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             let data_type = metadata.get(0).unwrap().data_type;
             let serialize_statistic = metadata.len() > 1;
             let mut statistics = Statistics::new(data_type);
@@ -240,22 +230,13 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             };
 
             // Add to the global struct
-            let split = path.path.split('.').collect::<Vec<&str>>();
-            let mut device_id = "".to_owned();
-            for i in 0..split.len() - 1 {
-                if i > 0 {
-                    device_id.push('.');
-                }
-                device_id.push_str(*split.get(i).unwrap());
-            }
-
-            if !self.timeseries_metadata_map.contains_key(&device_id) {
+            if !self.timeseries_metadata_map.contains_key(device_id) {
                 self.timeseries_metadata_map
                     .insert(device_id.clone(), vec![]);
             }
 
             self.timeseries_metadata_map
-                .get_mut(&device_id)
+                .get_mut(device_id)
                 .unwrap()
                 .push(Box::new(timeseries_metadata));
         }
-- 
2.43.0


From edb0141590862b68c83b8f23beb437d823cad7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 14/20] fix: return every I/O and encoding error to the caller

close(), end_file() and most of the flush path returned () or dropped the
Result of a write, so a full disk produced a truncated file and success.
---
 tsfile-writer-c/src/lib.rs                   |  2 +-
 tsfile-writer/src/writer/chunk_writer.rs     | 89 +++++++++++---------
 tsfile-writer/src/writer/group_writer.rs     | 13 +--
 tsfile-writer/src/writer/mod.rs              | 38 ++++-----
 tsfile-writer/src/writer/tsfile_io_writer.rs | 30 ++++---
 tsfile-writer/src/writer/tsfile_writer.rs    | 14 +--
 6 files changed, 97 insertions(+), 89 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 95b0108..82e5448 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -131,6 +131,6 @@ pub extern "C" fn file_writer_write_int32(
 pub extern "C" fn file_writer_close(writer: *mut TsFileWriter<WriteWrapper<File>>) {
     if !writer.is_null() {
         let mut _b = unsafe { Box::from_raw(writer) };
-        _b.close();
+        _b.close().expect("Unable to close the file");
     }
 }
diff --git a/tsfile-writer/src/writer/chunk_writer.rs b/tsfile-writer/src/writer/chunk_writer.rs
index 4b2e166..5293273 100644
--- a/tsfile-writer/src/writer/chunk_writer.rs
+++ b/tsfile-writer/src/writer/chunk_writer.rs
@@ -57,22 +57,23 @@ impl PageWriter {
         max_size
     }
 
-    fn write(&mut self, timestamp: i64, value: &mut IoTDBValue) -> Result<u32, &str> {
-        self.time_encoder.write(&timestamp.into());
-        self.value_encoder.write(value);
+    fn write(&mut self, timestamp: i64, value: &mut IoTDBValue) -> Result<u32, TsFileError> {
+        self.time_encoder.write(&timestamp.into())?;
+        self.value_encoder.write(value)?;
         self.statistics.update(timestamp, value);
         self.point_number += 1;
         Ok(1)
     }
 
-    pub(crate) fn prepare_buffer(&mut self) {
+    pub(crate) fn prepare_buffer(&mut self) -> Result<(), TsFileError> {
         // serialize time_encoder and value encoder
         self.buffer.clear();
         let mut time_buffer = vec![];
         self.time_encoder.serialize(&mut time_buffer);
-        crate::writer::write_var_u32(time_buffer.len() as u32, &mut self.buffer);
-        self.buffer.write_all(time_buffer.as_slice());
+        crate::writer::write_var_u32(time_buffer.len() as u32, &mut self.buffer)?;
+        self.buffer.write_all(time_buffer.as_slice())?;
         self.value_encoder.serialize(&mut self.buffer);
+        Ok(())
     }
 }
 
@@ -177,15 +178,16 @@ impl ChunkWriter {
         }
     }
 
-    pub(crate) fn seal_current_page(&mut self) {
+    pub(crate) fn seal_current_page(&mut self) -> Result<(), TsFileError> {
         match &self.current_page_writer {
             None => {}
             Some(pw) => {
                 if pw.point_number > 0 {
-                    self.write_page_to_buffer();
+                    self.write_page_to_buffer()?;
                 }
             }
         }
+        Ok(())
     }
 
     pub(crate) fn get_serialized_chunk_size(&self) -> u64 {
@@ -208,24 +210,25 @@ impl ChunkWriter {
     pub(crate) fn write_to_file_writer<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) {
-        self.seal_current_page();
-        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics);
+    ) -> Result<(), TsFileError> {
+        self.seal_current_page()?;
+        self.write_all_pages_of_chunk_to_ts_file(file_writer, &self.statistics)?;
 
         // re-init this chunk writer
         self.page_buffer.clear();
         self.num_pages = 0;
         self.first_page_statistics = None;
         self.statistics = Statistics::new(self.data_type);
+        Ok(())
     }
 
     fn write_all_pages_of_chunk_to_ts_file<T: PositionedWrite>(
         &self,
         file_writer: &mut TsFileIoWriter<T>,
         statistics: &Statistics,
-    ) {
+    ) -> Result<(), TsFileError> {
         if statistics.count() == 0 {
-            return;
+            return Ok(());
         }
         file_writer.start_flush_chunk(
             self.measurement_id.clone(),
@@ -236,13 +239,13 @@ impl ChunkWriter {
             self.page_buffer.len() as u32,
             self.num_pages,
             0,
-        );
+        )?;
 
         let data_offset = file_writer.out.get_position();
         log::trace!("Dumping pages at offset {}", data_offset);
 
         // Write the full page
-        file_writer.out.write_all(&self.page_buffer);
+        file_writer.out.write_all(&self.page_buffer)?;
 
         log::trace!("Offset after {}", file_writer.out.get_position());
 
@@ -258,6 +261,7 @@ impl ChunkWriter {
         // }
         //
         file_writer.end_current_chunk();
+        Ok(())
     }
 
     pub(crate) fn estimate_max_series_mem_size(&mut self) -> u32 {
@@ -301,19 +305,19 @@ impl ChunkWriter {
             None => {
                 panic!("Something bad happened!");
             }
-            Some(page_writer) => page_writer.write(timestamp, &mut value).unwrap(),
+            Some(page_writer) => page_writer.write(timestamp, &mut value)?,
         };
-        self.check_page_size_and_may_open_new_page();
+        self.check_page_size_and_may_open_new_page()?;
         Ok(records_written)
     }
 
-    fn check_page_size_and_may_open_new_page(&mut self) {
+    fn check_page_size_and_may_open_new_page(&mut self) -> Result<(), TsFileError> {
         if self.current_page_writer.is_none() {
-            return;
+            return Ok(());
         }
         let page_writer = self.current_page_writer.as_mut().unwrap();
         if page_writer.point_number > MAX_NUMBER_OF_POINTS_IN_PAGE {
-            self.write_page_to_buffer();
+            self.write_page_to_buffer()?;
         } else if page_writer.point_number >= self.value_count_in_one_page_for_next_check {
             let current_page_size = page_writer.estimate_max_mem_size();
 
@@ -324,7 +328,7 @@ impl ChunkWriter {
             PAGE_SIZE_THRESHOLD,
             current_page_size,
             page_writer.point_number);
-                self.write_page_to_buffer();
+                self.write_page_to_buffer()?;
                 self.value_count_in_one_page_for_next_check = MINIMUM_RECORD_COUNT_FOR_CHECK;
             } else {
                 // valueCountInOnePageForNextCheck =
@@ -334,6 +338,7 @@ impl ChunkWriter {
                         * (page_writer.point_number as f32)) as u32;
             }
         }
+        Ok(())
     }
 
     //   private void checkPageSizeAndMayOpenANewPage() {
@@ -363,7 +368,7 @@ impl ChunkWriter {
     // }
     fn write_page_to_buffer(&mut self) -> Result<(), TsFileError> {
         if let Some(page_writer) = self.current_page_writer.as_mut() {
-            page_writer.prepare_buffer();
+            page_writer.prepare_buffer()?;
 
             let buffer_size: u32 = page_writer.buffer.len() as u32;
 
@@ -379,7 +384,7 @@ impl ChunkWriter {
                     match encoder1.compress(&page_writer.buffer, out.as_mut_slice()) {
                         Ok(size) => {
                             let mut reader = &out.as_mut_slice()[..size];
-                            io::copy(&mut reader, &mut compressed_buffer);
+                            io::copy(&mut reader, &mut compressed_buffer)?;
                             size as u32
                         }
                         Err(_) => {
@@ -402,10 +407,10 @@ impl ChunkWriter {
                 // Write page content
                 match self.compression_type {
                     CompressionType::UNCOMPRESSED => {
-                        self.page_buffer.write_all(&page_writer.buffer);
+                        self.page_buffer.write_all(&page_writer.buffer)?;
                     }
                     _ => {
-                        self.page_buffer.write_all(&compressed_buffer);
+                        self.page_buffer.write_all(&compressed_buffer)?;
                     }
                 }
 
@@ -418,24 +423,24 @@ impl ChunkWriter {
 
                 log::trace!("Page Buffer offset: {}", self.page_buffer.get_position());
                 let header_bytes = &temp[0..self.size_without_statistics];
-                self.page_buffer.write_all(header_bytes);
+                self.page_buffer.write_all(header_bytes)?;
                 log::trace!("Page Buffer offset: {}", self.page_buffer.get_position());
                 match &self.first_page_statistics {
-                    Some(stat) => stat.serialize(&mut self.page_buffer),
+                    Some(stat) => stat.serialize(&mut self.page_buffer)?,
                     _ => panic!("This should not happen!"),
                 };
                 log::trace!("Page Buffer offset: {}", self.page_buffer.get_position());
                 let remainder_bytes = &temp[self.size_without_statistics..];
-                self.page_buffer.write_all(remainder_bytes);
+                self.page_buffer.write_all(remainder_bytes)?;
                 log::trace!("Page Buffer offset: {}", self.page_buffer.get_position());
                 // Uncompressed size
-                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
+                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer)?;
                 // Compressed size
-                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer);
+                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer)?;
                 log::trace!("Page Buffer offset: {}", self.page_buffer.get_position());
                 // Write page content
                 log::trace!("Statistics: {:?}", &page_writer.statistics);
-                page_writer.statistics.serialize(&mut self.page_buffer);
+                page_writer.statistics.serialize(&mut self.page_buffer)?;
 
                 log::trace!(
                     "Flushing page at page buffer offset {}",
@@ -447,10 +452,10 @@ impl ChunkWriter {
                 // Write page content
                 match self.compression_type {
                     CompressionType::UNCOMPRESSED => {
-                        self.page_buffer.write_all(&page_writer.buffer);
+                        self.page_buffer.write_all(&page_writer.buffer)?;
                     }
                     _ => {
-                        self.page_buffer.write_all(&compressed_buffer);
+                        self.page_buffer.write_all(&compressed_buffer)?;
                     }
                 }
 
@@ -467,21 +472,21 @@ impl ChunkWriter {
                 self.first_page_statistics = None;
             } else {
                 // Uncompressed size
-                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
+                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer)?;
                 // Compressed size
-                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer);
+                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer)?;
                 // Write page content
-                page_writer.statistics.serialize(&mut self.page_buffer);
+                page_writer.statistics.serialize(&mut self.page_buffer)?;
 
                 let pos_before_flush = self.page_buffer.get_position();
 
                 // Write page content
                 match self.compression_type {
                     CompressionType::UNCOMPRESSED => {
-                        self.page_buffer.write_all(&page_writer.buffer);
+                        self.page_buffer.write_all(&page_writer.buffer)?;
                     }
                     _ => {
-                        self.page_buffer.write_all(&compressed_buffer);
+                        self.page_buffer.write_all(&compressed_buffer)?;
                     }
                 }
 
@@ -591,12 +596,12 @@ impl ChunkMetadata {
         &self,
         file: &mut dyn PositionedWrite,
         serialize_statistics: bool,
-    ) -> io::Result<()> {
-        let result = file.write_all(&self.offset_of_chunk_header.to_be_bytes());
+    ) -> Result<(), TsFileError> {
+        file.write_all(&self.offset_of_chunk_header.to_be_bytes())?;
         if serialize_statistics {
-            self.statistics.serialize(file);
+            self.statistics.serialize(file)?;
         }
-        result
+        Ok(())
     }
 }
 
diff --git a/tsfile-writer/src/writer/group_writer.rs b/tsfile-writer/src/writer/group_writer.rs
index e583c46..5f196f5 100644
--- a/tsfile-writer/src/writer/group_writer.rs
+++ b/tsfile-writer/src/writer/group_writer.rs
@@ -35,18 +35,18 @@ impl<'a> GroupWriter<'a> {
     pub(crate) fn flush_to_filewriter<T: PositionedWrite>(
         &mut self,
         file_writer: &mut TsFileIoWriter<T>,
-    ) -> u64 {
+    ) -> Result<u64, TsFileError> {
         log::info!("Start flush device id: {}", &self.path);
 
-        self.seal_all_chunks();
+        self.seal_all_chunks()?;
 
         let current_chunk_group_size = self.get_current_chunk_group_size();
 
         for (_, series_writer) in self.chunk_writers.iter_mut() {
-            series_writer.write_to_file_writer(file_writer);
+            series_writer.write_to_file_writer(file_writer)?;
         }
 
-        current_chunk_group_size
+        Ok(current_chunk_group_size)
     }
 
     pub(crate) fn update_max_group_mem_size(&mut self) -> u32 {
@@ -62,10 +62,11 @@ impl<'a> GroupWriter<'a> {
         }
         buffer_size
     }
-    fn seal_all_chunks(&mut self) {
+    fn seal_all_chunks(&mut self) -> Result<(), TsFileError> {
         for (_, writer) in self.chunk_writers.iter_mut() {
-            writer.seal_current_page();
+            writer.seal_current_page()?;
         }
+        Ok(())
     }
     fn get_current_chunk_group_size(&mut self) -> u64 {
         // long size = 0;
diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index dc57388..9a5f6be 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -506,7 +506,7 @@ impl MetadataIndexNode {
         device_timeseries_metadata_map: &BTreeMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
         file: &mut dyn PositionedWrite,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         let mut device_metadata_index_map: BTreeMap<String, MetadataIndexNode> = BTreeMap::new();
 
         for (device, list_metadata) in device_timeseries_metadata_map.iter() {
@@ -539,7 +539,7 @@ impl MetadataIndexNode {
                         offset: file.get_position() as usize,
                     });
                 }
-                timeseries_metadata.serialize(file);
+                timeseries_metadata.serialize(file)?;
             }
             // addCurrentIndexNodeToQueue(currentIndexNode, measurementMetadataIndexQueue, out);
             // deviceMetadataIndexMap.put(
@@ -566,10 +566,10 @@ impl MetadataIndexNode {
                     name: s.to_owned(),
                     offset: file.get_position() as usize,
                 });
-                value.serialize(file);
+                value.serialize(file)?;
             }
             metadata_index_node.end_offset = file.get_position() as usize;
-            return metadata_index_node;
+            return Ok(metadata_index_node);
         }
 
         panic!("This is not yet implemented!");
@@ -613,7 +613,7 @@ impl MetadataIndexNode {
 
 trait TimeSeriesMetadatable {
     fn get_measurement_id(&self) -> String;
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()>;
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError>;
 }
 
 impl TimeSeriesMetadatable for TimeSeriesMetadata {
@@ -621,13 +621,13 @@ impl TimeSeriesMetadatable for TimeSeriesMetadata {
         self.measurement_id.clone()
     }
 
-    fn serialize(&self, file: &mut dyn PositionedWrite) -> io::Result<()> {
-        file.write_all(&[self.time_series_metadata_type]);
-        write_str(file, self.measurement_id.as_str());
-        file.write_all(&[self.data_type.serialize()]);
-        write_var_u32(self.chunk_meta_data_list_data_size as u32, file);
-        self.statistics.serialize(file);
-        file.write_all(&self.buffer);
+    fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
+        file.write_all(&[self.time_series_metadata_type])?;
+        write_str(file, self.measurement_id.as_str())?;
+        file.write_all(&[self.data_type.serialize()])?;
+        write_var_u32(self.chunk_meta_data_list_data_size as u32, file)?;
+        self.statistics.serialize(file)?;
+        file.write_all(&self.buffer)?;
         Ok(())
     }
 }
@@ -776,10 +776,10 @@ impl Serializable for BloomFilter {
         // Real
         let bytes = self.serialize_bits();
 
-        write_var_u32(bytes.len() as u32, file);
-        file.write_all(bytes.as_slice());
-        write_var_u32(self.size as u32, file);
-        write_var_u32(self.hash_function_size as u32, file);
+        write_var_u32(bytes.len() as u32, file)?;
+        file.write_all(bytes.as_slice())?;
+        write_var_u32(self.size as u32, file)?;
+        write_var_u32(self.hash_function_size as u32, file)?;
 
         Ok(())
     }
@@ -803,15 +803,15 @@ impl Serializable for TsFileMetadata {
     fn serialize(&self, file: &mut dyn PositionedWrite) -> Result<(), TsFileError> {
         match self.metadata_index.clone() {
             Some(index) => {
-                index.serialize(file);
+                index.serialize(file)?;
             }
             None => {
                 // Write 0 as 4 bytes (u32)
-                file.write_all(&0x00_u32.to_be_bytes());
+                file.write_all(&0x00_u32.to_be_bytes())?;
             }
         }
         // Meta Offset
-        file.write_all(&self.meta_offset.to_be_bytes());
+        file.write_all(&self.meta_offset.to_be_bytes())?;
 
         Ok(())
     }
diff --git a/tsfile-writer/src/writer/tsfile_io_writer.rs b/tsfile-writer/src/writer/tsfile_io_writer.rs
index 2da1f47..9b961b6 100644
--- a/tsfile-writer/src/writer/tsfile_io_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_io_writer.rs
@@ -43,7 +43,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         data_size: u32,
         num_pages: u32,
         mask: u8,
-    ) {
+    ) -> Result<(), TsFileError> {
         self.current_chunk_metadata = Some(ChunkMetadata::new(
             measurement_id.clone(),
             data_type,
@@ -60,7 +60,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
             num_pages,
             mask,
         );
-        header.serialize(&mut self.out);
+        header.serialize(&mut self.out)
     }
 }
 
@@ -112,9 +112,9 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
     //     chunkMetadataList = null;
     //     out.flush();
     //   }
-    pub(crate) fn end_chunk_group(&mut self) {
+    pub(crate) fn end_chunk_group(&mut self) -> Result<(), TsFileError> {
         if self.current_chunk_group_device_id == None || self.chunk_metadata_list.is_empty() {
-            return;
+            return Ok(());
         }
         let device_id = self.current_chunk_group_device_id.unwrap();
         // for chunk_metadata in &self.chunk_metadata_list {
@@ -128,10 +128,11 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         ));
         self.current_chunk_group_device_id = None;
         self.chunk_metadata_list.clear();
-        self.out.flush();
+        self.out.flush()?;
+        Ok(())
     }
 
-    pub(crate) fn end_file(&mut self) {
+    pub(crate) fn end_file(&mut self) -> Result<(), TsFileError> {
         // Statistics
         // Fetch all metadata
         // self.chunk_group_metadata = self
@@ -163,15 +164,15 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
         let meta_offset = self.out.get_position();
 
         // Write Marker 0x02
-        self.out.write_all(&[0x02]);
+        self.out.write_all(&[0x02])?;
 
-        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map);
+        let metadata_index_node = self.flush_metadata_index(&chunk_metadata_map)?;
 
         let ts_file_metadata = TsFileMetadata::new(Some(metadata_index_node), meta_offset);
 
         let footer_index = self.out.get_position();
 
-        ts_file_metadata.serialize(&mut self.out);
+        ts_file_metadata.serialize(&mut self.out)?;
 
         // Now serialize the Bloom Filter ?!
 
@@ -184,20 +185,21 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
 
         let bloom_filter = BloomFilter::build(paths, &self.config);
 
-        bloom_filter.serialize(&mut self.out);
+        bloom_filter.serialize(&mut self.out)?;
 
         let size_of_footer = (self.out.get_position() - footer_index) as u32;
 
-        self.out.write_all(&size_of_footer.to_be_bytes());
+        self.out.write_all(&size_of_footer.to_be_bytes())?;
 
         // Footer
-        self.out.write_all("TsFile".as_bytes());
+        self.out.write_all("TsFile".as_bytes())?;
+        Ok(())
     }
 
     fn flush_metadata_index(
         &mut self,
         chunk_metadata_list: &BTreeMap<(String, String), Vec<ChunkMetadata>>,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         for ((device_id, _), metadata) in chunk_metadata_list.iter() {
             let data_type = metadata.get(0).unwrap().data_type;
             let serialize_statistic = metadata.len() > 1;
@@ -209,7 +211,7 @@ impl<'a, T: PositionedWrite> TsFileIoWriter<'a, T> {
                     continue;
                 }
                 // Serialize
-                m.serialize(&mut buffer, serialize_statistic);
+                m.serialize(&mut buffer, serialize_statistic)?;
 
                 let statistic = &m.statistics;
                 // Update the statistics
diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index 5f79db0..f0a65d5 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -120,10 +120,10 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
-    pub fn close(&mut self) {
+    pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
-        self.flush_all_chunk_groups();
-        self.file_io_writer.end_file();
+        self.flush_all_chunk_groups()?;
+        self.file_io_writer.end_file()
     }
 }
 
@@ -146,7 +146,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 });
             }
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -162,7 +162,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             }
             None => return Err(TsFileError::IllegalState { source: None }),
         }
-        self.check_memory_size_and_may_flush_chunks();
+        self.check_memory_size_and_may_flush_chunks()?;
         Ok(())
     }
 
@@ -206,7 +206,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                 // self.file_writer
                 self.file_io_writer.start_chunk_group(device_id)?;
                 let pos = self.file_io_writer.out.get_position();
-                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer);
+                let data_size = group_writer.flush_to_filewriter(&mut self.file_io_writer)?;
 
                 if self.file_io_writer.out.get_position() - pos != data_size {
                     return Err(TsFileError::IllegalState {
@@ -214,7 +214,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
                     });
                 }
 
-                self.file_io_writer.end_chunk_group();
+                self.file_io_writer.end_chunk_group()?;
 
                 self.non_aligned_timeseries_last_time_map
                     .insert(device_id, group_writer.get_last_time_map());
-- 
2.43.0


From a23afeb40e028d5614685d876be16d5d5a10147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 15/20] fix: build the upper levels of the measurement index

With more than 65536 measurements in one device the internal nodes were filled
from the wrong end of the queue, were never restarted when full, and their
children were not written to the file at all.
---
 tsfile-writer/src/writer/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 9a5f6be..49fc09e 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -433,7 +433,7 @@ impl MetadataIndexNode {
         file: &mut dyn PositionedWrite,
         node_type: MetadataIndexNodeType,
         config: &TsFileConfig,
-    ) -> MetadataIndexNode {
+    ) -> Result<MetadataIndexNode, TsFileError> {
         // int queueSize = metadataIndexNodeQueue.size();
         // MetadataIndexNode metadataIndexNode;
         // MetadataIndexNode currentIndexNode = new MetadataIndexNode(type);
@@ -461,17 +461,20 @@ impl MetadataIndexNode {
 
         while queue_size != 1 {
             for i in 0..queue_size {
-                metadata_index_node = measurement_metadata_index_queue.last().unwrap().clone();
+                metadata_index_node = measurement_metadata_index_queue.remove(0);
                 let device = match metadata_index_node.children.get(0) {
                     None => {
                         panic!("...")
                     }
                     Some(inner) => inner.name.clone(),
                 };
-                measurement_metadata_index_queue.remove(measurement_metadata_index_queue.len() - 1);
                 if current_index_metadata.is_full(config) {
-                    current_index_metadata.end_offset = file.get_position() as usize;
-                    measurement_metadata_index_queue.push(current_index_metadata.clone());
+                    Self::add_current_index_node_to_queue(
+                        &mut current_index_metadata,
+                        &mut measurement_metadata_index_queue,
+                        file,
+                    );
+                    current_index_metadata = MetadataIndexNode::new(node_type.clone());
                 }
                 // ...
                 let name = match metadata_index_node.children.get(0) {
@@ -484,6 +487,7 @@ impl MetadataIndexNode {
                     name,
                     offset: file.get_position() as usize,
                 });
+                metadata_index_node.serialize(file)?;
             }
             // ...
             Self::add_current_index_node_to_queue(
@@ -498,7 +502,7 @@ impl MetadataIndexNode {
             };
             queue_size = measurement_metadata_index_queue.len();
         }
-        return measurement_metadata_index_queue.get(0).unwrap().clone();
+        Ok(measurement_metadata_index_queue.remove(0))
     }
 
     #[allow(unused_variables)]
@@ -554,7 +558,7 @@ impl MetadataIndexNode {
                 file,
                 MetadataIndexNodeType::InternalMeasurement,
                 config,
-            );
+            )?;
             device_metadata_index_map.insert(device.clone(), root_node);
         }
 
-- 
2.43.0


From 29d6be215c640dd87be9a30c753ad8ab8efb9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 16/20] fix: index files with more than 256 devices

close() panicked with "not yet implemented" after all the data was written, so
the file had no metadata; build the internal device levels like the
measurement ones.
---
 tsfile-writer/src/writer/mod.rs | 67 +++++++++++++++++----------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/tsfile-writer/src/writer/mod.rs b/tsfile-writer/src/writer/mod.rs
index 49fc09e..542b800 100644
--- a/tsfile-writer/src/writer/mod.rs
+++ b/tsfile-writer/src/writer/mod.rs
@@ -328,6 +328,7 @@ enum MetadataIndexNodeType {
     LeafMeasurement,
     InternalMeasurement,
     LeafDevice,
+    InternalDevice,
 }
 
 impl Serializable for MetadataIndexNodeType {
@@ -347,6 +348,7 @@ impl Serializable for MetadataIndexNodeType {
             MetadataIndexNodeType::LeafMeasurement => 0x03,
             MetadataIndexNodeType::InternalMeasurement => 0x02,
             LeafDevice => 0x01,
+            MetadataIndexNodeType::InternalDevice => 0x00,
         };
         file.write_all(&[byte])?;
 
@@ -576,39 +578,38 @@ impl MetadataIndexNode {
             return Ok(metadata_index_node);
         }
 
-        panic!("This is not yet implemented!");
-
-        // // if not exceed the max child nodes num, ignore the device index and directly point to the
-        // // measurement
-        // if (deviceMetadataIndexMap.size() <= config.getMaxDegreeOfIndexNode()) {
-        //   MetadataIndexNode metadataIndexNode =
-        //       new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //   for (Map.Entry<String, MetadataIndexNode> entry : deviceMetadataIndexMap.entrySet()) {
-        //     metadataIndexNode.addEntry(new MetadataIndexEntry(entry.getKey(), out.getPosition()));
-        //     entry.getValue().serializeTo(out.wrapAsStream());
-        //   }
-        //   metadataIndexNode.setEndOffset(out.getPosition());
-        //   return metadataIndexNode;
-        // }
-        //
-        // // else, build level index for devices
-        // Queue<MetadataIndexNode> deviceMetadataIndexQueue = new ArrayDeque<>();
-        // MetadataIndexNode currentIndexNode = new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //
-        // for (Map.Entry<String, MetadataIndexNode> entry : deviceMetadataIndexMap.entrySet()) {
-        //   // when constructing from internal node, each node is related to an entry
-        //   if (currentIndexNode.isFull()) {
-        //     addCurrentIndexNodeToQueue(currentIndexNode, deviceMetadataIndexQueue, out);
-        //     currentIndexNode = new MetadataIndexNode(MetadataIndexNodeType.LEAF_DEVICE);
-        //   }
-        //   currentIndexNode.addEntry(new MetadataIndexEntry(entry.getKey(), out.getPosition()));
-        //   entry.getValue().serializeTo(out.wrapAsStream());
-        // }
-        // addCurrentIndexNodeToQueue(currentIndexNode, deviceMetadataIndexQueue, out);
-        // MetadataIndexNode deviceMetadataIndexNode =
-        //     generateRootNode(deviceMetadataIndexQueue, out, MetadataIndexNodeType.INTERNAL_DEVICE);
-        // deviceMetadataIndexNode.setEndOffset(out.getPosition());
-        // return deviceMetadataIndexNode;
+        // else, build level index for devices
+        let mut device_metadata_index_queue: Vec<MetadataIndexNode> = vec![];
+        let mut current_index_node = MetadataIndexNode::new(LeafDevice);
+
+        for (device, value) in device_metadata_index_map {
+            if current_index_node.is_full(config) {
+                Self::add_current_index_node_to_queue(
+                    &mut current_index_node,
+                    &mut device_metadata_index_queue,
+                    file,
+                );
+                current_index_node = MetadataIndexNode::new(LeafDevice);
+            }
+            current_index_node.children.push(MetadataIndexEntry {
+                name: device,
+                offset: file.get_position() as usize,
+            });
+            value.serialize(file)?;
+        }
+        Self::add_current_index_node_to_queue(
+            &mut current_index_node,
+            &mut device_metadata_index_queue,
+            file,
+        );
+        let mut device_metadata_index_node = Self::generate_root_node(
+            device_metadata_index_queue,
+            file,
+            MetadataIndexNodeType::InternalDevice,
+            config,
+        )?;
+        device_metadata_index_node.end_offset = file.get_position() as usize;
+        Ok(device_metadata_index_node)
     }
     fn is_full(&self, config: &TsFileConfig) -> bool {
         self.children.len() >= config.max_degree_of_index_node
-- 
2.43.0


From fcc8c95042505378bb7509a569a0b130d9673da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 17/20] fix: refuse to write to or close a closed file

A second close appended another metadata section and footer behind the first,
and a point written after close was accepted and never stored.
---
 tsfile-writer/src/writer/tsfile_writer.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tsfile-writer/src/writer/tsfile_writer.rs b/tsfile-writer/src/writer/tsfile_writer.rs
index f0a65d5..ce702a9 100644
--- a/tsfile-writer/src/writer/tsfile_writer.rs
+++ b/tsfile-writer/src/writer/tsfile_writer.rs
@@ -113,6 +113,7 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
     timeseries_metadata_map: HashMap<String, Vec<Box<dyn TimeSeriesMetadatable>>>,
     record_count: u32,
     record_count_for_next_mem_check: u32,
+    closed: bool,
     non_aligned_timeseries_last_time_map: BTreeMap<&'a str, BTreeMap<&'a str, i64>>,
     pub schema: Schema<'a>,
     #[allow(dead_code)]
@@ -122,9 +123,20 @@ pub struct TsFileWriter<'a, T: PositionedWrite> {
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
     pub fn close(&mut self) -> Result<(), TsFileError> {
         log::info!("start close file");
+        self.check_open()?;
+        self.closed = true;
         self.flush_all_chunk_groups()?;
         self.file_io_writer.end_file()
     }
+
+    fn check_open(&self) -> Result<(), TsFileError> {
+        if self.closed {
+            return Err(TsFileError::IllegalState {
+                source: Some("The file is already closed".to_owned()),
+            });
+        }
+        Ok(())
+    }
 }
 
 impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
@@ -135,6 +147,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         value: IoTDBValue,
     ) -> Result<(), TsFileError> {
+        self.check_open()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 let records_written = group.write(measurement_id, timestamp, value)?;
@@ -156,6 +169,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
         timestamp: i64,
         values: impl IntoIterator<Item = DataPoint<'a>>,
     ) -> Result<(), TsFileError> {
+        self.check_open()?;
         match self.group_writers.get_mut(device) {
             Some(group) => {
                 group.write_many(timestamp, values, &mut self.record_count)?;
@@ -343,6 +357,7 @@ impl<'a, T: PositionedWrite> TsFileWriter<'a, T> {
             timeseries_metadata_map: HashMap::new(),
             record_count: 0,
             record_count_for_next_mem_check: 100,
+            closed: false,
             non_aligned_timeseries_last_time_map: BTreeMap::new(),
             config,
             file_io_writer: io_writer,
-- 
2.43.0


From 7720ff1348c05383fff74e2a372756684f2ff079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 18/20] fix: stop a sync when the receiver reports a failure

A refused handshake counted as connected, a data file whose digest did not
match was reported as synced, and the file was read from its remote name
instead of its local one; transport errors panicked.
---
 tsfile-writer/src/sync/sync_sender.rs | 65 +++++++++++++--------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/tsfile-writer/src/sync/sync_sender.rs b/tsfile-writer/src/sync/sync_sender.rs
index 8224cda..c97c447 100644
--- a/tsfile-writer/src/sync/sync_sender.rs
+++ b/tsfile-writer/src/sync/sync_sender.rs
@@ -14,7 +14,9 @@ use crate::writer::errors::TsFileError;
 use crate::writer::Schema;
 
 use crate::sync::mlog::MLog;
-use crate::sync::sync::{ConfirmInfo, SyncServiceSyncClient, TSyncServiceSyncClient};
+use crate::sync::sync::{
+    ConfirmInfo, SyncServiceSyncClient, SyncStatus, TSyncServiceSyncClient,
+};
 
 // TODO what is this?
 const PARTITION_INTERVAL: i64 = 604800;
@@ -36,6 +38,7 @@ pub enum SyncSenderError {
     UnableGenerateUuid,
     ConnectionError,
     HandshakeError,
+    SyncError,
 }
 
 impl From<thrift::Error> for SyncSenderError {
@@ -118,11 +121,19 @@ impl
         let result = self.client.check(confirm);
 
         match result {
-            Ok(_) => Ok(()),
-            Err(_) => Err(SyncSenderError::HandshakeError),
+            Ok(status) if status.code >= 0 => Ok(()),
+            _ => Err(SyncSenderError::HandshakeError),
         }
     }
 
+    /// The receiver reports failures with a negative code
+    fn check_status(status: SyncStatus) -> Result<(), SyncSenderError> {
+        if status.code < 0 {
+            return Err(SyncSenderError::SyncError);
+        }
+        Ok(())
+    }
+
     #[allow(dead_code)]
     fn sync(
         &mut self,
@@ -130,51 +141,39 @@ impl
         storage_group: &str,
         schema: Schema,
     ) -> Result<(), SyncSenderError> {
-        self.client.start_sync().expect("");
-        self.client.init(std::string::String::from(storage_group))?;
+        Self::check_status(self.client.start_sync()?)?;
+        Self::check_status(self.client.init(std::string::String::from(storage_group))?)?;
 
         // First sync a schema
-        self.client
-            .init_sync_data(std::string::String::from("mlog.bin"))?;
+        Self::check_status(
+            self.client
+                .init_sync_data(std::string::String::from("mlog.bin"))?,
+        )?;
 
         // Create the mlog
         let mlog_bytes: Vec<u8> =
-            Self::write_mlog(storage_group, schema).expect("Unable to write mlog");
+            Self::write_mlog(storage_group, schema).map_err(|_| SyncSenderError::SyncError)?;
 
-        self.client.sync_data(mlog_bytes.clone())?;
+        Self::check_status(self.client.sync_data(mlog_bytes.clone())?)?;
 
         let digest = Self::calculate_digest(&mlog_bytes);
         println!("Digest of Sender: {}", digest);
 
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-                if result.code == -1 {
-                    panic!("Digest does not match!")
-                }
-            }
-            _ => {
-                panic!("Error on digest!")
-            }
-        }
+        let result = self.client.check_data_digest(digest)?;
+        println!("Result: {}, {}", result.code, result.msg);
+        Self::check_status(result)?;
 
+        let bytes = fs::read(filename).map_err(|_| SyncSenderError::SyncError)?;
         let filename = format!("0_0_{}", filename); // 1654074550252-1-0-0.tsfile";
 
-        self.client.init_sync_data(filename.to_string()).expect("");
-        let bytes = fs::read(filename).expect("");
-        self.client.sync_data(bytes.clone()).expect("");
+        Self::check_status(self.client.init_sync_data(filename)?)?;
+        Self::check_status(self.client.sync_data(bytes.clone())?)?;
         let digest = Self::calculate_digest(&bytes);
         println!("Digest of Sender: {}", digest);
-        match self.client.check_data_digest(digest) {
-            Ok(result) => {
-                println!("Result: {}, {}", result.code, result.msg);
-            }
-            _ => {
-                println!("Error on digest!")
-            }
-        }
-        self.client.end_sync()?;
-        Ok(())
+        let result = self.client.check_data_digest(digest)?;
+        println!("Result: {}, {}", result.code, result.msg);
+        Self::check_status(result)?;
+        Self::check_status(self.client.end_sync()?)
     }
 
     #[allow(dead_code)]
-- 
2.43.0


From 31aa864cd51a9a9f67ef44c708eb5f57504f946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 19/20] fix: do not keep the C caller's strings, check the
 schema pointer

schema_simple stored pointers into the caller's buffers, which need not outlive
the call, and file_writer_new used a null schema.
---
 tsfile-writer-c/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tsfile-writer-c/src/lib.rs b/tsfile-writer-c/src/lib.rs
index 82e5448..13fa3ae 100644
--- a/tsfile-writer-c/src/lib.rs
+++ b/tsfile-writer-c/src/lib.rs
@@ -28,8 +28,10 @@ pub extern "C" fn schema_simple<'a>(
 
         CStr::from_ptr(measurement_id)
     };
-    let device_id = device_id.to_str().unwrap();
-    let measurement_id = measurement_id.to_str().unwrap();
+    // The schema borrows its ids for as long as a writer uses it, the strings of the caller may be
+    // gone by then
+    let device_id: &'a str = Box::leak(device_id.to_str().unwrap().into());
+    let measurement_id: &'a str = Box::leak(measurement_id.to_str().unwrap().into());
 
     let data_type = data_type
         .try_into()
@@ -69,6 +71,9 @@ pub extern "C" fn file_writer_new(
 
         CStr::from_ptr(filename)
     };
+    if schema.is_null() {
+        panic!("Null schema given!")
+    }
     let schema = unsafe { Box::from_raw(schema) };
     let b = Box::new(
         TsFileWriter::new(
-- 
2.43.0


From 39122f5cf2a0eb4fbd90dffff891dc94c277c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:37 +0000
Subject: [PATCH 20/20] fix: read only field -1 of check_args as the confirm
 info, skip other fields

---
 tsfile-writer/src/sync/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tsfile-writer/src/sync/sync.rs b/tsfile-writer/src/sync/sync.rs
index 7a2bf70..ca90be9 100644
--- a/tsfile-writer/src/sync/sync.rs
+++ b/tsfile-writer/src/sync/sync.rs
@@ -869,7 +869,7 @@ impl SyncServiceCheckArgs {
       }
       let field_id = field_id(&field_ident)?;
       match field_id {
-        neg1 => {
+        -1 => {
           let val = ConfirmInfo::read_from_in_protocol(i_prot)?;
           f_neg1 = Some(val);
         },
-- 
2.43.0

