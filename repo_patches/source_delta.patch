From 37e43cbc3ef1f158119a12f93d09755331a66a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:57 +0000
Subject: [PATCH 01/32] fix: RGB12 version 1 upper bytes were lossy

The decompressor or-ed the new upper byte into the previous one instead of
replacing it, and the compressor coded the upper blue byte with the context
of the upper green byte while the decompressor (and LASzip) use its own.
---
 src/las/rgb.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From 777a8d9812fd643829754e04d0058edd41e7496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 02/32] fix: predictors must wrap instead of overflowing

---
 src/las/gps.rs        | 67 +++++++++++++++++++++++--------------------
 src/las/point0.rs     |  8 +++---
 src/las/point6.rs     | 17 +++++------
 src/las/wavepacket.rs | 10 +++++--
 4 files changed, 56 insertions(+), 46 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..68be49c 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -85,7 +85,7 @@ impl Add<f64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: f64) -> Self::Output {
-        Self::from(self.value + rhs.to_bits() as i64)
+        Self::from(self.value.wrapping_add(rhs.to_bits() as i64))
     }
 }
 
@@ -93,19 +93,19 @@ impl Add<i64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: i64) -> Self::Output {
-        Self::from(self.value + rhs)
+        Self::from(self.value.wrapping_add(rhs))
     }
 }
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
@@ -578,12 +582,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -644,12 +648,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -784,8 +788,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -889,10 +894,10 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -947,10 +952,10 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             self.ic_gps_time.decompress(
                                 &mut decoder,
                                 *self
@@ -1089,10 +1094,10 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..13323a2 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -796,9 +796,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1443,10 +1444,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
@@ -1495,9 +1495,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..932609d 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,9 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 = current_item
+                .offset
+                .wrapping_sub(self.last_wavepacket.offset) as i64;
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
-- 
2.43.0


From 00651646e0997eea7ef36a451c2ad65de9301649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 03/32] fix: wave packets of 2 GiB and more corrupted the next
 offset

---
 src/las/wavepacket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 932609d..db90506 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -295,7 +295,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
-- 
2.43.0


From 0662572bfbb9cd5bf78a8f21260ddd9e5239f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 04/32] fix: -0.0 and +0.0 were confused by the layered
 compressors

---
 src/las/point6.rs     |  4 +++-
 src/las/wavepacket.rs | 12 +++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 13323a2..b873732 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1666,7 +1666,9 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            // Compare the bits, so that going from +0.0 to -0.0 is a change
+            let gps_time_changed =
+                last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index db90506..0d8dc6c 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -16,6 +16,16 @@ pub struct LasWavepacket {
 
 impl LasWavepacket {
     pub(crate) const SIZE: usize = 29;
+
+    /// Unlike `==`, tells apart floating point values
+    /// that compare equal but are encoded differently (-0.0 and +0.0)
+    fn has_same_bits(&self, other: &Self) -> bool {
+        let mut bytes = [0u8; Self::SIZE];
+        let mut other_bytes = [0u8; Self::SIZE];
+        self.pack_into(&mut bytes);
+        other.pack_into(&mut other_bytes);
+        bytes == other_bytes
+    }
 }
 
 impl Packable for LasWavepacket {
@@ -636,7 +646,7 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            if !self.last_wavepackets[last_idx].has_same_bits(&current_wavepacket) {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From 7b192da36017a47eba56369be1243915e0ca5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 05/32] fix: empty chunks were written, which no reader can
 read past

---
 src/laszip/parallel/compression.rs   |  2 ++
 src/laszip/sequential/compression.rs | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..1a7f3fd 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -331,6 +331,8 @@ where
 
     let chunks = chunks
         .into_par_iter()
+        // There is no such thing as an empty chunk: its first point is always stored
+        .filter(|data| !data.as_ref().is_empty())
         .map(|data| {
             let slc = data.as_ref();
             let mut output = Cursor::new(Vec::<u8>::new());
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..858dde3 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -138,8 +138,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         if self.chunk_start_pos == 0 {
             self.reserve_offset_to_chunk_table()?;
         }
-        self.record_compressor.done()?;
-        self.update_chunk_table()?;
+        if self.current_chunk_entry.point_count != 0 {
+            self.record_compressor.done()?;
+            self.update_chunk_table()?;
+        }
         let stream = self.record_compressor.get_mut();
         chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
         self.chunk_table.write_to(stream, &self.vlr)?;
@@ -225,6 +227,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.current_chunk_entry.point_count == 0 {
+            // There is no such thing as an empty chunk: its first point is always stored
+            return Ok(());
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From ab2c772c18b3ff78a9a8f2e73bfdf0a619daa0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 06/32] fix: sequential seek was wrong with variable-size
 chunks and past the end

---
 src/laszip/sequential/decompression.rs | 34 ++++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..e4f41a5 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -201,8 +201,12 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             .map(|(idx, offset)| (idx, offset + data_start));
 
         if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
-            self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
+            self.current_chunk = chunk_of_point;
+            let points_before_chunk = chunk_table[..chunk_of_point]
+                .iter()
+                .map(|entry| entry.point_count)
+                .sum::<u64>();
+            let delta = point_idx - points_before_chunk;
             let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
@@ -230,9 +234,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     self.decompress_one(&mut tmp_out)?;
                     let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
 
-                    if current_pos >= offset_to_chunk_table {
-                        self.get_mut().seek(SeekFrom::End(0))?;
-                        return Ok(());
+                    // All the bytes of a chunk may be consumed before all of its points
+                    // are decompressed, being past its end is what tells that
+                    // the point does not exist.
+                    if current_pos > offset_to_chunk_table {
+                        return self.seek_past_the_end();
                     }
                 }
             } else {
@@ -248,13 +254,25 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             // the requested point it out of bounds (ie higher than the number of
             // points compressed)
 
-            // Seek to the end so that the next call to decompress causes en error
-            // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
-            self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            self.seek_past_the_end()?;
         }
         Ok(())
     }
 
+    /// Seek to the end so that the next call to decompress causes en error
+    /// like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
+    fn seek_past_the_end(&mut self) -> crate::Result<()> {
+        self.get_mut().seek(SeekFrom::End(0))?;
+        // Without this, points could still be decompressed
+        // from what is left of the chunk we were in.
+        self.reset_for_new_chunk();
+        self.current_chunk = self
+            .seek_info
+            .as_ref()
+            .map_or(0, |info| info.chunk_table.len());
+        Ok(())
+    }
+
     /// Returns the vlr used.
     pub fn vlr(&self) -> &LazVlr {
         &self.vlr
-- 
2.43.0


From a588cd845587624c5303e172436c3cb9a51c8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 07/32] fix: reading past the last variable-size chunk panicked

---
 src/laszip/sequential/decompression.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index e4f41a5..4f620b8 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -144,6 +144,17 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
+        if self.chunk_points_read == 0 && self.vlr.uses_variable_size_chunks() {
+            if let Some(seek_info) = &self.seek_info {
+                if self.current_chunk >= seek_info.chunk_table.len() {
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::UnexpectedEof,
+                        "no chunks available in chunk table",
+                    ));
+                }
+            }
+        }
+
         self.record_decompressor.decompress_next(&mut out)?;
         self.chunk_points_read += 1;
 
-- 
2.43.0


From 1071c6cb8d46193f0526a01b8be396988af2a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 08/32] fix: parallel decompression panicked unless all points
 of full chunks were asked for

---
 src/laszip/parallel/decompression.rs | 35 +++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..cf6b3b6 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -141,9 +141,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
 
         debug_assert!(num_chunks_to_decompress >= 1);
-        debug_assert!(num_points >= num_requested_points_left);
-        // TODO if num_points >= num_requested_points_left then the user ask to decompress more points
-        //      than there are
+        if num_points < num_requested_points_left {
+            return Err(LasZipError::IoError(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "not enough points in the chunks",
+            )));
+        }
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
@@ -323,7 +326,10 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let compressed_points = &compressed_points_data[ChunkTable::OFFSET_SIZE..];
+    let compressed_points = compressed_points
+        .get(..num_point_bytes)
+        .unwrap_or(compressed_points);
     par_decompress(
         compressed_points,
         decompressed_points,
@@ -347,9 +353,26 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
-    let counts = chunk_table
+    let num_compressed_bytes = chunk_table.iter().map(|entry| entry.byte_count).sum::<u64>();
+    let num_decompressed_bytes = chunk_table
         .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+        .map(|entry| entry.point_count * laz_vlr.items_size())
+        .sum::<u64>();
+    if num_compressed_bytes > compressed_points.len() as u64
+        || num_decompressed_bytes < decompressed_points.len() as u64
+    {
+        return Err(LasZipError::IoError(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "not enough points in the chunks",
+        )));
+    }
+    // The last chunk may not be full, and less points may be asked for than there are
+    let mut num_bytes_left = decompressed_points.len();
+    let counts = chunk_table.iter().map(|entry| {
+        let size = num_bytes_left.min((entry.point_count * laz_vlr.items_size()) as usize);
+        num_bytes_left -= size;
+        size
+    });
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From f871b562add037dbc0fbfaa2a0dd6cacaeb09829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 09/32] fix: parallel seek ignored variable-size chunks, the
 selection and the end of the data

---
 src/laszip/parallel/decompression.rs | 44 +++++++++++++++-------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index cf6b3b6..f7cfa0a 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -227,47 +227,49 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             Some(v) => v,
             None => {
                 let _ = self.source.seek(SeekFrom::End(0))?;
+                // Force EOF error on next decompression
+                self.last_chunk_read = self.chunk_table.len() as isize - 1;
                 return Ok(());
             }
         };
 
+        let chunk_entry = self.chunk_table[chunk_of_point];
+        let points_before_chunk = self.chunk_table[..chunk_of_point]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum::<u64>();
+
         let start_of_chunk_pos = self.start_of_data + byte_offset;
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
         self.internal_buffer
-            .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+            .resize(chunk_entry.byte_count as usize, 0u8);
+        self.source.read_exact(&mut self.internal_buffer)?;
 
         // Completely decompress the chunk
-        let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
-            crate::laszip::vlr::DecompressedChunkSize::Fixed { num_bytes } => num_bytes,
-            crate::laszip::vlr::DecompressedChunkSize::Variable {
-                num_bytes_per_point,
-            } => num_bytes_per_point * self.chunk_table[chunk_of_point].point_count as usize,
-        };
-        self.rest.get_mut().resize(num_bytes, 0u8);
+        let point_size = self.vlr.items_size();
+        self.rest
+            .get_mut()
+            .resize((chunk_entry.point_count * point_size) as usize, 0u8);
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
-        if is_last_chunk {
+        if is_last_chunk && !self.vlr.uses_variable_size_chunks() {
             let num_bytes_decompressed =
                 decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
-            let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-            if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
-                // Make the rest appear as fully consumed to
-                // force EOF error on next decompression
-                self.rest.set_position(self.rest.get_ref().len() as u64);
-                return Ok(());
-            }
+            self.rest.get_mut().truncate(num_bytes_decompressed);
         } else {
             decompressor.decompress_many(self.rest.get_mut())?;
         }
         // This effectively discard points that were
-        // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-        self.rest.set_position(pos_in_chunk * self.vlr.items_size());
+        // before the one we just seeked to.
+        // When the point does not exist, the rest appears as fully consumed
+        // to force EOF error on next decompression
+        let pos_in_chunk = (index - points_before_chunk) * point_size;
+        self.rest
+            .set_position(pos_in_chunk.min(self.rest.get_ref().len() as u64));
         self.last_chunk_read = chunk_of_point as isize;
         Ok(())
     }
-- 
2.43.0


From 1de8108f4f67696cbac9c33ee05597732eb211be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 10/32] fix: appending wrote wrong chunk tables and panicked
 with variable-size chunks or no point

---
 src/laszip/parallel/appender.rs      |  9 +++++++-
 src/laszip/parallel/compression.rs   | 10 +++++++++
 src/laszip/sequential/appender.rs    | 32 +++++++++++++---------------
 src/laszip/sequential/compression.rs | 10 +++++++++
 4 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 1d1fd01..614a29d 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -21,7 +21,14 @@ where
             vlr,
             point_count,
             ParLasZipCompressor::new,
-            ParLasZipCompressor::get_mut,
+            ParLasZipCompressor::skip_existing_chunks,
+            |compressor, points| {
+                if compressor.vlr().uses_variable_size_chunks() {
+                    compressor.compress_chunks([points])
+                } else {
+                    compressor.compress_many(points)
+                }
+            },
         )?;
 
         Ok(Self {
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 1a7f3fd..67589d1 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -227,6 +227,16 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         self.table_offset
     }
 
+    /// Skips the bytes of chunks that are already in the destination
+    ///
+    /// The offset to the chunk table must have been reserved.
+    pub(crate) fn skip_existing_chunks(&mut self, num_bytes: u64) -> std::io::Result<()> {
+        let start_of_chunks = self.table_offset as u64 + std::mem::size_of::<i64>() as u64;
+        self.dest
+            .seek(SeekFrom::Start(start_of_chunks + num_bytes))?;
+        Ok(())
+    }
+
     /// Returns the current chunk table
     pub(crate) fn chunk_table(&self) -> &ChunkTable {
         &self.chunk_table
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..41aa9d6 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -15,17 +15,19 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 /// * If `point_count` is greater than the actual number of points,
 ///   the function will stop at when we know for sure no other points
 ///   could be present
-pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
+pub(crate) fn prepare_compressor_for_appending<W, F, F2, F3, Compressor>(
     mut data: W,
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
-    get_mut_dest_of_compressor: F2,
+    skip_existing_chunks: F2,
+    recompress_last_chunk: F3,
 ) -> crate::Result<(Compressor, ChunkTable)>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor) -> &mut W,
+    F2: FnOnce(&mut Compressor, u64) -> std::io::Result<()>,
+    F3: FnOnce(&mut Compressor, &[u8]) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -40,7 +42,10 @@ where
     let mut chunk_table = ChunkTable::read_from(&mut data, &vlr)?;
 
     let mut data_to_recompress = vec![];
-    if !chunk_table.is_empty() {
+    if point_count == 0 {
+        // Everything is going to be overwritten
+        chunk_table.truncate(0);
+    } else if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
             .chunk_of_point(point_count - 1)
             .unwrap_or_else(|| {
@@ -58,16 +63,8 @@ where
             .sum::<u64>();
         // This cannot overflow as with the chunk_index will be the last known chunk
         // if point_count was out of count
-        let mut points_to_read = point_count - points_before_chunk;
-
-        if !vlr.uses_variable_size_chunks()
-            && chunk_index == chunk_table.len() - 1
-            && points_to_read == 0
-        {
-            // If we are here, that means we should skip the chunk
-            // but, we chose not to completely trust the point count we received
-            points_to_read = u64::from(vlr.chunk_size());
-        }
+        let points_to_read =
+            (point_count - points_before_chunk).min(chunk_table[chunk_index].point_count);
 
         if points_to_read > 0 {
             let size_of_chunk = chunk_table[chunk_index].byte_count;
@@ -99,10 +96,10 @@ where
     // offset is.
     compressor.reserve_offset_to_chunk_table()?;
     let last_chunk_pos = chunk_table.chunk_position(chunk_table.len()).unwrap();
-    get_mut_dest_of_compressor(&mut compressor).seek(SeekFrom::Current(last_chunk_pos as i64))?;
+    skip_existing_chunks(&mut compressor, last_chunk_pos)?;
     // Rewrite the last chunk we read
     if !data_to_recompress.is_empty() {
-        compressor.compress_many(&data_to_recompress)?;
+        recompress_last_chunk(&mut compressor, &data_to_recompress)?;
     }
 
     Ok((compressor, chunk_table))
@@ -125,7 +122,8 @@ where
             vlr,
             point_count,
             LasZipCompressor::new,
-            LasZipCompressor::get_mut,
+            LasZipCompressor::skip_existing_chunks,
+            LasZipCompressor::compress_many,
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 858dde3..4496462 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -208,6 +208,16 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.start_pos as i64
     }
 
+    /// Skips the bytes of chunks that are already in the destination
+    ///
+    /// The offset to the chunk table must have been reserved.
+    pub(crate) fn skip_existing_chunks(&mut self, num_bytes: u64) -> std::io::Result<()> {
+        self.chunk_start_pos += num_bytes;
+        let pos = SeekFrom::Start(self.chunk_start_pos);
+        self.get_mut().seek(pos)?;
+        Ok(())
+    }
+
     /// Returns the current chunk table
     pub(crate) fn chunk_table(&self) -> &ChunkTable {
         &self.chunk_table
-- 
2.43.0


From 6f13c598dcab79fed53f41fe88be5f34e429ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 11/32] fix: chunk table sizes above i32::MAX were sign
 extended

---
 src/laszip/chunk_table.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..2d47428 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -159,17 +159,18 @@ impl ChunkTable {
                 byte_count: 0,
             };
             if contains_point_count {
-                current_entry.point_count = u64::from_le(decompressor.decompress(
+                // The sizes are unsigned
+                current_entry.point_count = u64::from(decompressor.decompress(
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32);
             }
-            current_entry.byte_count = u64::from_le(decompressor.decompress(
+            current_entry.byte_count = u64::from(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From 797520fc980702be8ce2af292cb8803df5aa185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 12/32] fix: the point count of layered chunks was ignored,
 variable-size ones could not be read without a table

---
 src/record.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..11da0db 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -351,6 +351,7 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     fields_sizes: Vec<usize>,
     record_size: usize,
     context: usize,
+    record_count: u64,
 }
 
 impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
@@ -364,6 +365,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             fields_sizes: vec![],
             record_size: 0,
             context: 0,
+            record_count: 0,
         }
     }
 
@@ -454,6 +456,10 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.record_size
     }
 
+    fn record_count(&self) -> u64 {
+        self.record_count
+    }
+
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
         let decompressors_and_data =
             self.field_decompressors
@@ -472,7 +478,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.record_count = u64::from(self.input.read_u32::<LittleEndian>()?);
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
-- 
2.43.0


From 3a449b56ebd8fcf437d216df0986bcfaff276fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 13/32] fix: decompression without chunk table started at the
 wrong position

---
 src/laszip/sequential/decompression.rs | 27 ++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 4f620b8..3284862 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -42,6 +42,26 @@ impl SeekInfo {
     }
 }
 
+/// Moves the source to the first point when the chunk table could not be read.
+///
+/// `start_pos` is where the source was before trying to read the chunk table, if it is known.
+fn skip_chunk_table_offset<R: Read + Seek>(
+    source: &mut R,
+    start_pos: Option<u64>,
+) -> std::io::Result<()> {
+    match start_pos {
+        Some(start_pos) => {
+            let data_start = start_pos + ChunkTable::OFFSET_SIZE as u64;
+            // Some of the table may have been read
+            if source.stream_position()? != data_start {
+                source.seek(SeekFrom::Start(data_start))?;
+            }
+            Ok(())
+        }
+        None => source.read_exact(&mut [0u8; ChunkTable::OFFSET_SIZE]),
+    }
+}
+
 /// LasZip decompressor that decompresses points.
 ///
 /// Supports both **fixed-size** and **variable-size** chunks.
@@ -74,6 +94,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
+        let start_pos = source.stream_position().ok();
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
@@ -90,8 +111,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         // So we _may_ still be at the start of point data,
                         // we need to skip the chunk table offset otherwise
                         // decompression won't be correct.
-                        let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                        source.read_exact(&mut tmp)?;
+                        skip_chunk_table_offset(&mut source, start_pos)?;
                         None
                     }
                     (Err(err), true) => {
@@ -108,8 +128,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
                 if seek_info.is_none() {
                     // Same as in PointWiseChunked
-                    let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                    source.read_exact(&mut tmp)?;
+                    skip_chunk_table_offset(&mut source, start_pos)?;
                 }
                 seek_info
             }
-- 
2.43.0


From c085c82a41e2f4f706a6b15ecba20ef569fe2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 14/32] fix: symbols out of range are errors, not debug
 assertions

---
 src/decoders.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index d557ad9..7e4a8ff 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -227,6 +227,7 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 1;
         let sym = self.value / self.length;
+        check_symbol(sym, 1)?;
         // update interval
         self.value -= self.length * sym;
 
@@ -247,6 +248,7 @@ impl<T: Read> ArithmeticDecoder<T> {
             // decode symbol, change length
             self.length >>= bits;
             let sym = self.value / self.length;
+            check_symbol(sym, bits)?;
 
             // update interval
             self.value -= self.length * sym;
@@ -263,12 +265,12 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 8;
         let sym = self.value / self.length;
+        check_symbol(sym, 8)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 8));
         Ok(sym as u8)
     }
 
@@ -276,12 +278,12 @@ impl<T: Read> ArithmeticDecoder<T> {
         // decode symbol, change length
         self.length >>= 16;
         let sym = self.value / self.length;
+        check_symbol(sym, 16)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 16));
         Ok(sym as u16)
     }
 
@@ -320,3 +322,15 @@ impl<T: Read> ArithmeticDecoder<T> {
         self.in_stream
     }
 }
+
+/// A symbol that does not fit in its number of bits is the sign of bad data
+#[inline]
+fn check_symbol(sym: u32, num_bits: u32) -> std::io::Result<()> {
+    if sym >> num_bits != 0 {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "ArithmeticDecoder symbol is out of range",
+        ));
+    }
+    Ok(())
+}
-- 
2.43.0


From 8de3bb28c05c3eb763dc98f62b20b0714f67fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 15/32] fix: a decoder that had failed panicked or read out of
 its tables when used again

---
 src/decoders.rs | 71 ++++++++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index 7e4a8ff..279bb59 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -125,10 +125,14 @@ impl<T: Read> ArithmeticDecoder<T> {
 
         self.value =
             u32::from(v[0]) << 24 | u32::from(v[1]) << 16 | u32::from(v[2]) << 8 | u32::from(v[3]);
+        if self.value >= self.length {
+            return Err(self.bad_data());
+        }
         Ok(())
     }
 
     pub fn decode_bit(&mut self, model: &mut models::ArithmeticBitModel) -> std::io::Result<u32> {
+        self.check_interval()?;
         let x = model.bit_0_prob * (self.length >> models::BM_LENGTH_SHIFT); // product l x p0
 
         let sym = self.value >= x;
@@ -151,6 +155,7 @@ impl<T: Read> ArithmeticDecoder<T> {
     }
 
     pub fn decode_symbol(&mut self, model: &mut models::ArithmeticModel) -> std::io::Result<u32> {
+        self.check_interval()?;
         let mut sym;
         let mut n;
         let mut x;
@@ -159,12 +164,6 @@ impl<T: Read> ArithmeticDecoder<T> {
         if !model.decoder_table.is_empty() {
             // use table look-up for faster decoding
             self.length >>= DM_LENGTH_SHIFT;
-            if self.length == 0 {
-                return Err(std::io::Error::new(
-                    std::io::ErrorKind::UnexpectedEof,
-                    "ArithmeticDecoder length is zero",
-                ));
-            }
             let dv = self.value / self.length;
             let t = dv >> model.table_shift;
 
@@ -225,9 +224,7 @@ impl<T: Read> ArithmeticDecoder<T> {
 
     pub fn read_bit(&mut self) -> std::io::Result<u32> {
         // decode symbol, change length
-        self.length >>= 1;
-        let sym = self.value / self.length;
-        check_symbol(sym, 1)?;
+        let sym = self.take_symbol(1)?;
         // update interval
         self.value -= self.length * sym;
 
@@ -246,9 +243,7 @@ impl<T: Read> ArithmeticDecoder<T> {
             Ok(tmpl | tmp)
         } else {
             // decode symbol, change length
-            self.length >>= bits;
-            let sym = self.value / self.length;
-            check_symbol(sym, bits)?;
+            let sym = self.take_symbol(bits)?;
 
             // update interval
             self.value -= self.length * sym;
@@ -263,9 +258,7 @@ impl<T: Read> ArithmeticDecoder<T> {
     #[allow(dead_code)]
     fn read_byte(&mut self) -> std::io::Result<u8> {
         // decode symbol, change length
-        self.length >>= 8;
-        let sym = self.value / self.length;
-        check_symbol(sym, 8)?;
+        let sym = self.take_symbol(8)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
@@ -276,9 +269,7 @@ impl<T: Read> ArithmeticDecoder<T> {
 
     fn read_short(&mut self) -> std::io::Result<u16> {
         // decode symbol, change length
-        self.length >>= 16;
-        let sym = self.value / self.length;
-        check_symbol(sym, 16)?;
+        let sym = self.take_symbol(16)?;
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
@@ -299,6 +290,38 @@ impl<T: Read> ArithmeticDecoder<T> {
         Ok((upper_int << 32) | lower_int)
     }
 
+    /// Shrinks the interval and returns the symbol of `num_bits` bits that it holds
+    #[inline]
+    fn take_symbol(&mut self, num_bits: u32) -> std::io::Result<u32> {
+        self.check_interval()?;
+        self.length >>= num_bits;
+        let sym = self.value / self.length;
+        if sym >> num_bits != 0 {
+            // only bad data holds a symbol that does not fit in its number of bits
+            return Err(self.bad_data());
+        }
+        Ok(sym)
+    }
+
+    /// The interval is only shorter than the minimum once decoding failed,
+    /// what comes next can't be decoded then
+    #[inline]
+    fn check_interval(&mut self) -> std::io::Result<()> {
+        if self.length < AC_MIN_LENGTH {
+            return Err(self.bad_data());
+        }
+        Ok(())
+    }
+
+    #[cold]
+    fn bad_data(&mut self) -> std::io::Error {
+        self.length = 0;
+        std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "Bad data in the arithmetic decoder",
+        )
+    }
+
     fn renorm_dec_interval(&mut self) -> std::io::Result<()> {
         loop {
             self.value = (self.value << 8) | u32::from(self.in_stream.read_u8()?);
@@ -322,15 +345,3 @@ impl<T: Read> ArithmeticDecoder<T> {
         self.in_stream
     }
 }
-
-/// A symbol that does not fit in its number of bits is the sign of bad data
-#[inline]
-fn check_symbol(sym: u32, num_bits: u32) -> std::io::Result<()> {
-    if sym >> num_bits != 0 {
-        return Err(std::io::Error::new(
-            std::io::ErrorKind::UnexpectedEof,
-            "ArithmeticDecoder symbol is out of range",
-        ));
-    }
-    Ok(())
-}
-- 
2.43.0


From 0e3110f5908cda73ea062bb27d6323920d22d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 16/32] fix: layer sizes of corrupt data were allocated before
 being read

---
 src/las/utils.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/las/utils.rs b/src/las/utils.rs
index fe31a2b..13a5893 100644
--- a/src/las/utils.rs
+++ b/src/las/utils.rs
@@ -154,6 +154,24 @@ pub fn i32_quantize(n: f32) -> i32 {
     }
 }
 
+/// Appends the next `num_bytes` of `src` to `dst`.
+///
+/// The size comes from the file, so the memory is not reserved
+/// before knowing that the bytes really are there.
+pub(crate) fn read_exactly_into<R: Read>(
+    src: &mut R,
+    num_bytes: u64,
+    dst: &mut Vec<u8>,
+) -> std::io::Result<()> {
+    const MAX_RESERVED: u64 = 1024 * 1024;
+    dst.reserve(num_bytes.min(MAX_RESERVED) as usize);
+    let num_read = src.by_ref().take(num_bytes).read_to_end(dst)?;
+    if (num_read as u64) < num_bytes {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(())
+}
+
 /// Copies `num_bytes` from `src` into the `decoder`.
 ///
 /// `num_bytes` should be the layer size.
@@ -174,8 +192,8 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
     let inner_vec = decoder.get_mut().get_mut();
     if is_requested {
         if num_bytes > 0 {
-            inner_vec.resize(num_bytes, 0);
-            src.read_exact(&mut inner_vec[..num_bytes])?;
+            inner_vec.clear();
+            read_exactly_into(src, num_bytes as u64, inner_vec)?;
             decoder.read_init_bytes()?;
             Ok(true)
         } else {
@@ -188,8 +206,11 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
                 // This is mainly to accommodate python bindings,
                 // where the stream might not be seekable and return an error
                 // so we instead try to read data to skip it
-                let mut unused_data = vec![0u8; num_bytes];
-                src.read_exact(unused_data.as_mut_slice())?;
+                let num_skipped =
+                    std::io::copy(&mut src.take(num_bytes as u64), &mut std::io::sink())?;
+                if num_skipped < num_bytes as u64 {
+                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
         Ok(false)
-- 
2.43.0


From 7d5e7ec060cdf872b74d6f32b5ce45e7046258e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 17/32] fix: the correction of corrupt data could overflow

---
 src/decompressors.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index ca99838..4590787 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -156,7 +156,7 @@ impl IntegerDecompressor {
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // if c is in the interval [ 2^(k-1)  ...  + 2^k - 1 ]
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
@@ -193,7 +193,7 @@ impl IntegerDecompressor {
                         // translate c back into its correct interval
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
@@ -211,9 +211,9 @@ impl IntegerDecompressor {
         //--- read corrector ---//
         let mut real = pred.wrapping_add(corr);
         if real < 0 {
-            real += self.corr_range as i32;
+            real = real.wrapping_add(self.corr_range as i32);
         } else if real >= self.corr_range as i32 {
-            real -= self.corr_range as i32
+            real = real.wrapping_sub(self.corr_range as i32);
         }
         Ok(real)
     }
-- 
2.43.0


From 394250426feff6b073d5749d18df8a82e21ff478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 18/32] fix: corrupt GPS times could exhaust the stack

---
 src/las/gps.rs    | 58 ++++++++++++++++++++++++++++-------------------
 src/las/point6.rs | 16 ++++++++++---
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index 68be49c..74e1095 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -857,24 +857,15 @@ pub mod v2 {
         }
     }
 
-    impl<R: Read> FieldDecompressor<R> for GpsTimeDecompressor {
-        fn size_of_field(&self) -> usize {
-            std::mem::size_of::<i64>()
-        }
-
-        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
-            unsafe {
-                *self.common.last_gps_times.get_unchecked_mut(0) =
-                    read_and_unpack::<_, GpsTime>(src, first_point)?;
-            }
-            Ok(())
-        }
-
-        fn decompress_with(
+    impl GpsTimeDecompressor {
+        /// Decodes one symbol and what goes with it.
+        ///
+        /// Returns whether the symbol was only a switch to another sequence,
+        /// meaning the time is yet to be decoded.
+        fn decompress_step<R: Read>(
             &mut self,
             mut decoder: &mut ArithmeticDecoder<R>,
-            buf: &mut [u8],
-        ) -> std::io::Result<()> {
+        ) -> std::io::Result<bool> {
             let mut multi: i32;
             debug_assert!(self.common.last < 4);
             unsafe {
@@ -946,7 +937,7 @@ pub mod v2 {
                     } else if multi > 2 {
                         // we switch to another sequence
                         self.common.last = (self.common.last + multi as usize - 2) & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 } else {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
@@ -1136,15 +1127,36 @@ pub mod v2 {
                         self.common.last = (self.common.last + multi as usize
                             - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                             & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 }
-                self.common
-                    .last_gps_times
-                    .get_unchecked(self.common.last)
-                    .pack_into_unchecked(buf);
-                Ok(())
+                Ok(false)
             }
         }
     }
+
+    impl<R: Read> FieldDecompressor<R> for GpsTimeDecompressor {
+        fn size_of_field(&self) -> usize {
+            std::mem::size_of::<i64>()
+        }
+
+        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
+            unsafe {
+                *self.common.last_gps_times.get_unchecked_mut(0) =
+                    read_and_unpack::<_, GpsTime>(src, first_point)?;
+            }
+            Ok(())
+        }
+
+        fn decompress_with(
+            &mut self,
+            decoder: &mut ArithmeticDecoder<R>,
+            buf: &mut [u8],
+        ) -> std::io::Result<()> {
+            // Not recursive, as nothing limits how many switches (corrupt) data may contain
+            while self.decompress_step(decoder)? {}
+            self.common.last_gps_times[self.common.last].pack_into(buf);
+            Ok(())
+        }
+    }
 }
diff --git a/src/las/point6.rs b/src/las/point6.rs
index b873732..b6627f4 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -687,6 +687,16 @@ mod v3_v4 {
 
     impl<const VERSION: usize> LasPoint6DecompressorImpl<VERSION> {
         fn read_gps_time(&mut self) -> std::io::Result<()> {
+            // Not recursive, as nothing limits how many switches (corrupt) data may contain
+            while self.read_gps_time_step()? {}
+            Ok(())
+        }
+
+        /// Decodes one symbol and what goes with it.
+        ///
+        /// Returns whether the symbol was only a switch to another sequence,
+        /// meaning the time is yet to be decoded.
+        fn read_gps_time_step(&mut self) -> std::io::Result<bool> {
             let the_context = &mut self.contexts[self.current_context];
 
             let mut multi: i32;
@@ -736,7 +746,7 @@ mod v3_v4 {
                     // We switch to another sequence
                     the_context.gps_sequences.last =
                         (the_context.gps_sequences.last + multi as usize - 1) & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             } else {
                 multi = self
@@ -874,10 +884,10 @@ mod v3_v4 {
                         + multi as usize
                         - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                         & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             }
-            Ok(())
+            Ok(false)
         }
     }
 
-- 
2.43.0


From ad17fff3b98aa957503334fa84129cb3977c59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 19/32] fix: the number of chunks of corrupt tables was
 allocated before being read

---
 src/laszip/chunk_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 2d47428..1315cbc 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -137,6 +137,10 @@ impl ChunkTable {
         mut src: &mut R,
         contains_point_count: bool,
     ) -> std::io::Result<Self> {
+        // The number of chunks comes from the file, so the memory is not reserved
+        // before knowing that the entries really are there.
+        const MAX_RESERVED: u32 = 64 * 1024;
+
         let _version = src.read_u32::<LittleEndian>()?;
         let number_of_chunks = src.read_u32::<LittleEndian>()?;
 
@@ -151,7 +155,7 @@ impl ChunkTable {
         let mut decoder = ArithmeticDecoder::new(&mut src);
         decoder.read_init_bytes()?;
 
-        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks as usize);
+        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks.min(MAX_RESERVED) as usize);
         let mut previous_entry = ChunkTableEntry::default();
         for _ in 1..=number_of_chunks {
             let mut current_entry = ChunkTableEntry {
-- 
2.43.0


From cec9f379e33eb6169a016d16910edfdaca9a4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 20/32] fix: layouts without items panicked

---
 src/laszip/details.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 9448d03..55a8a91 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -6,13 +6,18 @@ use crate::record::{
 };
 use crate::{LasZipError, LazItem};
 
+fn no_items_error() -> LasZipError {
+    LasZipError::IoError(std::io::Error::new(
+        std::io::ErrorKind::InvalidInput,
+        "There should be at least one LazItem",
+    ))
+}
+
 pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     input: R,
 ) -> crate::Result<Box<dyn RecordDecompressor<R> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordDecompressor");
+    let first_item = items.get(0).ok_or_else(no_items_error)?;
 
     let mut decompressor = match first_item.version {
         1 | 2 => {
@@ -39,9 +44,7 @@ pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     output: W,
 ) -> crate::Result<Box<dyn RecordCompressor<W> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordCompressor");
+    let first_item = items.get(0).ok_or_else(no_items_error)?;
 
     let mut compressor = match first_item.version {
         1 | 2 => {
-- 
2.43.0


From da7d1cb5a8ed7d61a3dd4cb9aca713dd82199a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 21/32] fix: laszip records describing impossible points were
 accepted, then panicked

---
 src/laszip/chunk_table.rs            |  3 ++-
 src/laszip/parallel/decompression.rs |  5 ++++-
 src/laszip/vlr.rs                    | 20 +++++++++++++++++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 1315cbc..e918a15 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -155,7 +155,8 @@ impl ChunkTable {
         let mut decoder = ArithmeticDecoder::new(&mut src);
         decoder.read_init_bytes()?;
 
-        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks.min(MAX_RESERVED) as usize);
+        let mut chunk_table =
+            ChunkTable::with_capacity(number_of_chunks.min(MAX_RESERVED) as usize);
         let mut previous_entry = ChunkTableEntry::default();
         for _ in 1..=number_of_chunks {
             let mut current_entry = ChunkTableEntry {
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index f7cfa0a..b662c21 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -355,7 +355,10 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
-    let num_compressed_bytes = chunk_table.iter().map(|entry| entry.byte_count).sum::<u64>();
+    let num_compressed_bytes = chunk_table
+        .iter()
+        .map(|entry| entry.byte_count)
+        .sum::<u64>();
     let num_decompressed_bytes = chunk_table
         .iter()
         .map(|entry| entry.point_count * laz_vlr.items_size())
diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 3c2d58c..5ef78d5 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -176,6 +176,11 @@ impl LazItem {
         let size = src.read_u16::<LittleEndian>()?;
         let item_type = LazItemType::from_u16(item_type, size)
             .ok_or_else(|| LasZipError::UnknownLazItem(item_type))?;
+        if size != item_type.size() {
+            return Err(invalid_data(
+                "the size of a laz item does not match its type",
+            ));
+        }
         Ok(Self {
             item_type,
             size,
@@ -327,12 +332,25 @@ impl LazItemRecordBuilder {
     }
 }
 
+fn invalid_data(message: &str) -> LasZipError {
+    LasZipError::IoError(std::io::Error::new(
+        std::io::ErrorKind::InvalidData,
+        message,
+    ))
+}
+
 fn read_laz_items_from<R: Read>(mut src: &mut R) -> crate::Result<Vec<LazItem>> {
     let num_items = src.read_u16::<LittleEndian>()?;
     let mut items = Vec::<LazItem>::with_capacity(num_items as usize);
     for _ in 0..num_items {
         items.push(LazItem::read_from(&mut src)?)
     }
+
+    // The size of points is coded on a u16 in LAS files
+    let size_of_items = items.iter().map(|item| u64::from(item.size)).sum::<u64>();
+    if size_of_items == 0 || size_of_items > u64::from(u16::MAX) {
+        return Err(invalid_data("the laz items do not describe valid points"));
+    }
     Ok(items)
 }
 
@@ -513,7 +531,7 @@ impl LazVlr {
     /// expected size of points (uncompressed).
     #[inline]
     pub fn items_size(&self) -> u64 {
-        u64::from(self.items.iter().map(|item| item.size).sum::<u16>())
+        self.items.iter().map(|item| u64::from(item.size)).sum()
     }
 
     /// returns how many bytes a decompressed chunk contains
-- 
2.43.0


From bc6b276c0b45918e1a51573c68266896036df637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 22/32] fix: point counts and chunk sizes of corrupt data were
 allocated before being read

---
 src/las/mod.rs                       |  2 +-
 src/laszip/details.rs                | 28 +++++++++
 src/laszip/parallel/decompression.rs | 90 +++++++++++++++++-----------
 src/laszip/sequential/appender.rs    | 19 +++---
 4 files changed, 93 insertions(+), 46 deletions(-)

diff --git a/src/las/mod.rs b/src/las/mod.rs
index 734eca4..ab6b8f7 100644
--- a/src/las/mod.rs
+++ b/src/las/mod.rs
@@ -7,7 +7,7 @@ pub use pointtypes::{
 };
 
 #[macro_use]
-mod utils;
+pub(crate) mod utils;
 pub(crate) mod pointtypes;
 
 #[deprecated(
diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 55a8a91..1f6fdfe 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -40,6 +40,34 @@ pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Syn
     Ok(decompressor)
 }
 
+/// Decompresses points into `out` until `num_bytes` are decompressed or the end
+/// of file is reached.
+///
+/// The number of points comes from the file, so the memory is only
+/// allocated as points really get decompressed.
+pub(super) fn decompress_growing<R>(
+    decompressor: &mut (dyn RecordDecompressor<R> + Send + Sync + '_),
+    num_bytes: u64,
+    out: &mut Vec<u8>,
+) -> std::io::Result<()> {
+    const MAX_BLOCK_SIZE: usize = 1024 * 1024;
+
+    let point_size = decompressor.record_size();
+    let block_size = (MAX_BLOCK_SIZE / point_size).max(1) * point_size;
+    out.clear();
+    while (out.len() as u64) < num_bytes {
+        let start = out.len();
+        let size = (num_bytes - start as u64).min(block_size as u64) as usize;
+        out.resize(start + size, 0u8);
+        let num_decompressed = decompressor.decompress_until_end_of_file(&mut out[start..])?;
+        out.truncate(start + num_decompressed);
+        if num_decompressed < size {
+            break;
+        }
+    }
+    Ok(())
+}
+
 pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     output: W,
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index b662c21..96a8349 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -4,9 +4,11 @@ use rayon::prelude::*;
 
 use crate::byteslice::ChunksIrregularMut;
 use crate::las::selective::DecompressionSelection;
+use crate::las::utils::read_exactly_into;
 use crate::laszip::chunk_table::{ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_decompressor_from_laz_items;
+use crate::laszip::details::{decompress_growing, record_decompressor_from_laz_items};
 use crate::laszip::CompressorType;
+use crate::record::RecordDecompressor;
 use crate::{LasZipError, LazVlr};
 
 /// Laszip decompressor, that can decompress data using multiple threads
@@ -61,14 +63,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
-        let biggest_chunk = chunk_table
-            .as_ref()
-            .into_iter()
-            .map(|entry| entry.point_count)
-            .max()
-            .unwrap_or(0);
-        let vec = Vec::<u8>::with_capacity(biggest_chunk as usize);
-        let rest = std::io::Cursor::new(vec);
+        let rest = std::io::Cursor::new(Vec::<u8>::new());
 
         Ok(Self {
             source,
@@ -149,8 +144,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
 
         // Read the necessary compressed bytes into our internal buffer
-        self.internal_buffer.resize(num_bytes_to_read, 0u8);
-        self.source.read_exact(&mut self.internal_buffer)?;
+        self.internal_buffer.clear();
+        read_exactly_into(
+            &mut self.source,
+            num_bytes_to_read as u64,
+            &mut self.internal_buffer,
+        )?;
 
         // 3. Decompress
         // The idea is that if we have `n` chunks to decompress
@@ -193,18 +192,16 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 // Then, decompress what we did not, into our rest buffer
                 let num_bytes_left =
                     (tail_chunk_entry.point_count as usize * point_size) - tail_output.len();
-                if !vlr.uses_variable_size_chunks() && end_index == chunk_table_len {
-                    // When fixed-size chunks are used, for the last chunk, the number of point
-                    // is unknown, so we have to decompress it until an end of file appears
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    let num_actually_decompressed =
-                        decompressor.decompress_until_end_of_file(rest.get_mut())?;
-                    rest.get_mut().resize(num_actually_decompressed, 0u8);
-                } else {
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    decompressor.decompress_many(rest.get_mut())?;
-                }
-                rest.set_position(0);
+                // When fixed-size chunks are used, for the last chunk, the number of point
+                // is unknown, so we have to decompress it until an end of file appears
+                let is_count_unknown =
+                    !vlr.uses_variable_size_chunks() && end_index == chunk_table_len;
+                decompress_into_rest(
+                    &mut *decompressor,
+                    num_bytes_left as u64,
+                    is_count_unknown,
+                    rest,
+                )?;
                 Ok(())
             },
         );
@@ -241,28 +238,27 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
 
         let start_of_chunk_pos = self.start_of_data + byte_offset;
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
-        self.internal_buffer
-            .resize(chunk_entry.byte_count as usize, 0u8);
-        self.source.read_exact(&mut self.internal_buffer)?;
+        self.internal_buffer.clear();
+        read_exactly_into(
+            &mut self.source,
+            chunk_entry.byte_count,
+            &mut self.internal_buffer,
+        )?;
 
         // Completely decompress the chunk
         let point_size = self.vlr.items_size();
-        self.rest
-            .get_mut()
-            .resize((chunk_entry.point_count * point_size) as usize, 0u8);
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
         decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
-        if is_last_chunk && !self.vlr.uses_variable_size_chunks() {
-            let num_bytes_decompressed =
-                decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
-            self.rest.get_mut().truncate(num_bytes_decompressed);
-        } else {
-            decompressor.decompress_many(self.rest.get_mut())?;
-        }
+        decompress_into_rest(
+            &mut *decompressor,
+            chunk_entry.point_count * point_size,
+            is_last_chunk && !self.vlr.uses_variable_size_chunks(),
+            &mut self.rest,
+        )?;
         // This effectively discard points that were
         // before the one we just seeked to.
         // When the point does not exist, the rest appears as fully consumed
@@ -287,6 +283,28 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
     }
 }
 
+/// Decompresses `num_bytes` into the `rest`, or what there is when the count is not known.
+fn decompress_into_rest<R>(
+    decompressor: &mut (dyn RecordDecompressor<R> + Send + Sync + '_),
+    num_bytes: u64,
+    is_count_unknown: bool,
+    rest: &mut std::io::Cursor<Vec<u8>>,
+) -> std::io::Result<()> {
+    rest.set_position(0);
+    if let Err(error) = decompress_growing(decompressor, num_bytes, rest.get_mut()) {
+        rest.get_mut().clear();
+        return Err(error);
+    }
+    if !is_count_unknown && (rest.get_ref().len() as u64) < num_bytes {
+        rest.get_mut().clear();
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "not enough points in the chunk",
+        ));
+    }
+    Ok(())
+}
+
 impl<R: Read + Seek> crate::laszip::LazDecompressor for ParLasZipDecompressor<R> {
     fn decompress_one(&mut self, point: &mut [u8]) -> crate::Result<()> {
         self.decompress_many(point)
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 41aa9d6..ce2131e 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -1,4 +1,5 @@
-use crate::laszip::details::record_decompressor_from_laz_items;
+use crate::las::utils::read_exactly_into;
+use crate::laszip::details::{decompress_growing, record_decompressor_from_laz_items};
 use crate::laszip::{ChunkTable, CompressorType};
 use crate::{LasZipCompressor, LasZipError, LazCompressor, LazVlr};
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
@@ -70,19 +71,19 @@ where
             let size_of_chunk = chunk_table[chunk_index].byte_count;
             // In PointWiseChunked, we don't know if the last chunk is complete or not
             // so we read it, rewrite it so the compressor is in the right state to append points
-            let mut chunk_data = vec![0u8; size_of_chunk as usize];
-
-            data.read_exact(&mut chunk_data)?;
+            let mut chunk_data = vec![];
+            read_exactly_into(&mut data, size_of_chunk, &mut chunk_data)?;
 
             let mut chunk_data = Cursor::new(chunk_data);
             let mut decompressor =
                 record_decompressor_from_laz_items(vlr.items(), &mut chunk_data)?;
 
-            // Resize the output buffer so that we decompresse data until its either full,
-            // or EOF was reached
-            data_to_recompress.resize((points_to_read * vlr.items_size()) as usize, 0);
-            let byte_len = decompressor.decompress_until_end_of_file(&mut data_to_recompress)?;
-            data_to_recompress.resize(byte_len, 0);
+            // Decompress until there are either enough points, or EOF was reached
+            decompress_growing(
+                &mut *decompressor,
+                points_to_read * vlr.items_size(),
+                &mut data_to_recompress,
+            )?;
         }
 
         // Drop chunk table entry/entries that are after the our point
-- 
2.43.0


From 1e39169d237d717aab7a9fef2721e7b798869621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 23/32] fix: huge chunk sizes reserved their memory up front

---
 src/laszip/parallel/compression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 67589d1..3deed56 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -63,7 +63,9 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
-            rest.reserve(num_bytes);
+            // The chunks may be huge, and never be full
+            const MAX_RESERVED: usize = 16 * 1024 * 1024;
+            rest.reserve(num_bytes.min(MAX_RESERVED));
         }
 
         Ok(Self {
-- 
2.43.0


From 3028b14a49c04c026f06c7cd2055477aca1417fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 24/32] fix: the simple reader did not know formats 4, 5, 9, 10
 and miscounted after single reads

---
 src/las/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 49e3aa0..3c1e452 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -62,9 +62,13 @@ impl QuickHeader {
             1 => 28,
             2 => 26,
             3 => 34,
+            4 => 57,
+            5 => 63,
             6 => 30,
             7 => 36,
             8 => 38,
+            9 => 59,
+            10 => 67,
             _ => panic!("Unknown fmt id"),
         };
 
@@ -214,8 +218,10 @@ impl<'a> SimpleReader<'a> {
     pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> std::io::Result<usize> {
         assert!(buf.is_empty());
         let mut num_read = 0usize;
+        // Some points may have been read already
+        let num_points_left = self.header.num_points - self.current_index;
         buf.resize(
-            self.header.num_points as usize * self.header.point_size as usize,
+            num_points_left as usize * self.header.point_size as usize,
             0u8,
         );
         let slc = buf.as_mut_slice();
-- 
2.43.0


From e3e0ce325de7fade6b95546fa29b8418553efc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 25/32] fix: unchunked streams with an unused chunk size
 panicked

---
 src/laszip/sequential/decompression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 3284862..dc74b0e 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -178,7 +178,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.chunk_points_read += 1;
 
         if self.chunk_points_read == 1 {
-            if self.vlr.uses_variable_size_chunks() {
+            if self.vlr.compressor == CompressorType::PointWise {
+                self.num_points_in_chunk = u64::from(u32::MAX);
+            } else if self.vlr.uses_variable_size_chunks() {
                 self.num_points_in_chunk = match (&self.seek_info, self.vlr.compressor) {
                     (Some(seek_info), _) => seek_info.chunk_table[self.current_chunk].point_count,
                     (None, CompressorType::LayeredChunked) => {
@@ -190,8 +192,6 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         panic!("Variable-size chunks, but no chunk table");
                     }
                 }
-            } else if self.vlr.compressor == CompressorType::PointWise {
-                self.num_points_in_chunk = u64::from(u32::MAX);
             } else {
                 self.num_points_in_chunk = u64::from(self.vlr.chunk_size());
             }
-- 
2.43.0


From c40c495d287f9b64505412c5882c0413f2eb71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 26/32] fix: the parallel compressor accepted unsupported
 items, then panicked

---
 src/laszip/parallel/compression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 3deed56..16134ae 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -61,6 +61,9 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
 
+        // Refuse right away the items that cannot be compressed
+        record_compressor_from_laz_items(vlr.items(), std::io::Cursor::new(Vec::<u8>::new()))?;
+
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
             // The chunks may be huge, and never be full
@@ -380,7 +383,8 @@ fn compress_one_chunk<W: Write + Seek + Send + Sync>(
 ) -> std::io::Result<u64> {
     let start = dest.seek(SeekFrom::Current(0))?;
     {
-        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest).unwrap();
+        let mut compressor = record_compressor_from_laz_items(vlr.items(), &mut dest)
+            .map_err(|err| std::io::Error::new(std::io::ErrorKind::InvalidInput, err))?;
         compressor.compress_many(chunk_data)?;
         compressor.done()?;
     }
-- 
2.43.0


From ef277423441d8fe1de2352b6d6c0913928f1784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 27/32] fix: carries through more than half of the encoder's
 buffer were lost

---
 src/encoders.rs | 70 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index c127adc..1d2fe99 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -101,6 +101,12 @@ pub struct ArithmeticEncoder<T: Write> {
     out_byte: *mut u8,
     end_byte: *const u8,
 
+    // Number of blocks of AC_BUFFER_SIZE bytes that are between the half of the buffer
+    // being written and the other one. They were full of 0xFF,
+    // so a carry could still go through them, `held_byte` is what they are full of now
+    held_blocks: usize,
+    held_byte: u8,
+
     base: u32,
     length: u32,
 
@@ -118,6 +124,8 @@ impl<T: Write> ArithmeticEncoder<T> {
             out_buffer,
             out_byte,
             end_byte,
+            held_blocks: 0,
+            held_byte: 0xFF,
             base: 0,
             length: decoders::AC_MAX_LENGTH,
             out_stream,
@@ -135,6 +143,8 @@ impl<T: Write> ArithmeticEncoder<T> {
         self.out_buffer.fill(0);
         self.out_byte = self.out_buffer.as_mut_ptr();
         self.end_byte = self.end_of_buffer();
+        self.held_blocks = 0;
+        self.held_byte = 0xFF;
     }
 
     pub fn done(&mut self) -> std::io::Result<()> {
@@ -172,11 +182,21 @@ impl<T: Write> ArithmeticEncoder<T> {
                 )
             };
             self.out_stream.write_all(&slc)?;
+            self.write_held_blocks()?;
         }
 
-        let buffer_size = self.out_byte as isize - self.out_buffer.as_ptr() as isize;
+        let mut buffer_size = self.out_byte as usize - self.out_buffer.as_ptr() as usize;
+        if self.held_blocks != 0 {
+            debug_assert!(buffer_size >= AC_BUFFER_SIZE);
+            self.out_stream
+                .write_all(&self.out_buffer[..AC_BUFFER_SIZE])?;
+            self.write_held_blocks()?;
+            let slc = &self.out_buffer[AC_BUFFER_SIZE..buffer_size];
+            self.out_stream.write_all(&slc)?;
+            buffer_size = 0;
+        }
         if buffer_size != 0 {
-            let slc = &self.out_buffer[..buffer_size as usize];
+            let slc = &self.out_buffer[..buffer_size];
             self.out_stream.write_all(&slc)?
         }
 
@@ -364,21 +384,28 @@ impl<T: Write> ArithmeticEncoder<T> {
         self.out_stream
     }
 
-    fn propagate_carry(&mut self) {
-        let mut p = if self.out_byte.cast_const() == self.out_buffer.as_ptr() {
+    /// Returns the pointer to the byte that was written just before the one at `p`
+    /// for a carry to go on there
+    #[inline]
+    fn carry_before(&mut self, p: *mut u8) -> *mut u8 {
+        if self.held_blocks != 0 && p.cast_const() == self.end_byte.wrapping_sub(AC_BUFFER_SIZE) {
+            // the carry goes through the blocks that were held because of that
+            self.held_byte = 0;
+        }
+        if p.cast_const() == self.out_buffer.as_ptr() {
             self.end_of_buffer().wrapping_sub(1).cast_mut()
         } else {
-            self.out_byte.wrapping_sub(1)
-        };
+            p.wrapping_sub(1)
+        }
+    }
+
+    fn propagate_carry(&mut self) {
+        let mut p = self.carry_before(self.out_byte);
 
         unsafe {
             while *p == 0xFFu8 {
                 *p = 0;
-                if p.cast_const() == self.out_buffer.as_ptr() {
-                    p = self.end_of_buffer().wrapping_sub(1).cast_mut()
-                } else {
-                    p = p.wrapping_sub(1);
-                }
+                p = self.carry_before(p);
                 debug_assert!(self.out_buffer.as_ptr() <= p);
                 debug_assert!(p.cast_const() < self.end_of_buffer());
                 debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
@@ -409,15 +436,36 @@ impl<T: Write> ArithmeticEncoder<T> {
         Ok(())
     }
 
+    fn write_held_blocks(&mut self) -> std::io::Result<()> {
+        for _ in 0..self.held_blocks {
+            self.out_stream.write_all(&[self.held_byte; AC_BUFFER_SIZE])?;
+        }
+        self.held_blocks = 0;
+        self.held_byte = 0xFF;
+        Ok(())
+    }
+
     fn manage_out_buffer(&mut self) -> std::io::Result<()> {
         debug_assert!(self.out_byte.cast_const() == self.end_byte);
 
+        let written_half = self.out_byte.wrapping_sub(AC_BUFFER_SIZE);
+        let slc = unsafe { std::slice::from_raw_parts(written_half, AC_BUFFER_SIZE) };
+        if (self.held_blocks == 0 || self.held_byte == 0xFF) && slc.iter().all(|b| *b == 0xFF) {
+            // A carry could go through all of it and change the other half,
+            // so that one can't be written to the stream yet
+            self.held_blocks += 1;
+            self.held_byte = 0xFF;
+            self.out_byte = written_half;
+            return Ok(());
+        }
+
         if self.out_byte.cast_const() == self.end_of_buffer() {
             self.out_byte = self.out_buffer.as_mut_ptr();
         }
 
         let slc = unsafe { std::slice::from_raw_parts(self.out_byte, AC_BUFFER_SIZE) };
         self.out_stream.write_all(slc)?;
+        self.write_held_blocks()?;
         self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
 
         debug_assert!(self.end_byte > self.out_byte);
-- 
2.43.0


From fe575f64e1aee97575a8e3b30e97152bc8886cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:56 +0000
Subject: [PATCH 28/32] fix: chunks of less than one point made the parallel
 compressor's streams unreadable

---
 src/laszip/parallel/compression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 16134ae..8f135a6 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -344,10 +344,11 @@ where
 {
     use std::io::Cursor;
 
+    let point_size = laz_vlr.items_size() as usize;
     let chunks = chunks
         .into_par_iter()
         // There is no such thing as an empty chunk: its first point is always stored
-        .filter(|data| !data.as_ref().is_empty())
+        .filter(|data| data.as_ref().len() >= point_size)
         .map(|data| {
             let slc = data.as_ref();
             let mut output = Cursor::new(Vec::<u8>::new());
@@ -358,7 +359,6 @@ where
         .collect::<Vec<crate::Result<(usize, Vec<u8>)>>>();
 
     let mut chunk_table = ChunkTable::with_capacity(chunks.len());
-    let point_size = laz_vlr.items_size() as usize;
     for chunk_result in chunks {
         let (input_size, compressed_data) = chunk_result?;
         let point_count = if laz_vlr.uses_variable_size_chunks() {
-- 
2.43.0


From 14314080dc4d06fbcae75e5555a1dffe5d6e2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 29/32] fix: models built from unbalanced counts wrote outside
 of their tables

---
 src/models.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models.rs b/src/models.rs
index 704b9c9..6d1025f 100644
--- a/src/models.rs
+++ b/src/models.rs
@@ -142,7 +142,7 @@ impl ArithmeticModel {
                 debug_assert!((w as usize) < self.decoder_table.len());
                 while s < w as usize {
                     s += 1;
-                    *unsafe { self.decoder_table.get_unchecked_mut(s) } = (k - 1) as u32;
+                    self.decoder_table[s] = (k - 1) as u32;
                 }
             }
 
@@ -151,7 +151,7 @@ impl ArithmeticModel {
             debug_assert!(self.decoder_table.len() >= self.table_size as usize);
             while s <= self.table_size as usize {
                 s += 1;
-                *unsafe { self.decoder_table.get_unchecked_mut(s) } = self.symbols - 1;
+                self.decoder_table[s] = self.symbols - 1;
             }
         }
 
-- 
2.43.0


From 1ae04fc016def694f18af2701174b2fe7efc9171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 30/32] fix: the encoder wrote outside of its buffer when used
 after a failed write

---
 src/encoders.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index 1d2fe99..c7949cb 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -462,11 +462,12 @@ impl<T: Write> ArithmeticEncoder<T> {
         if self.out_byte.cast_const() == self.end_of_buffer() {
             self.out_byte = self.out_buffer.as_mut_ptr();
         }
+        // Writing may fail, what is left must not lead out of the buffer
+        self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
 
         let slc = unsafe { std::slice::from_raw_parts(self.out_byte, AC_BUFFER_SIZE) };
         self.out_stream.write_all(slc)?;
         self.write_held_blocks()?;
-        self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
 
         debug_assert!(self.end_byte > self.out_byte);
         debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
-- 
2.43.0


From d31712b0916781dfeb08dcfd8a4365abb0c16e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:02 +0000
Subject: [PATCH 31/32] fix: the encoder's pointers into its own buffer were
 invalidated when it moved

---
 src/encoders.rs | 91 +++++++++++++++++++------------------------------
 1 file changed, 36 insertions(+), 55 deletions(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index c7949cb..0c1217c 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -98,8 +98,9 @@ const AC_BUFFER_SIZE: usize = 4096;
 pub struct ArithmeticEncoder<T: Write> {
     out_buffer: Box<[u8]>,
 
-    out_byte: *mut u8,
-    end_byte: *const u8,
+    // Positions in the out_buffer
+    out_byte: usize,
+    end_byte: usize,
 
     // Number of blocks of AC_BUFFER_SIZE bytes that are between the half of the buffer
     // being written and the other one. They were full of 0xFF,
@@ -115,10 +116,10 @@ pub struct ArithmeticEncoder<T: Write> {
 
 impl<T: Write> ArithmeticEncoder<T> {
     pub fn new(out_stream: T) -> Self {
-        let mut out_buffer = vec![0u8; 2 * AC_BUFFER_SIZE].into_boxed_slice();
+        let out_buffer = vec![0u8; 2 * AC_BUFFER_SIZE].into_boxed_slice();
 
-        let out_byte = out_buffer.as_mut_ptr_range().start;
-        let end_byte = out_buffer.as_mut_ptr_range().end;
+        let out_byte = 0;
+        let end_byte = out_buffer.len();
 
         Self {
             out_buffer,
@@ -133,15 +134,15 @@ impl<T: Write> ArithmeticEncoder<T> {
     }
 
     #[inline]
-    fn end_of_buffer(&self) -> *const u8 {
-        self.out_buffer.as_ptr_range().end
+    fn end_of_buffer(&self) -> usize {
+        self.out_buffer.len()
     }
 
     pub fn reset(&mut self) {
         self.base = 0;
         self.length = decoders::AC_MAX_LENGTH;
         self.out_buffer.fill(0);
-        self.out_byte = self.out_buffer.as_mut_ptr();
+        self.out_byte = 0;
         self.end_byte = self.end_of_buffer();
         self.held_blocks = 0;
         self.held_byte = 0xFF;
@@ -171,21 +172,13 @@ impl<T: Write> ArithmeticEncoder<T> {
         self.renorm_enc_interval()?;
 
         if self.end_byte != self.end_of_buffer() {
-            debug_assert!(
-                (self.out_byte.cast_const())
-                    < self.out_buffer.as_ptr().wrapping_add(AC_BUFFER_SIZE)
-            );
-            let slc = unsafe {
-                std::slice::from_raw_parts(
-                    self.out_buffer.as_ptr().wrapping_add(AC_BUFFER_SIZE),
-                    AC_BUFFER_SIZE,
-                )
-            };
+            debug_assert!(self.out_byte < AC_BUFFER_SIZE);
+            let slc = &self.out_buffer[AC_BUFFER_SIZE..];
             self.out_stream.write_all(&slc)?;
             self.write_held_blocks()?;
         }
 
-        let mut buffer_size = self.out_byte as usize - self.out_buffer.as_ptr() as usize;
+        let mut buffer_size = self.out_byte;
         if self.held_blocks != 0 {
             debug_assert!(buffer_size >= AC_BUFFER_SIZE);
             self.out_stream
@@ -384,47 +377,40 @@ impl<T: Write> ArithmeticEncoder<T> {
         self.out_stream
     }
 
-    /// Returns the pointer to the byte that was written just before the one at `p`
+    /// Returns the position of the byte that was written just before the one at `p`
     /// for a carry to go on there
     #[inline]
-    fn carry_before(&mut self, p: *mut u8) -> *mut u8 {
-        if self.held_blocks != 0 && p.cast_const() == self.end_byte.wrapping_sub(AC_BUFFER_SIZE) {
+    fn carry_before(&mut self, p: usize) -> usize {
+        if self.held_blocks != 0 && p == self.end_byte - AC_BUFFER_SIZE {
             // the carry goes through the blocks that were held because of that
             self.held_byte = 0;
         }
-        if p.cast_const() == self.out_buffer.as_ptr() {
-            self.end_of_buffer().wrapping_sub(1).cast_mut()
+        if p == 0 {
+            self.end_of_buffer() - 1
         } else {
-            p.wrapping_sub(1)
+            p - 1
         }
     }
 
     fn propagate_carry(&mut self) {
         let mut p = self.carry_before(self.out_byte);
 
-        unsafe {
-            while *p == 0xFFu8 {
-                *p = 0;
-                p = self.carry_before(p);
-                debug_assert!(self.out_buffer.as_ptr() <= p);
-                debug_assert!(p.cast_const() < self.end_of_buffer());
-                debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
-            }
-            *p += 1;
+        while self.out_buffer[p] == 0xFFu8 {
+            self.out_buffer[p] = 0;
+            p = self.carry_before(p);
+            debug_assert!(self.out_byte < self.end_of_buffer());
         }
+        self.out_buffer[p] += 1;
     }
 
     fn renorm_enc_interval(&mut self) -> std::io::Result<()> {
         loop {
-            debug_assert!(self.out_buffer.as_ptr() <= self.out_byte);
-            debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
-            debug_assert!(self.out_byte.cast_const() < self.end_byte);
-            unsafe {
-                *self.out_byte = (self.base >> 24) as u8;
-            }
-            self.out_byte = self.out_byte.wrapping_add(1);
+            debug_assert!(self.out_byte < self.end_of_buffer());
+            debug_assert!(self.out_byte < self.end_byte);
+            self.out_buffer[self.out_byte] = (self.base >> 24) as u8;
+            self.out_byte += 1;
 
-            if self.out_byte.cast_const() == self.end_byte {
+            if self.out_byte == self.end_byte {
                 self.manage_out_buffer()?;
             }
             self.base <<= 8;
@@ -446,10 +432,10 @@ impl<T: Write> ArithmeticEncoder<T> {
     }
 
     fn manage_out_buffer(&mut self) -> std::io::Result<()> {
-        debug_assert!(self.out_byte.cast_const() == self.end_byte);
+        debug_assert!(self.out_byte == self.end_byte);
 
-        let written_half = self.out_byte.wrapping_sub(AC_BUFFER_SIZE);
-        let slc = unsafe { std::slice::from_raw_parts(written_half, AC_BUFFER_SIZE) };
+        let written_half = self.out_byte - AC_BUFFER_SIZE;
+        let slc = &self.out_buffer[written_half..self.out_byte];
         if (self.held_blocks == 0 || self.held_byte == 0xFF) && slc.iter().all(|b| *b == 0xFF) {
             // A carry could go through all of it and change the other half,
             // so that one can't be written to the stream yet
@@ -459,23 +445,18 @@ impl<T: Write> ArithmeticEncoder<T> {
             return Ok(());
         }
 
-        if self.out_byte.cast_const() == self.end_of_buffer() {
-            self.out_byte = self.out_buffer.as_mut_ptr();
+        if self.out_byte == self.end_of_buffer() {
+            self.out_byte = 0;
         }
         // Writing may fail, what is left must not lead out of the buffer
-        self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
+        self.end_byte = self.out_byte + AC_BUFFER_SIZE;
 
-        let slc = unsafe { std::slice::from_raw_parts(self.out_byte, AC_BUFFER_SIZE) };
+        let slc = &self.out_buffer[self.out_byte..self.end_byte];
         self.out_stream.write_all(slc)?;
         self.write_held_blocks()?;
 
         debug_assert!(self.end_byte > self.out_byte);
-        debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
+        debug_assert!(self.out_byte < self.end_of_buffer());
         Ok(())
     }
 }
-
-unsafe impl<T: Write + Send> Send for ArithmeticEncoder<T> {}
-/// SAFETY: *u8 is not Sync by default, however the way its used here
-/// it is safe to use it as Sync.
-unsafe impl<T: Write + Sync> Sync for ArithmeticEncoder<T> {}
-- 
2.43.0


From e43e891f8aa0f4cc43c7a496cb2d453b84b67097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 32/32] fix: finishing a second time wrote the last chunk and
 the table again

---
 src/laszip/parallel/appender.rs      | 5 +++--
 src/laszip/parallel/compression.rs   | 7 +++++++
 src/laszip/sequential/appender.rs    | 5 +++--
 src/laszip/sequential/compression.rs | 7 +++++++
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 614a29d..65fbd70 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -54,13 +54,14 @@ where
         let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
             .expect("Somehow, the chunk table was not written");
 
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
+        let mut chunk_table = self.saved_chunk_table.clone();
+        chunk_table.extend(self.compressor.chunk_table());
 
         // 2 .Overwrite with the correct chunk table
         let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
         let dest = self.compressor.get_mut();
         dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
+        chunk_table.write(dest, write_point_count)?;
 
         Ok(())
     }
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 8f135a6..ae3f1e4 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -48,6 +48,8 @@ pub struct ParLasZipCompressor<W> {
     // The rest is compressed when done is called, forming the last chunk
     rest: Vec<u8>,
     dest: W,
+    /// Whether the last chunk and the chunk table are already written
+    is_done: bool,
 }
 
 impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
@@ -77,6 +79,7 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
             table_offset: -1,
             rest,
             dest,
+            is_done: false,
         })
     }
 
@@ -193,6 +196,9 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
     /// - Writes the chunk table
     /// - update the offset to the chunk_table
     pub fn done(&mut self) -> crate::Result<()> {
+        if self.is_done {
+            return Ok(());
+        }
         if self.rest.len() != 0 {
             let last_chunk_size = compress_one_chunk(&self.rest, &self.vlr, &mut self.dest)?;
             self.chunk_table.push(ChunkTableEntry {
@@ -207,6 +213,7 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         }
         update_chunk_table_offset(&mut self.dest, SeekFrom::Start(self.table_offset as u64))?;
         self.chunk_table.write_to(&mut self.dest, &self.vlr)?;
+        self.is_done = true;
         Ok(())
     }
 
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index ce2131e..b9ffc9b 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -150,13 +150,14 @@ where
         let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
             .expect("Somehow, the chunk table was not written");
 
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
+        let mut chunk_table = self.saved_chunk_table.clone();
+        chunk_table.extend(self.compressor.chunk_table());
 
         // 2 .Overwrite with the correct chunk table
         let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
         let dest = self.compressor.get_mut();
         dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
+        chunk_table.write(dest, write_point_count)?;
 
         Ok(())
     }
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 4496462..f629787 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -50,6 +50,8 @@ pub struct LasZipCompressor<'a, W: Write + Send + 'a> {
     /// Position (offset from beginning)
     /// where the current chunk started
     chunk_start_pos: u64,
+    /// Whether the last chunk and the chunk table are already written
+    is_done: bool,
 }
 
 impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
@@ -69,6 +71,7 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
             start_pos: 0,
             chunk_table: ChunkTable::default(),
             current_chunk_entry: ChunkTableEntry::default(),
+            is_done: false,
         })
     }
 
@@ -135,6 +138,9 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     /// Must be called when you have compressed all your points.
     pub fn done(&mut self) -> std::io::Result<()> {
+        if self.is_done {
+            return Ok(());
+        }
         if self.chunk_start_pos == 0 {
             self.reserve_offset_to_chunk_table()?;
         }
@@ -145,6 +151,7 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         let stream = self.record_compressor.get_mut();
         chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
         self.chunk_table.write_to(stream, &self.vlr)?;
+        self.is_done = true;
         Ok(())
     }
 
-- 
2.43.0

