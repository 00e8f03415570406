From ecc962fd116b78189a80a454944613e310a5629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 01/15] fix: include the terminator in the declared size of
 strings

---
 ssbh_lib/src/strings.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 310d2e6..c7c4b9e 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -147,7 +147,12 @@ impl<const N: usize> crate::SsbhWrite for CString<N> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        self.0.size_in_bytes()
+        // Include the null terminator or the null bytes used for empty strings.
+        if self.0.is_empty() {
+            N as u64
+        } else {
+            self.0.len() as u64 + 1
+        }
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From e8240e6772de78d19491cb9403acdaf69c3b3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 02/15] fix: do not write past the end of the output for empty
 byte buffers

---
 ssbh_lib/src/arrays.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssbh_lib/src/arrays.rs b/ssbh_lib/src/arrays.rs
index 6159d5c..ea97340 100644
--- a/ssbh_lib/src/arrays.rs
+++ b/ssbh_lib/src/arrays.rs
@@ -321,6 +321,11 @@ impl SsbhWrite for SsbhByteBuffer {
 
         write_array_header(writer, data_ptr, self.elements.len())?;
 
+        // An empty write past the end can still extend the output for some writers.
+        if self.elements.is_empty() {
+            return Ok(());
+        }
+
         let current_pos = writer.stream_position()?;
         writer.seek(SeekFrom::Start(*data_ptr))?;
         // Use a custom implementation to avoid writing bytes individually.
-- 
2.43.0


From f76561025fca91ca47084713c82155d24354f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 03/15] fix: report vertex attribute offsets past the
 addressable range instead of overflowing

---
 ssbh_data/src/mesh_data.rs             | 14 ++++++++++----
 ssbh_data/src/mesh_data/vector_data.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index b749cce..6810231 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -407,23 +407,29 @@ fn calculate_offset_stride<A: Attribute>(
 ) -> Result<(u64, u64), error::AttributeError> {
     let (offset, stride) = match attribute.index {
         0 => Ok((
-            attribute.offset + mesh_object.vertex_buffer0_offset as u64,
+            mesh_object.vertex_buffer0_offset,
             mesh_object.stride0 as u64,
         )),
         1 => Ok((
-            attribute.offset + mesh_object.vertex_buffer1_offset as u64,
+            mesh_object.vertex_buffer1_offset,
             mesh_object.stride1 as u64,
         )),
         2 => Ok((
-            attribute.offset + mesh_object.vertex_buffer2_offset as u64,
+            mesh_object.vertex_buffer2_offset,
             mesh_object.stride2 as u64,
         )),
         3 => Ok((
-            attribute.offset + mesh_object.vertex_buffer3_offset as u64,
+            mesh_object.vertex_buffer3_offset,
             mesh_object.stride3 as u64,
         )),
         _ => Err(error::AttributeError::NoOffsetOrStride(attribute.index)),
     }?;
+    let offset = attribute.offset.checked_add(offset as u64).ok_or_else(|| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "attribute offset exceeds the addressable range",
+        )
+    })?;
     Ok((offset, stride))
 }
 
diff --git a/ssbh_data/src/mesh_data/vector_data.rs b/ssbh_data/src/mesh_data/vector_data.rs
index 855293c..40c7c0f 100644
--- a/ssbh_data/src/mesh_data/vector_data.rs
+++ b/ssbh_data/src/mesh_data/vector_data.rs
@@ -345,7 +345,16 @@ fn read_vector_data<
     let mut result = Vec::new();
     for i in 0..count as u64 {
         // The data type may be smaller than stride to allow interleaving different attributes.
-        reader.seek(SeekFrom::Start(offset + i * stride))?;
+        let position = i
+            .checked_mul(stride)
+            .and_then(|o| o.checked_add(offset))
+            .ok_or_else(|| {
+                std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "vertex data exceeds the addressable range",
+                )
+            })?;
+        reader.seek(SeekFrom::Start(position))?;
 
         let mut element = [0f32; N];
         for e in element.iter_mut() {
-- 
2.43.0


From 4cc7c977c612d451f444fef41c3225cbf6996818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 04/15] fix: report a truncated rotation sign bit instead of
 panicking

---
 ssbh_data/src/anim_data/compression.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..b17cba3 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -363,14 +363,13 @@ impl Compression for UvTransformCompression {
     }
 }
 
-fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
+fn read_rotation_w(reader: &mut BitReader, rotation: Vector3) -> Result<f32, BitReadError> {
     // Rotations are encoded as xyzw unit quaternions.
     // For a unit quaternion, x^2 + y^2 + z^2 + w^2 = 1.
     // Solving for the missing w gives two expressions:
     // w = sqrt(1 - x^2 + y^2 + z^2), w = -sqrt(1 - x^2 + y^2 + z^2).
     // Thus, we need only need to store the sign bit to uniquely determine w.
-    // TODO: Possible to read past end of stream?
-    let flip_w = reader.read_bit().unwrap();
+    let flip_w = reader.read_bit()?;
 
     let w2 = 1.0 - (rotation.x * rotation.x + rotation.y * rotation.y + rotation.z * rotation.z);
     let w = if w2.is_sign_negative() {
@@ -380,11 +379,12 @@ fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
         w2.sqrt()
     };
 
-    if flip_w {
-        -w
-    } else {
-        w
-    }
+    Ok(if flip_w { -w } else { w })
+}
+
+#[cfg(test)]
+fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
+    read_rotation_w(reader, rotation).unwrap()
 }
 
 fn bit_mask(bit_count: NonZeroU64) -> u64 {
@@ -461,7 +461,7 @@ impl CompressedData for UncompressedTransform {
         };
 
         let rotation_w = if args.has_rotation() {
-            calculate_rotation_w(reader, rotation_xyz)
+            read_rotation_w(reader, rotation_xyz)?
         } else {
             default.rotation.w
         };
-- 
2.43.0


From 13c3cf13d16a6e2721900f228663794a6f6466b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 05/15] fix: do not overflow when decompressing malformed
 pattern indices

---
 ssbh_data/src/anim_data/compression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index b17cba3..f40a175 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -765,7 +765,9 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .wrapping_add(compression.min)
         };
         Ok(value)
     }
-- 
2.43.0


From 99d675197f4e402ad9517af58be09f3cd5886224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 06/15] fix: use enough bits to compress any range of pattern
 indices

---
 ssbh_data/src/anim_data/compression.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index f40a175..70777db 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -787,12 +787,21 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
+        // TODO: How should this work for u32?
+        // Use enough bits to represent the entire range of values.
+        let bit_count = if max - min < 1 << DEFAULT_F32_BIT_COUNT {
+            DEFAULT_F32_BIT_COUNT
+        } else {
+            u32::BITS as u64
+        };
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                bit_count,
             },
         )
     }
-- 
2.43.0


From 6c49e608bf2dd80341c9c7dcca05df5850bbd813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 07/15] fix: report invalid version 1.2 tracks and keep their
 group order deterministic

---
 ssbh_data/src/anim_data.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..89339f2 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -50,7 +50,6 @@ use ssbh_lib::{
     SsbhArray, Vector3, Vector4, Version,
 };
 use ssbh_write::SsbhWrite;
-use std::collections::HashMap;
 use std::{
     convert::{TryFrom, TryInto},
     error::Error,
@@ -392,19 +391,19 @@ fn read_groups_v12(
     tracks: &[ssbh_lib::formats::anim::TrackV1],
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<Vec<GroupData>, error::Error> {
-    // Group by the track type.
-    let mut tracks_by_type = HashMap::new();
+    // Group by the track type in order of first appearance.
+    let mut tracks_by_type: Vec<(GroupType, Vec<_>)> = Vec::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
-        tracks_by_type
-            .entry(group_type)
-            .or_insert(Vec::new())
-            .push((track.name.to_string_lossy(), track_data));
+        let track_data = create_track_data_v12(track, buffers)?;
+        let named_track = (track.name.to_string_lossy(), track_data);
+        match tracks_by_type.iter_mut().find(|(t, _)| *t == group_type) {
+            Some((_, tracks)) => tracks.push(named_track),
+            None => tracks_by_type.push((group_type, vec![named_track])),
+        }
     }
 
     // Use the grouping conventions for version 2.0+ anims.
-- 
2.43.0


From f746a41c0bfd480d0ec6cbe75b8a64d018d43f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:41 +0000
Subject: [PATCH 08/15] fix: do not print or underflow when reading version 1.2
 tracks

---
 ssbh_data/src/anim_data.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 89339f2..886991b 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -430,7 +430,6 @@ fn create_track_data_v12(
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<TrackData, error::Error> {
     // TODO: Add tests for this to buffers.rs.
-    println!("{:?}", track.name.to_string_lossy());
     for property in &track.properties.elements {
         let data = buffers.get(property.buffer_index as usize).ok_or(
             error::Error::BufferIndexOutOfRange {
@@ -442,46 +441,38 @@ fn create_track_data_v12(
         let mut reader = Cursor::new(&data.elements);
         let header: u32 = reader.read_le()?;
 
-        println!("{:?},{:x?}", property.name.to_string_lossy(), header);
-
         // TODO: Make this an enum?
         // TODO: Is the header multiple fields for const, data type, etc?
+        // Check that the data can be read for known headers.
+        // Assume the remainder is the compressed buffer for compressed types.
         match header {
             0x1003 => {
-                println!("{:x?}", reader.read_le::<f32>()?);
+                reader.read_le::<f32>()?;
             }
             0x2003 => {
-                println!("{:?}", reader.read_le::<(f32, f32)>()?);
+                reader.read_le::<(f32, f32)>()?;
             }
             0x3003 => {
-                println!("{:?}", reader.read_le::<Vector3>()?);
+                reader.read_le::<Vector3>()?;
             }
             0x4003 => {
-                println!("{:?}", reader.read_le::<Vector4>()?);
+                reader.read_le::<Vector4>()?;
             }
             0x1013 => {
-                println!("{:x?}", reader.read_le::<u16>()?);
+                reader.read_le::<u16>()?;
             }
             0x3409 => {
-                println!("{:?}", reader.read_le::<V12Test1>()?);
-                // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 52 - 4);
+                reader.read_le::<V12Test1>()?;
             }
             0x4308 => {
-                println!("{:?}", reader.read_le::<V12Test3>()?);
-                // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                reader.read_le::<V12Test3>()?;
             }
             0x4409 => {
-                let test = reader.read_le::<V12Test2>()?;
-                println!("{test:?}");
-                // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 64 - 4);
+                reader.read_le::<V12Test2>()?;
             }
-            x => println!("Unrecognized header: {x:?}"),
+            _ => (),
         }
     }
-    println!();
 
     // TODO: Set the track data based on type?
     // TODO: Set the scale options?
-- 
2.43.0


From b92b6730606bdf8f58452116547ba4dd884adda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 09/15] fix: report malformed shader binaries instead of
 panicking

---
 ssbh_data/src/shdr_data.rs | 69 ++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..31cf86f 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -36,38 +36,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<BinResult<_>>()?,
+        })
     }
 }
 
@@ -85,17 +84,16 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +109,18 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &UniformEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +134,16 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &AttributeEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +154,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Ok(Self::new(&mut reader, &shader)?)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Ok(Self::new(reader, &shader)?)
     }
 }
 
@@ -381,7 +385,7 @@ fn read_string<R: Read + Seek>(
 }
 
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +393,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +404,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<BinResult<_>>()?,
             },
         })
     }
-- 
2.43.0


From 10412308961c411fa70766958e40b5563b9800e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 10/15] fix: do not allocate more than the data present for
 shader strings

---
 ssbh_data/src/shdr_data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 31cf86f..86486d8 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -378,8 +378,13 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    // The length may not be valid, so don't allocate more than is actually present.
+    let length = (s.length as u64).saturating_sub(1);
+    let mut bytes = Vec::new();
+    reader.take(length).read_to_end(&mut bytes)?;
+    if (bytes.len() as u64) < length {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
-- 
2.43.0


From 32cf37c27612ab22b50541baca215cb475849151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 11/15] fix: don't truncate the output file when serialising
 fails

write_to_file created (and truncated) the file before the data was serialised,
so an error like mismatched MeshEx entry counts destroyed the existing file.
---
 ssbh_lib/src/lib.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/ssbh_lib/src/lib.rs b/ssbh_lib/src/lib.rs
index a2662e4..1064b93 100644
--- a/ssbh_lib/src/lib.rs
+++ b/ssbh_lib/src/lib.rs
@@ -195,8 +195,7 @@ impl SsbhFile {
     /// Writes the data to the given path.
     /// The entire file is buffered for performance.
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        write_buffered(&mut file, |c| write_ssbh_header_and_data(c, &self.data))?;
+        write_buffered(path, |c| write_ssbh_header_and_data(c, &self.data))?;
         Ok(())
     }
 }
@@ -251,8 +250,7 @@ macro_rules! ssbh_read_write_impl {
             /// Tries to write the current SSBH type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| write_ssbh_file(c, self, $magic))?;
+                write_buffered(path, |c| write_ssbh_file(c, self, $magic))?;
                 Ok(())
             }
         }
@@ -289,8 +287,7 @@ macro_rules! read_write_impl {
             /// Tries to write the type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| self.write(c))?;
+                write_buffered(path, |c| self.write(c))?;
                 Ok(())
             }
         }
@@ -771,11 +768,8 @@ pub(crate) fn write_ssbh_header_and_data<W: Write + Seek>(
     }
 }
 
-pub(crate) fn write_buffered<
-    W: Write + Seek,
-    F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>,
->(
-    writer: &mut W,
+pub(crate) fn write_buffered<P: AsRef<Path>, F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>>(
+    path: P,
     write_data: F,
 ) -> std::io::Result<()> {
     // Buffer the entire write operation into memory to improve performance.
@@ -783,8 +777,8 @@ pub(crate) fn write_buffered<
     let mut cursor = Cursor::new(Vec::new());
     write_data(&mut cursor)?;
 
-    writer.write_all(cursor.get_mut())?;
-    Ok(())
+    // Don't create or truncate the output file if the data can't be written.
+    fs::write(path, cursor.get_ref())
 }
 
 // TODO: This can probably just be derived.
-- 
2.43.0


From 3161b648e76fb24419c658370302667afb41d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 12/15] fix: reject bone indices that don't fit a skel file

---
 ssbh_data/src/skel_data.rs | 41 ++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..172857a 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -76,6 +76,10 @@ pub mod error {
             minor_version: u16,
         },
 
+        /// The index of a bone or parent bone is too large to store in a [SkelBoneEntry].
+        #[error("bone index {} exceeds the limit of {}", index, limit)]
+        BoneIndexExceedsLimit { index: usize, limit: usize },
+
         /// An error occurred while calculating a transformation matrix.
         #[error(transparent)]
         BoneTransform(#[from] BoneTransformError),
@@ -134,6 +138,10 @@ pub fn calculate_relative_transform(
     }
 }
 
+fn bone_index_error(index: usize, limit: usize) -> error::Error {
+    error::Error::BoneIndexExceedsLimit { index, limit }
+}
+
 fn inv_transform(m: &[[f32; 4]; 4]) -> Matrix4x4 {
     let m = Mat4::from_cols_array_2d(m);
     let inv = m.inverse().to_cols_array_2d();
@@ -163,20 +171,27 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        Some(index) => index as i16,
-                        None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                .map(|(i, b)| {
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i
+                            .try_into()
+                            .map_err(|_| bone_index_error(i, u16::MAX as usize))?,
+                        parent_index: match b.parent_index {
+                            Some(index) => index
+                                .try_into()
+                                .map_err(|_| bone_index_error(index, i16::MAX as usize))?,
+                            None => -1,
+                        },
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<Vec<_>, error::Error>>()?
+                .into(),
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From e350e389bdae2905a8ad919e9304812229d95623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 13/15] fix: reject unsupported skel versions instead of
 writing version 1.0

---
 ssbh_data/src/skel_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index 172857a..599e4fb 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -160,6 +160,13 @@ impl TryFrom<&SkelData> for Skel {
     type Error = error::Error;
 
     fn try_from(data: &SkelData) -> Result<Self, Self::Error> {
+        if (data.major_version, data.minor_version) != (1, 0) {
+            return Err(error::Error::UnsupportedVersion {
+                major_version: data.major_version,
+                minor_version: data.minor_version,
+            });
+        }
+
         let world_transforms = data
             .bones
             .iter()
-- 
2.43.0


From c1064e2476318c31cc7411c11fd342b7afe3cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:02 +0000
Subject: [PATCH 14/15] fix: reject adjacency indices and offsets that don't
 fit an adj file

---
 ssbh_data/src/adj_data.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ssbh_data/src/adj_data.rs b/ssbh_data/src/adj_data.rs
index 446ff6b..cd430d1 100644
--- a/ssbh_data/src/adj_data.rs
+++ b/ssbh_data/src/adj_data.rs
@@ -129,23 +129,26 @@ impl AdjEntryData {
     }
 }
 
+fn try_into_u32(value: usize) -> std::io::Result<u32> {
+    u32::try_from(value).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))
+}
+
 impl TryFrom<&AdjData> for Adj {
     type Error = std::io::Error;
 
     fn try_from(data: &AdjData) -> Result<Self, Self::Error> {
+        let mut offset = 0;
+        let mut entries = Vec::new();
+        for e in &data.entries {
+            entries.push(AdjEntry {
+                mesh_object_index: try_into_u32(e.mesh_object_index)?,
+                index_buffer_offset: try_into_u32(offset)?,
+            });
+            offset += e.vertex_adjacency.len() * std::mem::size_of::<i16>();
+        }
+
         Ok(Adj {
-            entries: data
-                .entries
-                .iter()
-                .scan(0, |offset, e| {
-                    let entry = AdjEntry {
-                        mesh_object_index: e.mesh_object_index as u32,
-                        index_buffer_offset: *offset as u32,
-                    };
-                    *offset += e.vertex_adjacency.len() * std::mem::size_of::<i16>();
-                    Some(entry)
-                })
-                .collect(),
+            entries,
             index_buffer: data
                 .entries
                 .iter()
-- 
2.43.0


From 28411c52892a4c889268c4bf62bdb0b7f5dec69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 15/15] fix: reject vertex influence counts that don't fit a
 mesh file

---
 ssbh_data/src/mesh_data.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index 6810231..7dcd5e3 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -123,6 +123,17 @@ pub mod error {
             minor_version: u16,
         },
 
+        /// The number of bones influencing a vertex is too large to store in a [Mesh](super::Mesh).
+        #[error(
+            "{} bone influences for a single vertex exceeds the limit of {}",
+            influence_count,
+            limit
+        )]
+        VertexInfluenceCountExceedsLimit {
+            influence_count: usize,
+            limit: usize,
+        },
+
         /// Creating a [Mesh](super::Mesh) file for the given version is not supported.
         #[error(
             "creating a version {}.{} mesh is not supported",
@@ -787,11 +798,17 @@ fn create_rigging_buffers<W: Weight>(
 
     for mesh_object in object_data {
         // TODO: unk1 is sometimes set to 0 for singlebound mesh objects, which isn't currently preserved.
+        let max_influences = calculate_max_influences(
+            &mesh_object.bone_influences,
+            mesh_object.vertex_indices.len(),
+        );
         let flags = RiggingFlags {
-            max_influences: calculate_max_influences(
-                &mesh_object.bone_influences,
-                mesh_object.vertex_indices.len(),
-            ) as u8,
+            max_influences: max_influences.try_into().map_err(|_| {
+                error::Error::VertexInfluenceCountExceedsLimit {
+                    influence_count: max_influences,
+                    limit: u8::MAX as usize,
+                }
+            })?,
             unk1: 1,
         };
 
-- 
2.43.0

