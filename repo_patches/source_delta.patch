From 0ea39f1d9cb86a5af34440850062b50d0d2fe689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 01/16] fix: read exactly the requested bytes when opening a
 database

A reader may return fewer bytes than asked for. The header fields, the
block fields and the signatures were left partly zero in that case, and
the logged header contained bytes that were never read.
---
 src/format/kdb2_reader.rs | 6 +++---
 src/io/log_reader.rs      | 6 +++---
 src/types/database.rs     | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..6e658b7 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -346,19 +346,19 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
     let mut data = vec![0; *size];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..40c86ca 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -47,11 +47,11 @@ impl<R> Log for LogReader<R> {
 
 impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        let result = self.inner.read(buf);
+        let size = self.inner.read(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 }
 
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From 6f6d36d680b052d0167f6012cb42ef83addc6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 02/16] fix: write the whole buffer when saving databases and
 key files

A writer may accept fewer bytes than offered; what it did not accept was
silently dropped and the file saved without an error.
---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 src/io/log_writer.rs      |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..fd21435 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -47,11 +47,11 @@ impl<W> Log for LogWriter<W> {
 
 impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let result = self.inner.write(buf);
+        let size = self.inner.write(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 9e89436bd84d6a59d33c355670445eee03f57c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 03/16] fix: do not panic on a payload shorter than the stream
 start bytes

---
 src/format/kdb2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 6e658b7..2bbc4d6 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if !payload.starts_with(&stream_start_bytes.0) {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From 50a65825bde8c78907d178ae59ad8e379ba75388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 04/16] fix: do not panic on colors with multi-byte characters,
 nor accept signs

Seven characters may be more than seven bytes; slicing them panicked.
The parser of numbers accepts a leading plus sign, so "#+1+2+3" was
taken for a color.
---
 src/types/color.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..c0cfec5 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -8,6 +8,7 @@
 
 use std::error;
 use std::fmt;
+use std::ops::Range;
 use std::result::Result;
 
 const HEX_STRING_LENGTH: usize = 7;
@@ -138,24 +139,33 @@ impl error::Error for ColorError {
     }
 }
 
+fn from_hex_digits(hex_str: &str, range: Range<usize>) -> Option<u8> {
+    match hex_str.get(range) {
+        Some(digits) if digits.bytes().all(|b| b.is_ascii_hexdigit()) => {
+            u8::from_str_radix(digits, 16).ok()
+        }
+        _ => None,
+    }
+}
+
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidBlueValue),
+    match from_hex_digits(hex_str, 5..7) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidGreenValue),
+    match from_hex_digits(hex_str, 3..5) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidRedValue),
+    match from_hex_digits(hex_str, 1..3) {
+        Some(val) => Ok(val),
+        None => Err(ColorError::InvalidRedValue),
     }
 }
 
-- 
2.43.0


From bc70f8b26d3a5a2cf06d425425e5956931550ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 05/16] fix: refuse to save a comment that does not fit in its
 header

The size was truncated to 16 bits, so the rest of the comment was
written where the next header was expected: the file could not be
opened again.
---
 src/format/kdb2_writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..50dae67 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -33,7 +33,7 @@ use crate::types::TransformSeed;
 use crate::types::TransformedKey;
 use crate::types::Version;
 use byteorder::{LittleEndian, WriteBytesExt};
-use std::io::Write;
+use std::io::{self, Write};
 
 /// Attempts to write the database content to the writer.
 pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
@@ -106,8 +106,10 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            let size = u16::try_from(comment.0.len())
+                .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "comment too long"))?;
             write_header_id(writer, kdb2::COMMENT_HID)?;
-            write_header_size(writer, comment.0.len() as u16)?;
+            write_header_size(writer, size)?;
             write_bytes(writer, &comment.0)?;
             Ok(())
         }
-- 
2.43.0


From 5ae587e341cb75e8249cfb7b7d874792d4119e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 06/16] fix: decompress the payload as a whole instead of block
 by block

The blocks are cut out of the compressed stream, so a compressed
database of more than one block could not be opened.
---
 src/format/kdb2_reader.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 2bbc4d6..18ae59f 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,7 +312,7 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut data = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
@@ -337,11 +337,10 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        data.extend_from_slice(&raw_data);
     }
 
-    Ok(xml)
+    decompress(compression, &data)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From 423a6041147acdfc3267cd6ec992de39928f2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 07/16] fix: save the custom icon of groups

---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..abb5c7f 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,6 +211,7 @@ fn write_group_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_string_tag(
         writer,
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
-- 
2.43.0


From 3129b95cff95a010b1b10bc5630e5eb3c6de9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 08/16] fix: open databases with empty keys, values and icons

An empty key or value of custom data, an empty key of a string or
binary and the empty data of a custom icon were saved but then taken for
a missing element, which made the whole file unreadable; associations
with an empty window or key sequence were dropped.
---
 src/format/kdb2_xml_reader.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..242bd43 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -615,10 +615,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -662,7 +662,7 @@ fn read_binary<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_binary_key_opt(reader)?;
+                    key = xml::read_binary_key_opt(reader)?.or(Some(BinaryKey(String::new())));
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
@@ -735,7 +735,7 @@ fn read_string<R: Read>(
                 name, attributes, ..
             } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_key_opt(reader)?;
+                    key = xml::read_string_key_opt(reader)?.or(Some(StringKey::from_string("")));
                 }
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
-- 
2.43.0


From f33887827cc796c6e075456f4543ca09699aa8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 09/16] fix: keep text that consists of white space only

The XML reader reports such text as white space rather than characters,
and it was dropped: names, notes, passwords and keys made of blanks
turned empty, or missing, when the database was opened.
---
 src/format/xml.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..c1bfd3b 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -49,7 +49,7 @@ pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
 
 /// Attempts to read optional binary data.
 pub fn read_binary_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Vec<u8>>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match general_purpose::STANDARD.decode(&string) {
             Ok(bin) => Ok(Some(bin)),
             Err(err) => read_err(reader, format!("Base64 {}", err)),
@@ -99,7 +99,7 @@ pub fn read_bool<R: Read>(reader: &mut EventReader<R>) -> Result<bool> {
 
 /// Attempts to read an optional boolean.
 pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.to_lowercase().as_str() {
             "false" => Ok(Some(false)),
             "null" => Ok(None),
@@ -112,7 +112,7 @@ pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool
 
 /// Attempts to read an optional color.
 pub fn read_color_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Color>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match Color::from_hex_string(&string) {
             Ok(color) => Ok(Some(color)),
             Err(err) => read_err(reader, format!("Color {}", err)),
@@ -133,7 +133,7 @@ pub fn read_custom_icon_uuid_opt<R: Read>(
 
 /// Attempts to read a date and time.
 pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Utc>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.parse::<DateTime<Utc>>() {
             Ok(datetime) => Ok(datetime),
             Err(err) => read_err(reader, format!("DateTime {}", err)),
@@ -175,7 +175,7 @@ pub fn read_i32<R: Read>(reader: &mut EventReader<R>) -> Result<i32> {
 
 /// Attempts to read an optional i32.
 pub fn read_i32_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<i32>> {
-    match read_string_opt(reader)? {
+    match read_token_opt(reader)? {
         Some(string) => match string.parse::<i32>() {
             Ok(num) => Ok(Some(num)),
             Err(err) => read_err(reader, format!("Number {}", err)),
@@ -226,7 +226,7 @@ pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
 pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
     let event = reader.next()?;
     match event {
-        reader::XmlEvent::Characters(val) => Ok(Some(val)),
+        reader::XmlEvent::Characters(val) | reader::XmlEvent::Whitespace(val) => Ok(Some(val)),
         reader::XmlEvent::EndElement { .. } => Ok(None),
         _ => {
             let _: Result<Option<String>> =
@@ -267,6 +267,15 @@ pub fn read_string_value_opt<R: Read>(
     }
 }
 
+/// Attempts to read an optional string for which only white space means no value.
+fn read_token_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
+    let is_space = |c| matches!(c, ' ' | '\t' | '\r' | '\n');
+    match read_string_opt(reader)? {
+        Some(ref string) if string.chars().all(is_space) => Ok(None),
+        value => Ok(value),
+    }
+}
+
 /// Attempts to read a UUID.
 pub fn read_uuid<R: Read>(reader: &mut EventReader<R>) -> Result<Uuid> {
     match read_uuid_opt(reader)? {
-- 
2.43.0


From 5b2726b541ca454729219d4a10a2265a295d8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 10/16] fix: refuse to save text that XML cannot represent

Control characters in names, notes and the like were written as they
are; the saved file was not well-formed and could not be opened again.
---
 src/format/kdb2_xml_writer.rs |  2 ++
 src/format/xml.rs             | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index abb5c7f..e6f2c9b 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -104,6 +104,7 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            xml::check_string(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Ref", binary_id.0.as_str());
             writer.write(tag)?;
@@ -119,6 +120,7 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        xml::check_string(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
         let tag = tag.attr("ID", id.0.as_str());
         let tag = tag.attr("Compressed", "True");
diff --git a/src/format/xml.rs b/src/format/xml.rs
index c1bfd3b..653b78c 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -27,7 +27,7 @@ use secstr::SecStr;
 use std::io::{Read, Write};
 use uuid::Uuid;
 use xml::attribute::OwnedAttribute;
-use xml::common::Position;
+use xml::common::{is_xml10_char, Position};
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
@@ -142,6 +142,14 @@ pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Ut
     }
 }
 
+/// Checks that XML can represent the string.
+pub fn check_string(value: &str) -> Result<()> {
+    match value.chars().find(|c| !is_xml10_char(*c)) {
+        Some(c) => Err(Error::XmlError(format!("Invalid character: {:?}", c))),
+        None => Ok(()),
+    }
+}
+
 /// Creates a new read error result.
 pub fn read_err<S, R, X>(reader: &mut EventReader<R>, msg: S) -> Result<X>
 where
@@ -402,6 +410,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
+    check_string(value)?;
     writer.write(value.as_str())?;
     Ok(())
 }
-- 
2.43.0


From b9532fe6ecee9cb44869239ea6ca6bd0d07dd61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 11/16] fix: decrypt protected binaries of the database

Shared binaries with Protected="True" were taken as if they were plain,
and every protected value after them was decrypted with the wrong part of
the key stream.
---
 src/format/kdb2_xml_reader.rs | 20 +++++++++++++++-----
 src/format/xml.rs             | 27 ++++++++++++++-------------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 242bd43..f327a2e 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -70,7 +70,7 @@ fn read_kee_pass_file<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
-                    read_meta(reader, data)?;
+                    read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
@@ -91,13 +91,17 @@ fn read_kee_pass_file<R: Read>(
     Ok(())
 }
 
-fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_meta<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
-                    data.binaries = read_binaries(reader)?;
+                    data.binaries = read_binaries(reader, cipher)?;
                 }
                 kdb2::COLOR_TAG => {
                     data.color = xml::read_color_opt(reader)?;
@@ -218,7 +222,10 @@ fn read_root<R: Read>(
     Ok(())
 }
 
-fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
+fn read_binaries<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<BinariesMap> {
     let mut map = BinariesMap::new();
     loop {
         let event = reader.next()?;
@@ -229,7 +236,10 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
                     let compressed = get_compressed_attr_value(reader, &attributes)?;
-                    let bytes = if compressed {
+                    let protected = xml::get_protected_attr_value(reader, &attributes)?;
+                    let bytes = if protected {
+                        salsa20::decrypt(cipher, &xml::read_binary(reader)?)
+                    } else if compressed {
                         xml::read_gzip(reader)?
                     } else {
                         xml::read_binary(reader)?
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 653b78c..9112f40 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -31,6 +31,20 @@ use xml::common::{is_xml10_char, Position};
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
+/// Attempt to get the value of the Protected attribute.
+pub fn get_protected_attr_value<R: Read>(
+    reader: &mut EventReader<R>,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<bool> {
+    match search_attr_value(attrs, "protected") {
+        Some(string) => match string.to_lowercase().parse::<bool>() {
+            Ok(val) => Ok(val),
+            Err(_) => read_err(reader, "Attribute Protected invalid value"),
+        },
+        None => Ok(false),
+    }
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
@@ -444,16 +458,3 @@ fn get_protect_in_memory_attr_value<R: Read>(
         None => Ok(false),
     }
 }
-
-fn get_protected_attr_value<R: Read>(
-    reader: &mut EventReader<R>,
-    attrs: &Vec<OwnedAttribute>,
-) -> Result<bool> {
-    match search_attr_value(attrs, "protected") {
-        Some(string) => match string.to_lowercase().parse::<bool>() {
-            Ok(val) => Ok(val),
-            Err(_) => read_err(reader, "Attribute Protected invalid value"),
-        },
-        None => Ok(false),
-    }
-}
-- 
2.43.0


From 713de194a67d80a9a5ed70c9a2c0b5dae1c4c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:19 +0000
Subject: [PATCH 12/16] fix: do not panic on payloads whose padding exceeds a
 block

---
 src/crypto/aes256.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..2792d1d 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,16 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{NoPadding, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
+use crate::rust_crypto::symmetriccipher::SymmetricCipherError;
 use crate::types::{MasterIV, MasterKey, Result};
 
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, NoPadding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
@@ -36,9 +37,25 @@ pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
         }
     }
 
+    remove_padding(&mut output)?;
     Ok(output)
 }
 
+/// Remove the PKCS padding. The padding processor of rust-crypto isn't used for
+/// this, because it panics when the padding is larger than the last block.
+fn remove_padding(output: &mut Vec<u8>) -> Result<()> {
+    if let Some(&last) = output.last() {
+        let size = last as usize;
+        if size == 0 || size > 16 || output[output.len() - size..].iter().any(|&b| b != last) {
+            return Err(SymmetricCipherError::InvalidPadding.into());
+        }
+        let length = output.len() - size;
+        output.truncate(length);
+    }
+
+    Ok(())
+}
+
 /// Encrypt the input using the key and initialization vector.
 pub fn encrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
     let mut cipher = aes::cbc_encryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
-- 
2.43.0


From 4c31cf63f8207a8c474fe35dc3c75cfad7d2fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 13/16] fix: read text in CDATA sections

---
 src/format/kdb2_xml_reader.rs | 5 +++--
 src/format/kf_reader.rs       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index f327a2e..bac7db2 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -31,13 +31,14 @@ use crate::types::StringValue;
 use crate::types::Times;
 use crate::types::XmlData;
 use rust_xml::attribute::OwnedAttribute;
-use rust_xml::reader::{EventReader, XmlEvent};
+use rust_xml::reader::{EventReader, ParserConfig, XmlEvent};
 use std::io::Read;
 
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
     let mut data = XmlData::default();
-    let mut reader = EventReader::new(reader);
+    let config = ParserConfig::new().cdata_to_characters(true);
+    let mut reader = EventReader::new_with_config(reader, config);
     let mut cipher = salsa20::new_cipher(stream_key);
     loop {
         let event = reader.next()?;
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 0819578..702adf9 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -11,7 +11,7 @@
 use crate::format::{kf, xml};
 use crate::types::{Error, KeyFile, KeyFileType, Result};
 use hex::FromHex;
-use rust_xml::reader::{EventReader, XmlEvent};
+use rust_xml::reader::{EventReader, ParserConfig, XmlEvent};
 use secstr::SecStr;
 use std::io::{Cursor, Read};
 
@@ -45,7 +45,8 @@ fn read_hex(data: Vec<u8>) -> Result<KeyFile> {
 
 fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
     let mut opt_key: Option<SecStr> = None;
-    let mut reader = EventReader::new(reader);
+    let config = ParserConfig::new().cdata_to_characters(true);
+    let mut reader = EventReader::new_with_config(reader, config);
     loop {
         let event = reader.next()?;
         match event {
-- 
2.43.0


From f56397dd21d024dce392b064499109612cd478b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:48 +0000
Subject: [PATCH 14/16] fix: decompress compressed binaries of entries

---
 src/format/kdb2_xml_reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index bac7db2..87d9343 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -8,6 +8,7 @@
 
 //! The XML reader for KeePass 2 databases.
 
+use crate::compression::gzip;
 use crate::crypto::salsa20::{self, Salsa20};
 use crate::format::{kdb2, xml};
 use crate::types::Association;
@@ -676,7 +677,13 @@ fn read_binary<R: Read>(
                     key = xml::read_binary_key_opt(reader)?.or(Some(BinaryKey(String::new())));
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
+                    let compressed = get_compressed_attr_value(reader, &attributes)?;
+                    value = match xml::read_binary_value_opt(reader, cipher, &attributes)? {
+                        Some(BinaryValue::Plain(ref bytes)) if compressed && !bytes.is_empty() => {
+                            Some(BinaryValue::Plain(gzip::decode(bytes)?))
+                        }
+                        val => val,
+                    };
                 }
                 _ => {}
             },
-- 
2.43.0


From b097acea7d52b083bdb8d0e1c77567d68a8926c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:58 +0000
Subject: [PATCH 15/16] fix: refuse to save protected strings that are not
 UTF-8

---
 src/format/kdb2_xml_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index e6f2c9b..bfb20b0 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -30,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use rust_xml::writer::{EmitterConfig, EventWriter, XmlEvent};
 use std::io::Write;
+use std::str;
 
 /// Attempts to write the database's XML data to the writer.
 pub fn write<W: Write>(
@@ -344,10 +346,13 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            let plain = sec.unsecure().to_vec();
+            if let Err(err) = str::from_utf8(&plain) {
+                return Err(Error::XmlError(format!("UTF8 {}", err)));
+            }
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-            let plain = sec.unsecure().to_vec();
             let encrypted = salsa20::encrypt(cipher, &plain);
             xml::write_binary(writer, encrypted.as_slice())?;
             xml::write_end_tag(writer)?;
-- 
2.43.0


From 43d4cbfa50d5b4bd6b2babd080c1dab9807999de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:08 +0000
Subject: [PATCH 16/16] fix: refuse to save binary and hexadecimal key files of
 another size

---
 src/format/kf_writer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 7386e42..10d6a41 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -9,7 +9,7 @@
 //! The writer for key files.
 
 use crate::format::{kf, xml};
-use crate::types::{KeyFile, KeyFileType, Result};
+use crate::types::{Error, KeyFile, KeyFileType, Result};
 use rust_xml::writer::{EmitterConfig, EventWriter};
 use std::io::Write;
 
@@ -23,16 +23,27 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
+    check_size(key)?;
     writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
+    check_size(key)?;
     let hex = hex::encode(key.key.unsecure());
     writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
+/// Checks that the size of the key is the one by which the type of the file is recognized.
+fn check_size(key: &KeyFile) -> Result<()> {
+    if key.key.unsecure().len() == kf::BINARY_KEY_FILE_LEN {
+        Ok(())
+    } else {
+        Err(Error::InvalidKeyFile)
+    }
+}
+
 fn write_xml<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let config = EmitterConfig::new()
         .perform_indent(true)
-- 
2.43.0

